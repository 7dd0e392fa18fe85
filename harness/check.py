"""Entry point of all checks: check.py <property> [--tier quick|thorough] | --replay <file>

Exit 0: the property held on everything explored. Exit 1 with a line
"VIOLATION property=<id> replay=<file>": it is broken. Anything else: the check itself failed."""

import argparse
import json
import os
import random
import sys
import time
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import kit  # noqa: E402
from core import Run, TraceKind, OracleKind  # noqa: E402,F401

EVID = kit.VERIF / "evidence"
KNOWN = kit.VERIF / "known_findings.txt"


def plan(prop):
    import plans

    return plans.PLANS[prop]


def known(prop):
    """the open findings of a property: clause -> text; "fixed:" entries suppress nothing"""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith("finding: "):
                # finding: property=<id> key=<kind>|<clause>|<job subset as json> <what fails>
                head, what = line[len("finding: "):].split(" :: ", 1)
                fields = dict(f.split("=", 1) for f in head.split(" ", 1))
                if fields["property"] == prop:
                    out[fields["key"]] = what
    return out


def key_of(f):
    return f"{f['kind']}|{f['clause']}|{f['detail'].get('finding', '')}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    EVID.mkdir(exist_ok=True)
    run = Run(a.prop, a.tier, random.Random(f"{kit.SEED}/{a.prop}"))
    plan(a.prop)(run)
    mine = [f for f in run.fails if f["clause"].startswith(a.prop + ":")]
    kn = known(a.prop)
    listed = {key_of(f): f for f in mine if key_of(f) in kn}
    new = [f for f in mine if key_of(f) not in kn]
    for k in listed:
        print(f"KNOWN-FINDING: property={a.prop} {kn[k]}")
    clauses = {}
    for f in new:
        clauses.setdefault((f["kind"], f["clause"]), []).append(f)
    for n, ((kind, clause), fs) in enumerate(sorted(clauses.items(), key=lambda x: x[0])[:5]):
        f = min(fs, key=lambda f: len(json.dumps(f["job"], default=str)))
        p = EVID / f"replay_{a.prop}_{n}.json"
        p.write_text(json.dumps(dict(property=a.prop, kind=kind, clause=clause, occurrences=len(fs),
                                     job=f["job"], detail=f["detail"]), indent=1, default=str))
        print(f"  {kind}: {clause} ({len(fs)} times)")
        if n == 0:
            print(f"VIOLATION property={a.prop} replay={p}")
    ev = dict(property=a.prop, tier="thorough" if a.tier == "thorough" else "quick", seed=kit.SEED,
              level="model_checking",
              coverage=dict(states=run.states, transitions=run.transitions,
                            traces_validated_against_impl=run.traces, samples=run.samples, parts=run.parts,
                            exhaustively_checked_models=run.exhaustive),
              assumptions=run.assumptions, wall_s=round(time.time() - t0, 1), violations=len(new))
    (EVID / f"{a.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    if a.v:
        for p in run.parts:
            print(p)
        for f in run.fails[:10]:
            print(f["kind"], f["clause"], json.dumps(f["detail"], default=str)[:1500])
    print(f"{a.prop} {a.tier}: {run.states} states, {run.transitions} transitions, "
          f"{run.traces} runs of the code, {len(new)} violations, {time.time() - t0:.1f} s")
    return 1 if new else 0


def replay(path):
    import plans  # noqa: F401

    r = json.loads(Path(path).read_text())
    kind = TraceKind.registry[r["kind"]]
    run = Run(r["property"], "quick", random.Random(1))
    kind.check(run, [r["job"]])
    for f in run.fails:
        print(f["clause"], json.dumps(f["detail"], default=str)[:3000])
    bad = any(f["clause"] == r["clause"] for f in run.fails)
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    finally:
        kit.cleanup()
    sys.stdout.flush()
    sys.exit(rc)
