#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and the notes below."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
have = set(re.findall(r'"(C\d\d)"', (V / "harness/plans.py").read_text()))
TECH = {
 "C01": "TLA+ Optimizer spec, TLC; all its behaviours replayed into McCore and validated, real optimisations validated as traces",
 "C02": "TLA+ Optimizer spec, TLC; replay and trace validation of intensity/volume/scaling consistency after every step",
 "C03": "TLA+ Optimizer spec, TLC (incl. termination); replay of all behaviours up to the stopping criterion",
 "C04": "TLA+ Optimizer spec, TLC; scripted and seeded draws validated against the pick rule",
 "C05": "TLA+ Optimizer spec, TLC; acceptance history validated after every step, store and load",
}
NOTE = {
 "C01": "Exhaustive within the worlds of MCOptimizer.tla (up to 3 contributions, 3 parameters, 5 iterations quick; 4/3/7 thorough) on the specification and, behaviour by behaviour, on the code; sampled beyond. Trusts TLC, the projection in harness/drv_optimizer.py and that goodness-of-fit comes from optimizeScalingAndBackground.match.",
}
import importlib.util
extra = V / "tools" / "manifest_notes.py"
if extra.exists():
    sp = importlib.util.spec_from_file_location("n", extra); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    TECH.update(m.TECH); NOTE.update(m.NOTE)
checks = []
for p in props:
    if p in have:
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
            technique=TECH[p], level="model_checking", level_note=NOTE[p]))
man = dict(version=1, setup_cmd="./tools/setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks observe the public objects and the files written; nothing in /repo is instrumented", source_commits=[]),
    checks=checks,
    not_applicable=[dict(property=p, reason="check not built yet") for p in props if p not in have],
    notes="One TLA+ specification per subsystem in spec/, bound to the code by replay of TLC behaviours and by trace validation (harness/). See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
