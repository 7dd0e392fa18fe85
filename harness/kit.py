"""Shared machinery: running TLC, exchanging data with it, scratch space, evidence, verdicts.

TLC talks to the harness over JSON only: the harness writes ndjson files which a TLA+ module reads
(IOEnv.TRACE_FILE), TLC prints one line "@@{...}" per message.
"""

import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("MCSAS3_REPO", "/repo"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = max(1, min(8, os.cpu_count() or 1))

_scratch = None


def scratch() -> Path:
    """a directory of this run, removed at its end"""
    global _scratch
    if _scratch is None:
        _scratch = Path(tempfile.mkdtemp(prefix="mcsas3verif_"))
    return _scratch


def cleanup():
    global _scratch
    if _scratch is not None and str(_scratch).startswith(tempfile.gettempdir()):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


class MachineryError(RuntimeError):
    """the check itself is broken, neither "holds" nor "violated" """


class EvaluationError(MachineryError):
    """TLC could not evaluate the specification on the given data"""


class TlcResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.messages = []  # decoded "@@" messages
        self.violated = None  # name of a violated invariant or property
        self.out = ""
        self.wall = 0.0
        self.coverage = {}


def tlc(module, cfg=None, env=None, workers=NPROC, args=(), timeout=840, heap="4g", files=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg. Raises MachineryError unless it
    finished either clean or with a violated property."""
    meta = tempfile.mkdtemp(dir=scratch(), prefix="tlc")
    cfgp = SPEC / f"{cfg or module}.cfg"
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={meta}",
           "-DTLA-Library=" + str(SPEC), "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", str(cfgp), *args, str(SPEC / f"{module}.tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    r = TlcResult()
    outp = Path(meta) / "out.txt"
    with open(outp, "w") as fh:
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=fh, stderr=subprocess.STDOUT,
                               timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
    r.wall = time.time() - t0
    plain = []
    with open(outp) as fh:
        for line in fh:
            if line.startswith('"@@'):
                r.messages.append(json.loads(json.loads(line.strip())[2:]))
            else:
                plain.append(line)
    r.out = "".join(plain)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|"
                  r"(Temporal properties) were violated", r.out)
    if m:
        r.violated = next(g for g in m.groups() if g)
    for m in re.finditer(r"^<(\w+) line .*>: (\d+):(\d+)", r.out, re.M):
        a = r.coverage.setdefault(m.group(1), [0, 0])
        a[0] += int(m.group(2)); a[1] += int(m.group(3))
    if rc is None:
        raise MachineryError(f"TLC timed out on {module}/{cfgp.name}\n" + r.out[-2000:])
    if r.violated is None and (rc != 0 or "No error has been found" not in r.out):
        err = EvaluationError if r.distinct and rc in (75, 76) else MachineryError
        err = err(f"TLC failed on {module}/{cfgp.name} (rc={rc})\n" + r.out[-4000:])
        err.result = r
        raise err
    return r


def check_json(x, path="$"):
    """TLC's JSON reader: no floats, no null, 32-bit integers only"""
    if isinstance(x, bool) or isinstance(x, str):
        return
    if isinstance(x, int):
        if not -(2**31) < x < 2**31:
            raise MachineryError(f"integer out of TLC's range at {path}: {x}")
        return
    if isinstance(x, list):
        for i, v in enumerate(x):
            check_json(v, f"{path}[{i}]")
        return
    if isinstance(x, dict):
        for k, v in x.items():
            if not isinstance(k, str):
                raise MachineryError(f"key {k!r} at {path}")
            check_json(v, f"{path}.{k}")
        return
    raise MachineryError(f"unsupported JSON value at {path}: {x!r}")


def write_nd(name, records):
    p = scratch() / name
    with open(p, "w") as fh:
        for r in records:
            check_json(r)
            fh.write(json.dumps(r) + "\n")
    return p


def evaluate(module, inputs, cfg=None, chunk=4000, timeout=840, heap="4g"):
    """Uses a specification as oracle: module prints one message [i |-> index, ...] per input."""
    if not inputs:
        return [], 0
    outs = [None] * len(inputs)
    states = 0
    for s in range(0, len(inputs), chunk):
        part = inputs[s:s + chunk]
        f = write_nd(f"oracle_{module}_{s}.ndjson", part)
        r = tlc(module, cfg, env={"TRACE_FILE": f}, timeout=timeout, heap=heap)
        if r.violated:
            raise MachineryError(f"{module}: {r.violated} violated while evaluating\n{r.out[-3000:]}")
        states += r.distinct
        for m in r.messages:
            outs[s + m["i"] - 1] = m
        f.unlink()
    if any(o is None for o in outs):
        raise MachineryError(f"{module}: no answer for some inputs")
    return outs, states


def validate(module, traces, cfg=None, chunk=3000, timeout=840, heap="4g", events="ev"):
    """Trace validation: every trace is [.. , ev |-> sequence of events]. The module steps through
    all events of all traces and prints [t, l, fails] for each step that is not the specified one.
    Returns (failures, distinct states, transitions)."""
    fails, states, trans = [], 0, 0
    for s in range(0, len(traces), chunk):
        part = traces[s:s + chunk]
        f = write_nd(f"trace_{module}_{s}.ndjson", part)
        try:
            r = tlc(module, cfg, env={"TRACE_FILE": f}, timeout=timeout, heap=heap)
        except EvaluationError as e:
            # something was observed for which the specification has no meaning at all
            r = e.result
            for m in r.messages:
                m["trace"] = s + m["t"] - 1
                fails.append(m)
            states += r.distinct
            trans += r.distinct
            fails.append(dict(trace=s + undescribed(module, part, cfg, timeout, heap), l=1, fails=["*"], why=str(e)[-1500:]))
            f.unlink()
            continue
        if r.violated:
            raise MachineryError(f"{module}: {r.violated} violated\n{r.out[-3000:]}")
        want = sum(len(t[events]) + 1 for t in part)
        if r.distinct != want:
            raise MachineryError(f"{module}: {r.distinct} states for {want} trace positions\n" + r.out[-2000:])
        states += r.distinct
        trans += r.distinct - len(part)
        for m in r.messages:
            m["trace"] = s + m["t"] - 1
            fails.append(m)
        f.unlink()
    return fails, states, trans


def undescribed(module, part, cfg, timeout, heap):
    """index of a trace which the specification cannot be evaluated on, by bisection"""
    lo, hi = 0, len(part)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        f = write_nd(f"bisect_{module}.ndjson", part[lo:mid])
        try:
            tlc(module, cfg, env={"TRACE_FILE": f}, timeout=timeout, heap=heap)
            lo = mid
        except EvaluationError:
            hi = mid
    return lo


def stable_hash(x) -> int:
    return int(hashlib.sha1(repr(x).encode()).hexdigest()[:7], 16)


class Interner:
    """maps values to small integers, equal values to equal ones"""

    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(x, len(self.d) + 1)


def pmap(fn, jobs, workers=NPROC, chunksize=None):
    if not jobs:
        return []
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(min(workers, len(jobs)), mp_context=ctx) as ex:
        return list(ex.map(fn, jobs, chunksize=chunksize or max(1, min(32, len(jobs) // (4 * workers)))))
