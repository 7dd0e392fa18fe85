"""C06, C07, C17: runs of several repetitions in their own process group, with recorded file
accesses, forced finishing orders, failing writes and interruptions."""

import contextlib
import functools
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import time
import traceback

import kit
import impl
from impl import np, h5py
from core import TraceKind

PARTS = ["pset", "volumes", "modelI", "x0", "gof", "step", "accepted", "hist"]
OPTKEYS = ["accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "x0", "step",
           "acceptedSteps", "acceptedGofs"]


def dig(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(np.asarray(a, dtype=np.float64))
        h.update(str(a.shape).encode() + a.tobytes())
    return h.hexdigest()[:16]


def content(cols, data, o):
    data = np.asarray(data, dtype=np.float64)
    order = sorted(range(len(cols)), key=lambda i: cols[i])
    return [dig(data[:, order]), dig(o["volumes"]), dig(o["modelI"]), dig(o["x0"]), dig(o["gof"]), dig(o["step"]),
            dig(o["accepted"]), dig(o["acceptedSteps"], o["acceptedGofs"])]


def memory_content(core):
    m, o = core._model, core._opt
    ps = m.parameterSet.sort_index()
    d = {k: getattr(o, k) for k in OPTKEYS}
    d["volumes"] = m.volumes
    return content([str(c) for c in ps.columns], ps.values, d)


def file_content(fn, index=1, job=None):
    """the repetitions in a result file: {r: content or None if incomplete}"""
    static = set(settings(job)["staticParameters"]) if job else set()
    out = {}
    try:
        f = h5py.File(fn, "r")
    except OSError:
        return out
    with f:
        base = f.get(f"/analyses/MCResult{index}")
        if base is None:
            return out
        names = set()
        for g in ("model", "optimization"):
            names |= {k for k in base.get(g, {}) if k.startswith("repetition") and k[10:].isdigit()}
        for name in names:
            r = int(name[10:])
            try:
                m, o = base["model"][name], base["optimization"][name]
                d = {k: o[k][()] for k in OPTKEYS}
                d["volumes"] = m["volumes"][()]
                m["modelDType"][()]
                ps = m["parameterSet"]
                cols = [c.decode() if isinstance(c, bytes) else str(c) for c in ps["columns"][()]]
                data = np.asarray(ps["data"][()], dtype=float)
                data = data[np.argsort(np.asarray(ps["index"][()]), kind="stable")]
                base["model/modelName"][()]
                if set(base["model/fitParameterLimits"]) != set(cols) or set(base["model/staticParameters"]) != static:
                    raise KeyError("settings")
                out[r] = content(cols, data, d)
            except (KeyError, AttributeError, TypeError, ValueError, IndexError):
                out[r] = None
    return out


# ---------------------------------------------------------------- isolated processes
def isolated(fn, arg, timeout):
    """runs fn(arg) in a process group of its own. Returns (result or None, hung)"""
    ctx = mp.get_context("fork")
    out = kit.scratch() / f"iso_{os.getpid()}_{time.time_ns()}.pkl"

    def body():
        os.setsid()
        signal.setitimer(signal.ITIMER_REAL, 0)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        try:
            r = fn(arg)
        except BaseException:
            r = dict(error=traceback.format_exc())
        with open(str(out) + ".tmp", "wb") as fh:
            pickle.dump(r, fh)
        os.rename(str(out) + ".tmp", out)
        os._exit(0)  # leaves possible workers behind, ended below

    p = ctx.Process(target=body)
    p.start()
    t0, hung = time.time(), False
    while p.is_alive() and not out.exists():
        p.join(0.02)
        if time.time() - t0 > timeout:
            hung = True
            break
    p.join(0.5)
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(p.pid, signal.SIGKILL)
    p.join(5)
    res = None
    if out.exists():
        with open(out, "rb") as fh:
            res = pickle.load(fh)
        out.unlink()
    return res, hung


# ---------------------------------------------------------------- the instrumented run
class Recorder:
    """lives in the process group of a run; its patches are inherited by the workers"""

    def __init__(self, job, fn, log):
        self.job, self.fn = job, os.path.realpath(fn)
        self.log = os.open(log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        self.logname = log
        self.cur = None  # repetition in hand in this process
        self.opens = 0  # write accesses since it was computed
        self.inits = {}

    def put(self, **e):
        e["p"] = os.getpid()
        os.write(self.log, (json.dumps(e) + "\n").encode())

    def lines(self):
        with open(self.logname) as fh:
            return [json.loads(x) for x in fh]

    def gate(self, rep):
        order = self.job.get("order")
        if not order or rep not in order:
            return
        i = order.index(rep)
        if i == 0:
            return
        t0 = time.time()
        while time.time() - t0 < 3:
            if any(e["op"] == "first" and e["r"] == order[i - 1] for e in self.lines()):
                return
            time.sleep(0.004)

    def install(self):
        from mcsas3.mc_core import McCore

        rec = self
        orig_opt, orig_init, orig_close = McCore.optimize, h5py.File.__init__, h5py.File.close
        orig_create = h5py.Group.create_dataset
        fault = self.job.get("fault") or {}

        @functools.wraps(orig_opt)
        def optimize(core, *a, **k):
            rep = int(core._opt.repetition)
            if rec.cur is not None:
                rec.put(op="stored", r=rec.cur)
            rec.cur, rec.opens = None, 0
            ps = core._model.parameterSet
            init = [float(x) for x in np.asarray(ps.values, dtype=float).ravel()]
            res = orig_opt(core, *a, **k)
            fin = [float(x) for x in np.asarray(core._model.parameterSet.values, dtype=float).ravel()]
            rec.put(op="computed", r=rep, c=memory_content(core), used=sorted(set(init) | set(fin)))
            rec.cur = rep
            rec.gate(rep)
            return res

        def mine(f):
            try:
                return os.path.realpath(f.filename) == rec.fn
            except Exception:
                return False

        def hits(point):
            return fault.get("kind") == "error" and fault["rep"] == rec.cur and fault["point"] == point

        def raise_error():
            rec.put(op="failed", r=rec.cur)
            raise {"OSError": OSError, "ValueError": ValueError, "RuntimeError": RuntimeError,
                   "KeyError": KeyError}[fault["exc"]]("storing fails here (injected)")

        def init(f, name, mode="r", *a, **k):
            ours = mode != "r" and isinstance(name, (str, os.PathLike)) and os.path.realpath(name) == rec.fn
            if ours and rec.cur is not None:
                rec.opens += 1
                if rec.opens == 1:
                    rec.put(op="first", r=rec.cur)
                n = rec.opens
                if hits("open") and (n == fault["k"] or (fault["all"] and n >= fault["k"])):
                    raise_error()
                if fault.get("kind") in ("interrupt", "kill"):
                    n = sum(e["op"] == "wopen" for e in rec.lines()) + 1
                    if n == fault["k"]:
                        rec.put(op="stop")
                        if fault["kind"] == "interrupt":
                            raise KeyboardInterrupt
                        os.killpg(0, signal.SIGKILL)
                        time.sleep(10)
                rec.put(op="wopen")
            orig_init(f, name, mode, *a, **k)
            if ours:
                f.__dict__["_rec"] = True
                rec.put(op="open")

        def close(f):
            if f.__dict__.pop("_rec", False):
                time.sleep(rec.job.get("slow", 0) * 1e-3)
                rec.put(op="close")
            return orig_close(f)

        def create_dataset(g, name, *a, **k):
            if hits("dataset") and mine(g.file):
                rec.nds = getattr(rec, "nds", 0) + 1
                if rec.nds == fault["k"]:
                    raise_error()
            return orig_create(g, name, *a, **k)

        McCore.optimize = optimize
        h5py.File.__init__ = init
        h5py.File.close = close
        h5py.Group.create_dataset = create_dataset


def settings(job):
    kw = dict(modelName="mcsas_sphere", nContrib=3, modelDType="default",
              fitParameterLimits={"radius": [2.0, 40.0]}, staticParameters=dict(sld=4.0, sld_solvent=1.0),
              maxIter=6, convCrit=0.001)
    if job.get("model") == "sim":
        q = np.linspace(0.01, 2.0, 20)
        kw.update(modelName="sim", fitParameterLimits={"factor": [0.5, 4.0]},
                  staticParameters=dict(extrapY0=0.0, extrapScaling=1e-3, simDataQ0=q, simDataQ1=np.zeros(0),
                                        simDataI=1 / (1 + q) ** 4, simDataISigma=0.01 / (1 + q)))
    if job.get("model") == "two":
        kw.update(fitParameterLimits={"radius": [2.0, 40.0], "sld": [2.0, 6.0]},
                  staticParameters=dict(sld_solvent=1.0))
    for k in ("maxIter", "nContrib", "logRandom"):
        if k in job:
            kw[k] = job[k]
    if "seed" in job:
        s = job["seed"]
        kw["seed"] = np.int64(s["np"]) if isinstance(s, dict) else None if s == "none" else s
    return kw


def meas(which=0):
    q = np.linspace(0.05, 0.9, 6)
    I = (10.0 if which == 0 else 3.0) / (1 + (q * (10 if which == 0 else 4)) ** 4) + 0.05
    return dict(Q=[q], I=I, ISigma=0.05 * I + 1e-4)


def real_run(job):
    """in an isolated process: job nRep, nCores, order, slow, fault, before, ..."""
    from mcsas3.mc_hat import McHat

    fn, log = job["fn"], job["log"]
    rec = Recorder(job, fn, log)
    kw = settings(job)
    if "globalseed" in job:
        np.random.seed(job["globalseed"])
        np.random.uniform(size=3)
    idx = job.get("index", 1)
    hat = None
    for i, b in enumerate(job.get("before", [])):
        # an earlier run: same or another hat, data and settings
        if b.get("same"):
            hat = McHat(nRep=b["nRep"], nCores=b["nCores"], resultIndex=idx, **kw)
            h = hat
        else:
            k2 = dict(kw, nContrib=b.get("nContrib", 4), maxIter=9, convCrit=50.0, seed=b.get("seed", 99))
            h = McHat(nRep=b["nRep"], nCores=b["nCores"], resultIndex=b.get("index", 1), **k2)
        h.run(meas(b.get("data", 1)), fn if b.get("samefile") else fn + f".b{i}", resultIndex=b.get("index", idx))
    rec.install()
    if hat is None:
        hat = McHat(nRep=job["nRep"], nCores=job["nCores"], resultIndex=idx, **kw)
    else:
        hat.nRep, hat.nCores = job["nRep"], job["nCores"]
    try:
        if job.get("only") is not None:
            for r in job["only"]:
                hat.runOnce(meas(), fn, r, resultIndex=idx)
        else:
            hat.run(meas(), fn, resultIndex=idx)
    except KeyboardInterrupt:
        return dict(raised="interrupt")
    except BaseException:
        return dict(raised=traceback.format_exc()[-800:])
    return dict(raised="")


def execute(job, timeout=60):
    d = kit.scratch() / f"run_{os.getpid()}_{time.time_ns()}"
    d.mkdir()
    fn, log = str(d / "result.h5"), str(d / "log")
    open(log, "w").close()
    res, hung = isolated(real_run, dict(job, fn=fn, log=log), timeout)
    with open(log) as fh:
        lines = [json.loads(x) for x in fh if x.endswith("\n")]
    return d, fn, lines, res, hung


def remove(d):
    for f in d.iterdir():
        f.unlink()
    d.rmdir()


def analyse(fn, index):
    """the repetitions an analysis of the file uses"""
    import pandas
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore

    used = []
    orig = McCore.__init__

    @functools.wraps(orig)
    def init(self, *a, **k):
        if k.get("loadFromRepetition") is not None:
            used.append(int(k["loadFromRepetition"]))
        return orig(self, *a, **k)

    hr = pandas.DataFrame([dict(parameter="radius", nBin=3, binScale="linear", presetRangeMin=2.0, presetRangeMax=40.0,
                                binWeighting="vol", autoRange=True)])
    McCore.__init__ = init
    try:
        with impl.guarded(60):
            McAnalysis(fn, meas(), hr, store=False, resultIndex=index)
        return used, True, ""
    except (Exception, impl.Hang) as e:
        return used, False, f"{type(e).__name__}: {e}"[:300]
    finally:
        McCore.__init__ = orig


def run_trace(job):
    d, fn, lines, res, hung = execute(job)
    try:
        ids, pids = kit.Interner(), kit.Interner()
        ev = []
        for e in lines:
            if e["op"] in ("open", "close"):
                ev.append(dict(op=e["op"], p=pids(e["p"])))
            elif e["op"] == "computed":
                ev.append(dict(op="computed", r=e["r"], c=[ids(x) for x in e["c"]]))
            elif e["op"] in ("stored", "failed"):
                ev.append(dict(op=e["op"], r=e["r"]))
        kind = (job.get("fault") or {}).get("kind", "none")
        fault = "none" if kind == "none" else "error" if kind == "error" else "stop"
        fc = file_content(fn, job.get("index", 1), job)
        raised = "stopped" if res is None else res.get("raised", res.get("error", ""))
        ev.append(dict(op="end", raised=bool(raised), hung=hung, what=str(raised)[-300:],
                       file=[dict(r=r, complete=c is not None, c=[ids(x) for x in c or []])
                             for r, c in sorted(fc.items())]))
        if any(c is not None for c in fc.values()) and not hung and job.get("model") != "sim":
            used, ok, what = analyse(fn, job.get("index", 1))
            ev.append(dict(op="analysis", used=used, ok=ok, what=what))
        return dict(w=dict(nRep=job["nRep"], fault=fault), job=job, ev=ev)
    finally:
        remove(d)


def opens_of(lines):
    """write accesses per repetition in a recorded serial run"""
    n, cur = {}, None
    for e in lines:
        if e["op"] == "computed":
            cur = e["r"]
        if e["op"] == "wopen" and cur is not None:
            n[cur] = n.get(cur, 0) + 1
    return n


RUNS = TraceKind("runs", run_trace, "TraceRun", chunksize=1)


def schedules(run, fault=False):
    """finishing orders generated by TLC"""
    return run.generate("MCRun", "GenRun", env=dict(MODE="gen"), note="orders in which the repetitions get to store")


def run_jobs(run):
    jobs = []
    for m in schedules(run):
        jobs.append(dict(nRep=m["nRep"], nCores=m["nWorkers"], order=m["order"], slow=1))
    for n, c in [(1, 0), (1, 3), (2, 2), (5, 1), (9, 2), (12, 0), (11, 1), (4, 8), (6, 3), (3, 0)]:
        jobs.append(dict(nRep=n, nCores=c, slow=1))
    # into a file which has results already
    for n, b, c in [(2, 5, 1), (5, 2, 2), (3, 12, 1)]:
        jobs.append(dict(nRep=n, nCores=c, slow=0, before=[dict(nRep=b, nCores=1, samefile=True)]))
    jobs.append(dict(nRep=3, nCores=2, slow=1, index=4, before=[dict(nRep=5, nCores=1, samefile=True, index=2)]))
    jobs.append(dict(nRep=3, nCores=1, slow=0, before=[dict(same=True, nRep=4, nCores=1, samefile=True, data=0)]))
    for m in ("sim", "two"):
        jobs.append(dict(nRep=4, nCores=2, slow=1, model=m))
    if not run.quick:
        for n in range(1, 14):
            for c in (0, 1, 2, 3, 5, 8):
                jobs.append(dict(nRep=n, nCores=c, slow=1, model=run.rng.choice(["mono", "sim", "two"])))
        for n in (24, 40):
            jobs.append(dict(nRep=n, nCores=8, slow=0))
    return jobs


def runs(run):
    RUNS.check(run, run_jobs(run), note="whole runs; finishing orders forced as generated")


def faults(run):
    d, fn, lines, res, hung = execute(dict(nRep=3, nCores=1))
    remove(d)
    n = opens_of(lines)
    total = sum(n.values())
    jobs = []
    if total:
        excs = ["OSError", "ValueError", "RuntimeError", "KeyError"]

        def err(rep, k, allw, point="open", **kw):
            jobs.append(dict(nRep=3, fault=dict(kind="error", rep=rep, k=k, all=allw, point=point,
                                                exc=excs[len(jobs) % 4]), **kw))

        for rep in (0, 1, 2):
            ks = list(range(1, n.get(rep, 0) + 1))
            if run.quick and rep != 1:
                ks = sorted(set([1, 2, ks[-1], len(ks) // 2] + run.rng.sample(ks, min(2, len(ks))))) if ks else []
            for k in ks:
                err(rep, k, k % 3 == 1, nCores=1)
            for k in ks if not run.quick else sorted({1, max(1, len(ks) // 2), len(ks)}):
                err(rep, k, k % 2 == 1, nCores=2 + k % 2, slow=1)
            for k in range(1, 22, 4 if run.quick else 1):
                err(rep, k, False, "dataset", nCores=1)
        # again with a result there already
        for k in range(1, n.get(1, 0) + 1, 6 if run.quick else 1):
            err(1, k, True, nCores=1, before=[dict(nRep=3, nCores=1, samefile=True)])
        for k in range(1, total + 1, 2 if run.quick else 1):
            jobs.append(dict(nRep=3, nCores=1, fault=dict(kind="interrupt" if k % 4 == 1 else "kill", k=k)))
        for k in range(1, total + 1, 9 if run.quick else 1):
            jobs.append(dict(nRep=3, nCores=3, slow=1, fault=dict(kind="kill", k=k)))
            jobs.append(dict(nRep=3, nCores=1, fault=dict(kind="kill", k=k),
                             before=[dict(nRep=4, nCores=1, samefile=True)]))
        jobs.append(dict(nRep=12, nCores=1, fault=dict(kind="error", rep=10, k=2, all=True, point="open", exc="OSError")))
        jobs.append(dict(nRep=12, nCores=1, fault=dict(kind="error", rep=1, k=5, all=True, point="open", exc="OSError")))
    else:
        jobs.append(dict(nRep=3, nCores=1))
    RUNS.check(run, jobs, note="storing fails at a write, or the run is stopped between two")


# ---------------------------------------------------------------- same repetitions
def same_trace(job):
    """several runs with the same data, settings and seed"""
    ids, vals = kit.Interner(), kit.Interner()
    ev = []
    for v in job["runs"]:
        d, fn, lines, res, hung = execute(dict(job["base"], **v))
        try:
            fc = file_content(fn, 1, job["base"])
            raised = "stopped" if res is None else res.get("raised", res.get("error", ""))
            used = {}
            for e in lines:
                if e["op"] == "computed":
                    used[e["r"]] = [vals(x) for x in e["used"]]
            ev.append(dict(op="run", ok=not hung and not raised, what=str(raised)[-300:], nRep=len(v["only"]) if "only" in v else v["nRep"],
                           reps=[dict(r=r, c=ids(tuple(c)) if c else 0, used=used.get(r, [])) for r, c in sorted(fc.items())]))
        finally:
            remove(d)
    return dict(w=dict(fixed=job["base"].get("seed") != "none"), job=job, ev=ev)


SAME = TraceKind("same", same_trace, "TraceSame", chunksize=1)


def same_jobs(run):
    jobs = []
    bases = [dict(), dict(seed=0), dict(seed=dict(np=7), model="two"), dict(seed="none"), dict(seed=123, model="sim"),
             dict(seed=5, logRandom=True, maxIter=20, nContrib=5), dict(model="two", seed="none"),
             dict(seed=7, maxIter=40)]
    if not run.quick:
        bases += [dict(seed=run.rng.randrange(10**6), model=run.rng.choice(["two", "sim", "one"]),
                       maxIter=run.rng.randrange(1, 60), nContrib=run.rng.randrange(1, 7)) for _ in range(24)]
    for b in bases:
        vs = [dict(nRep=4, nCores=1), dict(nRep=4, nCores=2, order=[3, 2, 1, 0], slow=1),
              dict(nRep=9, nCores=2), dict(nRep=4, nCores=4, order=[2, 0, 3, 1], slow=1), dict(nRep=2, nCores=1, globalseed=3)]
        if b.get("seed") != "none":
            vs += [dict(nRep=3, nCores=0), dict(nRep=1, nCores=1), dict(only=[3], nRep=4, nCores=1), dict(only=[2, 0], nRep=4, nCores=1),
                   dict(nRep=3, nCores=1, before=[dict(same=True, nRep=2, nCores=1, data=1)]),
                   dict(nRep=3, nCores=1, before=[dict(nRep=2, nCores=1, data=0)], globalseed=5),
                   dict(nRep=3, nCores=2, before=[dict(same=True, nRep=3, nCores=2, data=1)]),
                   dict(nRep=12, nCores=3)]
        jobs.append(dict(base=b, runs=vs))
    return jobs


def same(run):
    SAME.check(run, same_jobs(run), note="the same repetition in runs with other process counts, orders, predecessors")
