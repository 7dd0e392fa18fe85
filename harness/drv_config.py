"""C21: options of runs, observed while the runs are under way and in what they store."""

import copy
import json
import multiprocessing
import os
import shutil
import tempfile
import time
from pathlib import Path

import kit
import impl
from impl import np, h5py, pandas
from core import TraceKind
from drv_run import dig, isolated

# value number -> value, 0 is the default
CAT = dict(
    convCrit=[1, 0.001, 1e6, 5.0], maxIter=[100000, 0, 3, 7], maxAccept=[float("inf"), 1, 2], weighting=[0.5, 0.25, 1.0],
    nContrib=[300, 1, 3, 5], modelName=["sphere", "mcsas_sphere"], modelDType=["fast", "default", "double"],
    logRandom=[False, True],
    static=[None, dict(sld=33.4, sld_solvent=0.0), dict(sld=7.0, sld_solvent=1.5),
            dict(sld=3.0, sld_solvent=1.0, background=0.0, scale=1.0), dict(sld_solvent=0.5, background=0.0, scale=1.0)])
LIM = dict(radius=["auto", [2.0, 30.0], [3.0, 9.0]], sld=["auto", [1.0, 5.0], [2.0, 2.5]])
OPT = ("convCrit", "maxIter", "maxAccept", "weighting")
MODEL = ("nContrib", "modelName", "modelDType", "logRandom", "static")
KEY = dict(static="staticParameters")
DATA = dict(nbins=[100, 0, 7], IEmin=[0.01, 0.05], dataRange=[[-float("inf"), float("inf")], [0.0, 0.7]],
            qNudge=[0, 0.125], omitQRanges=[None, [[0.2, 0.3]]], measDataLink=["binnedData", "clippedData", "rawData"],
            csvargs=[{"sep": r"\s+", "header": None, "names": ["Q", "I", "ISigma"]},
                     {"sep": ";", "names": ["Q", "I", "ISigma"]}])


def measured(d):
    q = np.round(np.linspace(0.05 + 0.02 * d, 0.8 - 0.07 * d, 6 + d), 6)
    I = np.round((2.0 + d) / (1 + (q * 7) ** 4) + 0.05, 9)
    return q, I, np.round((0.03 if d < 3 else 1e6) * I + 1e-3, 9)


def number(name, x, cat=CAT):
    def eq(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple, np.ndarray)):
            return np.shape(a) == np.shape(b) and all(eq(x, y) for x, y in zip(a, b))
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        return a is None and b is None or a is not None and b is not None and float(a) == float(b)

    for k, v in enumerate(cat[name]):
        try:
            if eq(v, x):
                return k
        except (TypeError, ValueError):
            pass
    return -9


def limit(par, pair):
    try:
        a, b = (float(x) for x in pair)
    except (TypeError, ValueError):
        return dict(par=par, v=-9, d=0)
    for k, v in enumerate(LIM.get(par, [])):
        if k and [a, b] == v:
            return dict(par=par, v=k, d=0)
    for d in range(1, 5):
        q = measured(d)[0]
        if abs(a * q.max() / np.pi - 1) < 1e-9 and abs(b * q.min() / np.pi - 1) < 1e-9:
            return dict(par=par, v=0, d=d)
    return dict(par=par, v=-9, d=0)


def seed_number(s):
    return -2 if s is None else impl.as_int(s)


def watch(spool, want):
    """records what is in force when an optimisation starts; waits there for the others to come"""
    from mcsas3.mc_core import McCore

    orig = McCore.optimize

    def optimize(core, *a, **k):
        o, m = core._opt, core._model
        lim = {p: [float(x) for x in v] if not isinstance(v, str) else v for p, v in dict(m.fitParameterLimits).items()}
        ps = m.parameterSet
        within = all(lim[p][0] <= float(x) <= lim[p][1] for p in ps.columns for x in ps[p])
        rec = dict(rep=int(o.repetition), pid=os.getpid(), seed=seed_number(m.seed),
                   vals={n: number(n, getattr(o if n in OPT else m, KEY.get(n, n), None)) for n in OPT + MODEL},
                   limits=[limit(p, v) for p, v in lim.items()], init=dig(np.asarray(ps.values, dtype=float)),
                   size=len(ps) == m.nContrib and len(m.volumes) == m.nContrib and set(ps.columns) == set(lim)
                   and set((getattr(m, "logRandoms", None) or {"": m.logRandom}).values()) == {m.logRandom}, within=within)
        (spool / f"pid{os.getpid()}").touch()
        t0 = time.time()
        n = lambda: len(list(spool.glob("pid*")))
        while n() < want and time.time() - t0 < 12:
            time.sleep(0.005)
        rec["conc"] = n()
        f = spool / f"rec{os.getpid()}_{time.time_ns()}"
        f.with_suffix(".tmp").write_text(json.dumps(rec))
        f.with_suffix(".tmp").rename(f.with_suffix(".json"))
        return orig(core, *a, **k)

    McCore.optimize = optimize
    return lambda: setattr(McCore, "optimize", orig)


def stored(fn, i):
    out, nrep, ncores = [], -9, -9
    with h5py.File(fn, "r") as f:
        g = f[f"/analyses/MCResult{i}"]
        m, o = g["model"], g["optimization"]
        text = lambda x: x.decode() if isinstance(x, bytes) else str(x)
        get = lambda h, k: h[k][()] if k in h else None
        for k in o:
            if not k.startswith("repetition"):
                continue
            r, mr = o[k], m[k]
            vals = {n: number(n, get(r, n)) for n in OPT}
            vals.update(nContrib=number("nContrib", mr["parameterSet/data"].shape[0]),
                        modelName=number("modelName", text(m["modelName"][()])),
                        modelDType=number("modelDType", text(mr["modelDType"][()])),
                        static=number("static", {n: v[()] for n, v in m["staticParameters"].items()}), logRandom=0)
            out.append(dict(rep=int(k[10:]), vals=vals, seed=seed_number(get(mr, "seed")),
                            limits=[limit(p, v[()]) for p, v in m["fitParameterLimits"].items()]))
        nrep, ncores = impl.as_int(get(o, "nRep")), impl.as_int(get(o, "nCores"))
    return out, nrep, ncores


def kwargs(h):
    kw = {KEY.get(o, o): copy.deepcopy(CAT[o][v]) for o, v in h["given"].items()}
    kw["fitParameterLimits"] = {x["par"]: copy.deepcopy(LIM[x["par"]][x["v"]]) for x in h["limits"]}
    for k in ("nRep", "nCores"):
        if h[k] != -1:
            kw[k] = h[k]
    if h["seed"] != -1:
        kw["seed"] = None if h["seed"] == -2 else h["seed"]
    return kw


def frozen(x):
    if isinstance(x, dict):
        return tuple((k, frozen(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(frozen(v) for v in x)
    return (str(x.dtype), x.shape, x.tobytes()) if isinstance(x, np.ndarray) else (type(x).__name__, repr(x))


def part(e):
    """a component on its own, after others of its kind were used"""
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    kw = {KEY.get(o, o): copy.deepcopy((DATA if e["what"] == "data" else CAT)[o][v]) for o, v in e["given"].items()}
    if e["unknown"]:
        kw["nSuchOption"] = 3
    if e["what"] == "opt":
        x = McOpt(maxIter=77, convCrit=3.5, maxAccept=5, weighting=0.75)
        x.acceptedSteps.append(5)
        x.acceptedGofs.append(2.0)
        x.accepted, x.gof, x.step, x.x0, x.modelI = 3, 1.0, 9, [1.0, 0.0], np.ones(3)
        o = McOpt(**kw)
        fresh = o.accepted is None and o.gof is None and o.step is None and o.x0 is None and o.modelI is None
        fresh = fresh and list(o.acceptedSteps) == [] and list(o.acceptedGofs) == [] and o.repetition in (0, None)
        return {n: number(n, getattr(o, n)) for n in OPT}, fresh
    if e["what"] == "model":
        base = dict(fitParameterLimits=dict(radius=[2.0, 9.0]))
        x = McModel(modelName="mcsas_sphere", nContrib=2, modelDType="double", seed=5, logRandom=True,
                    staticParameters=dict(sld=2.0, sld_solvent=1.0), **base)
        x.pick()
        m = McModel(**{**base, **kw})
        if "seed" not in kw and not np.array_equal(m.parameterSet.values, McModel(**{**base, **kw, "seed": 12345}).parameterSet.values):
            return {n: number(n, getattr(m, KEY.get(n, n))) for n in MODEL}, False
        # what was given stays as it is, for every kind of model
        q, I, s = measured(2)
        sim = dict(extrapY0=0.5, extrapScaling=2.0, simDataQ0=q, simDataI=I, simDataISigma=s)
        for g in (dict(modelName="sim", nContrib=1, seed=1, fitParameterLimits=dict(factor=[0.5, 2.0]), staticParameters=sim),
                  copy.deepcopy({**base, **kw})):
            asked = frozen(g)
            McModel(**g)
            if frozen(g) != asked:
                return {n: number(n, getattr(m, KEY.get(n, n))) for n in MODEL}, False
        return ({n: number(n, getattr(m, KEY.get(n, n))) for n in MODEL},
                m.volumes is None and m.pickParameters is None and m.pickIndex is None and len(m.parameterSet) == m.nContrib)
    q, I, s = measured(1)
    df = pandas.DataFrame(dict(Q=q, I=I, ISigma=s))
    x = McData1D(df=df, nbins=3, IEmin=0.5, dataRange=[0.1, 0.6], qNudge=0.5, omitQRanges=[[0.4, 0.5]],
                 measDataLink="clippedData", csvargs=dict(sep=","))
    x.csvargs["names"] = ["A"]
    m = McData1D(df=df, **kw)
    m.csvargs = dict(m.csvargs)
    m.csvargs.setdefault("header", None)
    vals = {}
    for n in DATA:
        v = getattr(m, n)
        if n == "csvargs":
            v.pop("header")
            v = dict(v, header=None) if n not in e["given"] else v
        if n == "omitQRanges" and v is not None and len(v) == 0:
            v = None  # none omitted either way
        vals[n] = number(n, [list(a) for a in v] if n == "omitQRanges" and v is not None else v, DATA)
    # options for reading one file are those of that file only
    a, b = Path("semicolon.dat"), Path("blank.dat")
    a.write_text("".join(f"{x!r};{y!r};{z!r}\n" for x, y, z in zip(q.tolist(), I.tolist(), s.tolist())))
    b.write_text("".join(f"{x!r} {y!r} {z!r}\n" for x, y, z in zip(q.tolist(), I.tolist(), s.tolist())))
    r = McData1D(df=df, nbins=0)
    own, opts = copy.deepcopy(r.csvargs), dict(sep=";")
    r.from_csv(a, csvargs=opts)
    fresh = r.csvargs == own and opts == dict(sep=";") and np.array_equal(r.rawData["I"], I)
    r.from_csv(b)
    return vals, bool(fresh and r.csvargs == own and np.array_equal(r.rawData["I"], I))


def run_history(job):
    from mcsas3.cli_tools import McSAS3_cli_optimize
    from mcsas3.mc_hat import McHat

    import yaml

    d = Path(job["dir"])
    os.chdir(d)
    hats, kept, ev, given = {}, {}, [], {}
    meas = {}
    for k in range(1, 5):
        q, I, s = measured(k)
        meas[k] = dict(Q=[q], I=I, ISigma=s)
        if k % 2 == 0:  # 2D data, some points with one component at or below zero
            a = np.linspace(0, 2 * np.pi, len(q), endpoint=False)
            meas[k]["Q"] = [q * np.sin(a), q * np.cos(a)]
    fn = d / "result.nxs"
    for n, e in enumerate(job["ev"]):
        e = dict(e)
        if e["op"] == "make":
            kw = kwargs(e["hat"])
            if e["unknown"]:
                kw["nSuchOption"] = 3
            before = frozen(kw)
            try:
                if e["from"]:
                    kw["loadFromFile"], kw["resultIndex"] = fn, e["from"]
                    before = frozen(kw)
                hat = McHat(**kw)
                hats[e["k"]], given[e["k"]], kept[e["k"]] = hat, kw, before
                e["failed"] = False
            except Exception as x:
                e["failed"], e["what"] = True, f"{type(x).__name__}: {x}"[:300]
        elif e["op"] == "part":
            try:
                e["vals"], e["fresh"] = part(e)
                e["failed"] = False
            except Exception as x:
                e["vals"], e["fresh"], e["failed"], e["what_"] = {}, False, True, f"{type(x).__name__}: {x}"[:300]
        elif e["op"] == "refuse":
            try:
                base = dict(modelName="mcsas_sphere", nContrib=1, maxIter=0, staticParameters=dict(sld=2.0, sld_solvent=0.0),
                            fitParameterLimits=dict(radius=[1.0, 2.0]), nRep=1, nCores=1)
                data = dict(meas[1])
                if e["what"] == "limits neither automatic nor a range":
                    base["fitParameterLimits"] = dict(radius="wide")
                elif e["what"] == "automatic limits for data at zero Q":
                    base["fitParameterLimits"] = dict(radius="auto")
                    data["Q"] = [np.r_[0.0, measured(1)[0][1:]]] * (1 + n % 2)
                elif e["what"] == "no repetitions":
                    base["nRep"] = 0
                McHat(**base).run(data, d / "refused.nxs")
                e["failed"] = False
            except Exception:
                e["failed"] = True
        else:
            spool = d / f"spool{n}"
            spool.mkdir()
            undo = watch(spool, e["want"])
            try:
                if e["cli"]:
                    q, I, s = measured(e["d"])
                    (d / "data.csv").write_text("".join(f"{a!r};{b!r};{c!r}\n" for a, b, c in zip(q.tolist(), I.tolist(), s.tolist())))
                    (d / "read.yaml").write_text(yaml.safe_dump(dict(nbins=0, dataRange=[0.0, float("inf")], csvargs=dict(
                        sep=";", header=None, names=["Q", "I", "ISigma"]))))
                    (d / "run.yaml").write_text(yaml.safe_dump(kwargs(e["hat"])))
                    before = [(d / x).read_bytes() for x in ("data.csv", "read.yaml", "run.yaml")]
                    McSAS3_cli_optimize(dataFile=d / "data.csv", resultFile=fn, readConfigFile=d / "read.yaml",
                                        runConfigFile=d / "run.yaml", resultIndex=e["i"], deleteIfExists=False,
                                        nThreads=e["cli"] - 1)
                    e["kept"] = before == [(d / x).read_bytes() for x in ("data.csv", "read.yaml", "run.yaml")]
                else:
                    md = meas[e["d"]]
                    before = frozen(md)
                    hats[e["k"]].run(md, fn, resultIndex=e["i"])
                    e["kept"] = before == frozen(md) and kept[e["k"]] == frozen(given[e["k"]])
                e["failed"] = False
                recs = [json.loads(f.read_text()) for f in sorted(spool.glob("*.json"))]
                e["procs"] = len({r.pop("pid") for r in recs})
                e["conc"] = max([r.pop("conc") for r in recs], default=0)
                e["used"] = recs
                e["stored"], e["nRep"], e["nCores"] = stored(fn, e["i"])
            except Exception as x:
                e["failed"], e["what"] = True, f"{type(x).__name__}: {x}"[:300]
            finally:
                undo()
        ev.append(e)
    return ev


def config_trace(job):
    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    ids = kit.Interner()
    try:
        ev, hung = isolated(run_history, dict(job, dir=str(d)), 240)
        if hung or not isinstance(ev, list):
            ev = [dict(op="hang", what=str(ev)[-900:])]
        for e in ev:
            for u in e.get("used", []):
                u["init"] = ids(u["init"])
            e.pop("want", None)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(w=dict(cpus=multiprocessing.cpu_count()), job=job, ev=ev)


CONFIG = TraceKind("config", config_trace, "TraceConfig", chunksize=1, workers=4)


def rand_hat(rng, cli=False):
    g = {}
    for o in ("convCrit", "maxIter", "maxAccept", "weighting", "nContrib", "modelDType", "logRandom"):
        if rng.random() < dict(maxIter=0.8, nContrib=0.75).get(o, 0.4):
            g[o] = rng.randrange(1, len(CAT[o]))
    lim = [dict(par="radius", v=rng.choice([0, 0, 1, 2]))]
    if rng.random() < 0.55:
        g["modelName"] = 1
        g["static"] = rng.choice([1, 2])
    else:
        g["static"] = 3
        if rng.random() < 0.6:
            g["static"] = 4
            lim.insert(rng.randrange(2), dict(par="sld", v=rng.choice([1, 2])))
    return dict(given=g, limits=lim, nRep=rng.choice([1, 2, 2, 3, 3, -1] if g.get("nContrib", 0) else [1, 2, 3]),
                nCores=rng.choice([1, 1, 2, 3, 0, -1]), seed=rng.choice([-1, -2, 7, 7, 1000, 12346]))


def history(rng, cpus):
    ev, hats, res = [], {}, {}

    def data_for(h):
        return rng.choice([1, 2, 3, 4] if "maxIter" in h["given"] else [3, 4])

    def run(k, h, cli=0):
        i = rng.choice([1, 1, 2, 5])
        eff = dict(h)
        if cli > 1:
            eff["nCores"] = cli - 1
        reps = 10 if h["nRep"] == -1 else h["nRep"]
        want = min(reps, eff["nCores"] if eff["nCores"] > 0 else cpus)
        ev.append(dict(op="run", k=k, d=data_for(h), i=i, cli=cli, hat=h, want=want))
        res[i] = eff

    for _ in range(rng.choice([3, 4, 5, 6])):
        x = rng.random()
        if not hats or x < 0.3:
            k = rng.randrange(1, 4)
            h = rand_hat(rng)
            f = rng.choice(sorted(res)) if res and rng.random() < 0.35 else 0
            u = rng.random() < 0.1
            ev.append(dict(op="make", k=k, hat=h, unknown=u, **{"from": f}))
            if not u:
                if f:
                    h = dict(h)
                    old = res[f]
                    h["nRep"] = old["nRep"] if h["nRep"] == -1 else h["nRep"]
                    h["nCores"] = old["nCores"] if h["nCores"] == -1 else h["nCores"]
                hats[k] = h
        elif x < 0.75:
            k = rng.choice(sorted(hats))
            run(k, hats[k])
        elif x < 0.87:
            run(0, rand_hat(rng, True), cli=rng.choice([1, 1, 2, 3, 4]))
        elif x < 0.95:
            what = rng.choice(["opt", "model", "data"])
            names = dict(opt=OPT, model=("nContrib", "modelDType", "logRandom"), data=tuple(DATA))[what]
            cat = DATA if what == "data" else CAT
            g = {o: rng.randrange(1, len(cat[o])) for o in names if rng.random() < 0.4}
            if what == "model":
                g.update(static=1, modelName=1)
            ev.append(dict(op="part", what=what, given=g, unknown=rng.random() < 0.2))
        else:
            ev.append(dict(op="refuse", what=rng.choice(["limits neither automatic nor a range", "no repetitions",
                                                         "automatic limits for data at zero Q"])))
    return dict(ev=ev)


def check(run):
    run.model_check("MCConfig", need=["DoMake", "DoRun"])
    cpus = multiprocessing.cpu_count()
    jobs = [history(run.rng, cpus) for _ in range(110 if run.quick else 1500)]
    for what in ("limits neither automatic nor a range", "no repetitions", "automatic limits for data at zero Q"):
        jobs.append(dict(ev=[dict(op="refuse", what=what)]))
    CONFIG.check(run, jobs, note="histories of optimisers made and run, also from the command line")
