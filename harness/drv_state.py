"""C11: storing and restoring optimisation results (model, optimisation state, core)."""

import itertools
from pathlib import Path

import kit
import impl
from impl import np
from core import TraceKind

KINDS = {
    "own": ("mcsas_sphere", {"radius": (1.0, 60.0)}, dict(sld=33.4, sld_solvent=1.5)),
    "own2": ("mcsas_sphere", {"radius": (0.25, 9.5)}, dict(sld=7.0, sld_solvent=0.0)),
    "bare": ("mcsas_sphere", {"radius": (1.0, 60.0)}, {}),
    "sphere": ("sphere", {"radius": (2.0, 100.0)}, dict(sld=3.0, sld_solvent=1.0, background=0.0, scale=1.0)),
    "sphere2": ("sphere", {"radius": (2.0, 80.0), "sld": (1.0, 6.0)}, dict(sld_solvent=0.5, background=0.0, scale=1.0)),
    "cylinder": ("cylinder", {"radius": (2.0, 20.0), "length": (30.0, 200.0)},
                 dict(sld=4.0, sld_solvent=1.0, background=0.0, scale=1.0)),
    "coreshell": ("core_shell_sphere", {"thickness": (1.0, 5.0), "radius": (2.0, 50.0), "sld_core": (1.0, 2.0)},
                  dict(sld_shell=2.0, sld_solvent=0.0, background=0.0, scale=1.0)),
    "hard": ("sphere@hardsphere", {"radius": (2.0, 50.0)},
             dict(sld=1.0, sld_solvent=0.0, radius_effective=20.0, volfraction=0.1, background=0.0, scale=1.0)),
}


def sim_static(pts):
    x = np.linspace(0.001, 30, pts)
    return dict(extrapY0=1e-3, extrapScaling=0.5, simDataQ0=x, simDataQ1=None, simDataI=1 / (1 + x**4) + 1e-3,
                simDataISigma=0.01 / (1 + x))


def config(kind):
    if kind.startswith("sim"):
        return "sim", {"factor": (0.5, 4.0)}, sim_static(50 if kind == "sim" else 33)
    name, lim, static = KINDS[kind]
    return name, dict(lim), dict(static)


Q = np.geomspace(0.02, 0.9, 7)
MEAS = dict(Q=[Q], I=0.3 + 1e-2 / Q**3, ISigma=0.05 * (0.3 + 1e-2 / Q**3))


def content(core, ids):
    from drv_hdf import canon

    m, o = core._model, core._opt

    def C(what, v):
        return ids((what, canon(v)))

    ps = m.parameterSet
    shared = dict(modelName=C("name", m.modelName),
                  limits=ids(("lim",) + tuple((k, tuple(float(x) for x in m.fitParameterLimits[k]))
                                              for k in sorted(m.fitParameterLimits))),
                  static=ids(("static",) + tuple((k, canon(np.asarray(m.staticParameters[k], dtype=float)))
                                                 for k in sorted(m.staticParameters)
                                                 if m.staticParameters[k] is not None)))
    own = dict(names=ids(("names", tuple(sorted(map(str, ps.columns))))),
               contributions=ids(("set", tuple((str(c), canon(ps[c].values.astype(float))) for c in sorted(ps.columns)))),
               order=C("order", np.asarray(ps.index)), nContrib=int(m.nContrib), seed=C("seed", m.seed),
               dtype=C("dtype", m.modelDType))
    for k in ("convCrit", "maxIter", "maxAccept"):
        own[k] = C(k, np.asarray(getattr(o, k), dtype=float))
    own["volumes"] = C("vol", np.asarray(m.volumes, dtype=float))
    own["modelI"] = C("I", np.asarray(o.modelI, dtype=float))
    own["gof"] = C("gof", float(o.gof))
    own["x0"] = C("x0", np.asarray(o.x0, dtype=float))
    own["step"], own["accepted"] = int(o.step), int(o.accepted)
    own["steps"] = [int(x) for x in o.acceptedSteps]
    own["gofs"] = [C("gof", float(x)) for x in o.acceptedGofs]

    def lg(v):
        v = np.asarray(v, dtype=float).ravel()
        return [int(round(1e7 * np.log10(x))) if x > 0 and np.isfinite(x) else -1 for x in v]

    own["inlim"] = all(float(m.fitParameterLimits[p][0]) * (1 - 1e-12) <= float(v) <= float(m.fitParameterLimits[p][1]) * (1 + 1e-12)
                       for p in ps.columns for v in ps[p])
    own["lgI"], own["lgV"] = lg(o.modelI), lg(m.volumes)
    return dict(shared=shared, own=own)


def state_run(job):
    import tempfile
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    ids = kit.Interner()
    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    ev, objs = [], {}
    phase = "making a result"

    def where(e):
        p = job["results"][e["r"]]
        return d / p["file"], p["ri"], job["reps"][e["rep"]]

    class Loaded:
        pass

    try:
        with impl.guarded(120):
            for n, o in enumerate(job["orig"], 1):
                name, lim, static = config(job["kinds"][0 if n < 3 else 1])
                m = McModel(modelName=name, modelDType=o["dtype"], nContrib=o["n"], fitParameterLimits=lim,
                            staticParameters=static, seed=o["seed"], logRandom=o["log"])
                opt = McOpt(maxIter=o["maxIter"], convCrit=o["crit"], maxAccept=o["maxAccept"], repetition=0)
                core = McCore(MEAS, model=m, opt=opt)
                core.optimize()
                if o["shuffle"]:  # contributions in any order
                    m.parameterSet = m.parameterSet.loc[list(range(o["n"]))[::-1]]
                objs[n] = core
                ev.append(dict(op="make", o=n, c=content(core, ids)))
            from mcsas3.mc_hdf import ResultIndex

            for e in job["log"]:
                if e["op"] == "store":
                    phase = "storing"
                    fn, ri, rep = where(e)
                    c = objs[e["o"]]
                    c._opt.repetition = rep
                    if isinstance(c, McCore):
                        c.resultIndex = ResultIndex(ri)
                        c._model.resultIndex = ResultIndex(ri)
                        c._opt.resultIndex = ResultIndex(ri)
                        c.store(fn)
                    else:
                        c._model.resultIndex = ResultIndex(ri)
                        c._model.store(fn, rep)
                        c._opt.store(fn, ResultIndex(ri).nxsEntryPoint / "optimization" / f"repetition{rep}")
                elif e["op"] == "load":
                    phase = "restoring"
                    fn, ri, rep = where(e)
                    if e["core"]:
                        # its random numbers start anew, others are needed for progress when continued
                        other = np.random.default_rng([job["seed"], len(ev)])
                        with impl.scripted_random(other):
                            c = McCore(MEAS, loadFromFile=fn, loadFromRepetition=rep, resultIndex=ri)
                    else:
                        c = Loaded()
                        c._model = McModel(loadFromFile=fn, loadFromRepetition=rep, resultIndex=ri)
                        if e["via"]:
                            c._opt = McOpt(resultIndex=ri, loadFromRepetition=e["other"])
                            c._opt.load(fn, repetition=rep)
                        else:
                            c._opt = McOpt(loadFromFile=fn, loadFromRepetition=rep, resultIndex=ri)
                    objs[e["o"]] = c
                else:
                    phase = "continuing"
                    c = objs[e["o"]]
                    c._opt.convCrit, c._opt.maxAccept = 0.0, np.inf
                    c._opt.maxIter = c._opt.step + 9
                    c.optimize()
                r = dict(op=e["op"], o=e["o"], c=content(c, ids))
                if e["op"] == "continue":
                    r["n"] = 9
                else:
                    r.update(r=e["r"], rep=e["rep"])
                    if e["op"] == "load" and e["core"]:
                        r["op"] = "core"
                ev.append(r)
    except (Exception, impl.Hang) as x:
        import traceback

        ev.append(dict(op="exc", phase=phase, what=f"{type(x).__name__}: {x}"[:300], tb=traceback.format_exc()[-800:]))
    finally:
        for f in d.iterdir():
            f.unlink()
        d.rmdir()
    return dict(w=dict(n=len(job["log"])), job=job, ev=ev)


STATE = TraceKind("state", state_run, "TraceState", chunksize=2)


def states(run):
    rng, jobs = run.rng, []
    bs = run.generate("MCState", "MCState", note="all histories over three results and three places")
    n = 260 if run.quick else 6000
    kinds = list(KINDS) + ["sim", "sim2"]
    pairs = [(a, b) for a, b in itertools.product(kinds, kinds) if a != b]
    cont = [b for b in bs if any(e["op"] == "continue" for e in b["log"])]
    some = rng.sample(bs, min(n, len(bs))) + rng.sample(cont, min(n // 3, len(cont)))
    for i, b in enumerate(some):
        log = [dict(e) for e in b["log"]]
        for j, e in enumerate(log):
            if e["op"] == "load":
                # only a core can be continued
                e["core"] = rng.random() < 0.4 or (j + 1 < len(log) and log[j + 1]["op"] == "continue")
                e["via"] = rng.random() < 0.3
                e["other"] = rng.choice([0, 1, 2, 10])
        reps = rng.choice([(0, 1), (1, 10), (1, 11), (2, 12), (10, 1), (3, 100), (0, 10)])
        style = rng.choice([("r.h5", 1, "r.h5", 2), ("r.h5", 1, "r.h5", 10), ("r.h5", 2, "s.h5", 2), ("r.h5", 12, "r.h5", 1)])
        jobs.append(dict(log=log, kinds=pairs[i % len(pairs)], reps=dict(a=reps[0], b=reps[1]),
                         results=dict(X=dict(file=style[0], ri=style[1]), Y=dict(file=style[2], ri=style[3])),
                         seed=rng.randrange(10**6),
                         orig=[dict(n=rng.choice([1, 2, 5, 11, 12]), seed=rng.randrange(10**6), maxIter=rng.choice([0, 7, 25]),
                                    crit=rng.choice([0, 1, 0.5, 1e9]), maxAccept=rng.choice([2, float("inf"), float("inf")]),
                                    log=rng.random() < 0.4, dtype=rng.choice(["fast", "default", "double"]),
                                    shuffle=False) for _ in range(3)]))
    STATE.check(run, jobs, note="histories of storing, restoring and continuing")
