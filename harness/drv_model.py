"""C23: what a contribution scatters, of every kind of model, in any order of making, preparing and
evaluating models; the simulated-data model against the exact specification."""

import copy
import warnings

import kit
import impl
from impl import np
from core import OracleKind, TraceKind

from mcsas3.mc_core import McCore
from mcsas3.mc_model import McModel
from mcsas3.mc_opt import McOpt

SIMQ = [0.0625 * k for k in range(1, 40)]
SPHERES = [dict(sld=33.4, sld_solvent=0.0), dict(sld=5, sld_solvent=9.5), dict()]
CONFIGS = [
    *[dict(modelName="mcsas_sphere", staticParameters=s, fit=["radius"]) for s in SPHERES],
    *[dict(modelName="sphere", staticParameters=s, fit=["radius"], dt=d) for s in SPHERES for d in ("fast", "double")],
    dict(modelName="sphere", staticParameters=dict(sld_solvent=2.5), fit=["radius", "sld"], dt="double"),
    dict(modelName="cylinder", staticParameters=dict(sld=3.5), fit=["radius", "length"], dt="double"),
    dict(modelName="cylinder", staticParameters=dict(length=25.0), fit=["radius"], dt="double"),
    dict(modelName="ellipsoid", staticParameters=dict(radius_equatorial=4.0), fit=["radius_polar"], dt="double"),
    dict(modelName="core_shell_sphere", staticParameters=dict(thickness=1.5, sld_core=7.5), fit=["radius"], dt="double"),
    # also given as static, but fitted
    dict(modelName="ellipsoid", staticParameters=dict(radius_polar=2.0, radius_equatorial=3.0), fit=["radius_polar"], dt="double"),
    dict(modelName="mcsas_sphere", staticParameters=dict(sld=12, radius=3.0), fit=["radius"]),
    # the scattering volume is not the one enclosed
    dict(modelName="hollow_cylinder", staticParameters=dict(thickness=2.5, sld=4.5), fit=["radius", "length"], dt="double"),
    dict(modelName="core_shell_sphere@hardsphere", staticParameters=dict(volfraction=0.2), fit=["radius"], dt="double"),
    dict(modelName="sphere@hardsphere", staticParameters=dict(volfraction=0.3), fit=["radius"], dt="double"),
    dict(modelName="sphere@hardsphere", staticParameters=dict(volfraction=0.1, background=0.0), fit=["radius"], dt="fast"),
    *[dict(modelName="sim", fit=["factor"], sim=k,
           staticParameters=dict(extrapY0=y, extrapScaling=c, simDataQ0=np.array(SIMQ[: 30 + k]),
                                 simDataQ1=None, simDataI=np.array([1 / (0.1 + q ** (3 + k)) for q in SIMQ[: 30 + k]]),
                                 simDataISigma=np.array([0.01] * (30 + k))))
      for k, (y, c) in enumerate([(0.0, 1.0), (0.25, 3.0), (2.0, 0.0)])],
]
QS = [np.geomspace(0.05, 2.5, 23), np.linspace(0.02, 0.9, 17), np.array([0.125, 0.25, 1.0]),
      np.geomspace(0.002, 0.07, 9), np.array([0.3]), np.array([0.9, 0.015, 0.4, 2.0, 0.4])]
WITH2D = {"sphere", "cylinder", "ellipsoid", "hollow_cylinder", "mcsas_sphere", "sim"}
LIMITS = dict(radius=[1.0, 12.0], length=[2.0, 40.0], radius_polar=[1.0, 9.0], factor=[0.25, 3.0], sld=[1.0, 9.0])
PRISTINE = {}


def pristine():
    """default parameters of SasModels and compiled models, before the code has done anything"""
    import sasmodels.core
    import sasmodels.direct_model  # noqa: F401

    for c in CONFIGS:
        n = c["modelName"]
        if n in ("sim", "mcsas_sphere"):
            continue
        f = sasmodels.core.load_model(n, dtype=c["dt"])
        f.make_kernel([np.array([0.1, 0.2])])
        PRISTINE[n] = copy.deepcopy(dict(f.info.parameters.defaults))
    from mcsas3 import mc_model as mm

    PRISTINE["mcsas_sphere"] = copy.deepcopy(mm.sphereParameters.defaults)
    PRISTINE["sim"] = copy.deepcopy(mm.simParameters.defaults)


pristine()


def reference(c, q, pars):
    """intensity and volume of a contribution, on its own"""
    name, st = c["modelName"], c["staticParameters"]
    qabs = np.sqrt(sum(v**2 for v in q))
    if name == "mcsas_sphere":
        r = pars["radius"]
        x = qabs * r
        v = 4 / 3 * np.pi * r**3
        contrast = (st.get("sld", 1) - st.get("sld_solvent", 0)) / 100
        return v * contrast**2 * (3 * (np.sin(x) - x * np.cos(x)) / x**3) ** 2, v
    if name == "sim":
        f = pars["factor"]
        x = qabs * f
        i = np.interp(x, st["simDataQ0"], st["simDataI"])
        beyond = x > st["simDataQ0"][-1]
        i[beyond] = st["extrapY0"] + st["extrapScaling"] / x[beyond] ** 4
        return i * f**3, f**3
    import sasmodels.core
    import sasmodels.direct_model as dm

    k = sasmodels.core.load_model(name, dtype=c["dt"]).make_kernel([np.array(v) for v in q])
    full = dict(PRISTINE[name], **st)
    full.update(pars)
    if "@" in name:
        i = dm.call_kernel(k, full)
        return i, k.results()["volume"]
    _, fsq, _, v, _ = dm.call_Fq(k, full)
    return fsq / v, v


def deviation(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return 10**9
    with np.errstate(all="ignore"):
        d = np.abs(a - b) / np.maximum(np.abs(b), 1e-9 * np.max(np.abs(b), initial=1e-290))
    d[(a == b)] = 0
    m = np.max(np.nan_to_num(d, nan=1.0, posinf=1.0), initial=0.0)
    return int(min(m * 1e9, 10**9))


def shown_same(shown, c, mine):
    """the parameters shown: all of the model's with their defaults, or the configured values"""
    want = dict(PRISTINE[c["modelName"]])
    for k, v in shown.items():
        ok = [want[k]] if k in want else []
        if k in c["staticParameters"]:
            ok = [c["staticParameters"][k]] + ([] if mine else ok)
        if not any(np.array_equal(v, o) if v is not None and o is not None else v is o for o in ok):
            return False
    return set(want) <= set(shown)


def model_run(job):
    ev, phase = [], "making a model"
    ids = kit.Interner()
    try:
        with impl.guarded(90), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mods = {}
            for e in job["log"]:
                m, x = e["m"], e["x"]
                if e["op"] == "make":
                    phase = "making a model"
                    c = CONFIGS[job["cfg"][x - 1]]
                    kw = dict(modelName=c["modelName"], nContrib=3, seed=job["seed"], staticParameters=copy.deepcopy(c["staticParameters"]),
                              fitParameterLimits={k: list(LIMITS[k]) for k in c["fit"]})
                    if "dt" in c:
                        kw["modelDType"] = c["dt"]
                    mods[m] = [McModel(**kw), c, None, False]
                    ev.append(dict(op="make", m=m, x=x))
                elif e["op"] == "prepare":
                    phase = "preparing a model for the data"
                    mod, c = mods[m][:2]
                    q = [QS[job["q"][x - 1]].copy()]
                    if job["two"] and c["modelName"] in WITH2D:
                        q.append(np.roll(q[0], 3) * 0.75)
                    n = len(q[0])
                    I = 1 + 10 / (1 + np.arange(n, dtype=float))
                    McCore(dict(Q=q, I=I, ISigma=I * 0.02), model=mod, opt=McOpt())
                    mods[m][2:] = [q, True]
                    ev.append(dict(op="prepare", m=m, x=x))
                elif e["op"] == "evaluate":
                    phase = "evaluating a contribution"
                    mod, c, q, _ = mods[m]
                    pars = {k: job["pars"][x - 1][k] for k in c["fit"]}
                    i, v = mod.calcModelIV(dict(pars))
                    i, v = np.array(i, dtype=float), float(v)
                    ri, rv = reference(c, q, pars)
                    ev.append(dict(op="evaluate", m=m, x=x, c=ids((i.tobytes(), v)), dI=deviation(i, ri), dV=deviation([v], [rv]),
                                   tol=1000 if c.get("dt") == "fast" else 20))
                else:
                    phase = "showing the parameters"
                    ev.append(dict(op="show", m=m, same=bool(shown_same(mods[m][0].showModelParameters(), mods[m][1], mods[m][3]))))
    except (Exception, impl.Hang) as x:
        ev.append(dict(op="exc", phase=phase, what=f"{type(x).__name__}: {x}"[:300]))
    return dict(w=dict(job=0), ev=ev)


def sim_compare(jo):
    job, want = jo
    w, a, b, rho = job["in"], job["alpha"], job["beta"], job["rho"]
    try:
        with impl.guarded(20):
            o = np.array(job["order"])
            st = dict(extrapY0=w["y0"] * b, extrapScaling=w["sc"] * b * (a * rho) ** 4,
                      simDataQ0=np.array(w["simq"])[o] * (a * rho), simDataI=np.array(w["simi"])[o] * b,
                      simDataISigma=np.ones(len(w["simq"])), simDataQ1=None)
            if not job["withq1"]:
                del st["simDataQ1"]
            m = McModel(modelName=job["name"], nContrib=2, seed=1, staticParameters=st, fitParameterLimits=dict(factor=[0.5, 2.0]))
            q = np.array(w["q"]) * a
            m.kernel = m.func.make_kernel([q])
            out = []
            for r, vals in zip(w["rs"], want["vals"]):
                i, v = m.calcModelIV(dict(factor=r * rho))
                R = (r * rho) ** 3
                if abs(v / R - 1) > 1e-12:
                    out.append(("C23:volume of the simulated-data model", f"{v} for {R}"))
                for k, alts in enumerate(vals):
                    if not any(abs(i[k] - (o["w"] + o["n"] / o["d"] ** o["e"]) * b * R) <= 1e-11 * abs(i[k]) + 1e-13 * max(w["simi"]) * b * R for o in alts):
                        out.append(("C23:intensity of the simulated-data model", f"{i[k]/R/b} at x={w['q'][k]*r}"))
                        break
            return out
    except (Exception, impl.Hang) as x:
        return [("C23:the simulated-data model failed", f"{type(x).__name__}: {x}"[:300])]


MODEL = TraceKind("model", model_run, "TraceModel")
SIM = OracleKind("simulated data", sim_compare, "OracleModel")


def sim_job(rng):
    n = rng.choice([2, 3, 5, 12])
    simq = sorted(rng.sample(range(1, 41), n))
    exact = rng.random() < 0.5
    w = dict(q=sorted(rng.sample(range(1, 13), rng.choice([1, 4, 9]))), simq=simq, simi=[rng.randrange(0, 60) for _ in simq],
             y0=rng.choice([0, 0, 1, 5]), sc=rng.choice([0, 1, 1000]), exact=exact, rs=rng.sample(range(1, 8), 3))
    if rng.random() < 0.5:  # right at the ends of the range
        w["q"] = sorted(set(w["q"] + [d for r in w["rs"] for s in (simq[0], simq[-1]) for d in [s // r] if d * r == s and d > 0]))
    # in any order, the one for low Q remains first
    order = [0] + (rng.sample(range(1, n), n - 1) if rng.random() < 0.3 else list(range(1, n)))
    if exact:
        return dict(order=order, alpha=2.0 ** rng.randrange(-6, 3), beta=2.0 ** rng.randrange(-9, 9), rho=2.0 ** rng.randrange(-2, 2), **{"in": w},
                    withq1=rng.random() < 0.5, name=rng.choice(["sim", "Sim"]))
    return dict(order=order, alpha=rng.uniform(0.01, 0.4), beta=10 ** rng.uniform(-8, 8), rho=rng.uniform(0.3, 1.7), **{"in": w},
                withq1=rng.random() < 0.5, name="sim")


def models(run):
    rng = run.rng
    run.model_check("MCModel", env=dict(MODE="sim"), note="simulated-data model on small worlds")
    hs = [b["log"] for b in run.generate("MCModel", "MCModel", env=dict(MODE="hist"), note="all histories of making, preparing, evaluating")]
    jobs = []
    for log in rng.sample(hs, min(len(hs), 500 if run.quick else 8000)):
        c = [rng.randrange(len(CONFIGS)), rng.randrange(len(CONFIGS))]
        if rng.random() < 0.6:  # the same model with other settings
            same = [k for k, o in enumerate(CONFIGS) if o["modelName"] == CONFIGS[c[0]]["modelName"]]
            c[1] = rng.choice(same)
        jobs.append(dict(log=log, cfg=c, q=rng.sample(range(len(QS)), 2), two=rng.random() < 0.4, seed=rng.choice([1, 7]),
                         pars=[{k: rng.uniform(*v) for k, v in LIMITS.items()} for _ in range(2)]))
    MODEL.check(run, jobs, note="histories over all kinds of models")
    SIM.check(run, [sim_job(rng) for _ in range(1500 if run.quick else 20000)], note="exact worlds of the simulated-data model")
