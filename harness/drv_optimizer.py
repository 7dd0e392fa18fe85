"""C01-C05, C11: the optimiser in exact worlds (behaviours from TLC), and real optimisations."""

import json

import kit
import impl
from impl import np
from core import TraceKind


# ---------------------------------------------------------------- exact worlds
GOFS = [(0.0, 1.0), (2.0**20, 2.0**-20), (0.0, 2.0**-40), (0.0, 1.0), (1.0, 2.0**-40), (0.0, 2.0**40)]


class World:
    """the world of a behaviour made real: simulated data model, goodness-of-fit by table"""

    def __init__(self, w, gofs=(0.0, 1.0)):
        self.w = w
        self.gofs = gofs  # where goodness-of-fit values start and what they are apart, powers of two
        self.q = np.array(w["q"], dtype=float)
        self.trials = []

    def meas(self):
        n = len(self.q)
        return dict(Q=[self.q.copy()], I=np.linspace(1.0, 2.0, n), ISigma=np.full(n, 0.1))

    def static(self):
        tab = self.w["table"]
        return dict(extrapY0=0.0, extrapScaling=1.0, simDataQ0=np.arange(len(tab), dtype=float),
                    simDataQ1=None, simDataI=np.array(tab, dtype=float),
                    simDataISigma=np.full(len(tab), 0.1))

    def limits(self):
        return {p: tuple(l) for p, l in zip(self.w["pars"], self.w["lim"])}

    def gof(self, g):
        return self.gofs[0] + self.gofs[1] * g

    def plain(self, gof):
        """the number in the world for a goodness-of-fit of the code"""
        try:
            return impl.as_int((float(gof) - self.gofs[0]) / self.gofs[1])
        except (TypeError, ValueError):
            return impl.NOINT

    def match(self, osb, modelDataI, x0=None):
        v = np.rint(np.asarray(modelDataI, dtype=float))
        self.trials.append(impl.as_ints(modelDataI))
        dot = int(sum(int(a) * int(b) for a, b in zip(self.w["a"], v)))
        g = dot % self.w["M"]
        gof = float("nan") if g == self.w["nan"] else self.gof(g)
        return np.array([1.0 + int(v.sum()) % 5, float(dot % 7 - 3)]), gof


def snapshot(core, world):
    m, o, w = core._model, core._opt, world.w
    try:
        cols = list(m.parameterSet.columns)
        if cols != list(w["pars"]):
            pset = [[impl.NOINT]]
        else:
            pset = [impl.as_ints(r) for r in m.parameterSet.sort_index().values]
    except Exception:
        pset = [[impl.NOINT]]
    steps, gofs = impl.as_ints(o.acceptedSteps), [world.plain(g) for g in np.asarray(o.acceptedGofs, dtype=object).ravel()]
    if len(steps) != len(gofs):
        hist = [[impl.NOINT, len(steps)], [impl.NOINT, len(gofs)]]
    else:
        hist = [[a, b] for a, b in zip(steps, gofs)]
    return dict(pset=pset, vols=impl.as_ints(m.volumes), modelI=impl.as_ints(o.modelI),
                gof=world.plain(o.gof), x0=impl.as_ints(o.x0), step=impl.as_int(o.step),
                accepted=impl.as_int(o.accepted), hist=hist)


def drawn(log):
    return [[impl.as_int(a), impl.as_int(b), k] for a, b, k, _ in log]


def replay(job):
    """one behaviour stepped through the real code; job: w, draws, mode"""
    from mcsas3 import osb
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    w, draws, mode = job["w"], job["draws"], job["mode"]
    n, P = w["n"], len(w["lim"])
    flat = [k for c in draws for k in c]
    extra = job.get("extra") or [(7 * i + 1) % w["D"] for i in range(3 * P)]
    world = World(w, job["gofs"])
    gen = impl.ScriptedGenerator(flat + extra, w["D"])
    ev = []
    oldmatch = osb.optimizeScalingAndBackground.match
    osb.optimizeScalingAndBackground.match = lambda self, modelDataI, x0=None: world.match(self, modelDataI, x0)
    phase = "start"
    try:
        with impl.guarded(20), impl.scripted_random(gen):
            model = McModel(modelName="sim", nContrib=n, fitParameterLimits=world.limits(),
                            staticParameters=world.static(), seed=4711)
            opt = McOpt(maxIter=w["maxIter"], convCrit=world.gof(w["crit"]),
                        maxAccept=np.inf if w["maxAccept"] < 0 else w["maxAccept"], repetition=0)
            core = McCore(world.meas(), model=model, opt=opt)
            ev.append(dict(op="start", draws=[d[2] for d in drawn(gen.log)], st=snapshot(core, world)))

            def iterate():
                pos = len(gen.log)
                world.trials.clear()
                core.iterate()
                ev.append(dict(op="iterate", pick=impl.as_ints([core._model.pickParameters.get(p) for p in w["pars"]])
                               if set(core._model.pickParameters) == set(w["pars"]) else [impl.NOINT] * P,
                               draws=drawn(gen.log[pos:]), trials=[list(x) for x in world.trials],
                               st=snapshot(core, world)))

            def optimize():
                pos = len(gen.log)
                core.optimize()
                log = gen.log[pos:]
                picks = []
                for i in range(0, len(log) - P + 1, P):  # a value belongs to the parameter of its limits
                    part = log[i:i + P]
                    own = {(float(a), float(b)): impl.as_int(v) for a, b, _, v in part}
                    picks.append([own.get((float(lo), float(hi)), impl.as_int(x[3])) for x, (lo, hi) in zip(part, w["lim"])])
                ev.append(dict(op="optimize", picks=picks, draws=drawn(log), st=snapshot(core, world)))

            nit = len(draws) - n
            if mode == "iterate":
                phase = "iterate"
                for _ in range(nit):
                    iterate()
            elif mode == "optimize" or not job.get("halted"):
                phase = "optimize"
                optimize()
                if job.get("twice"):  # nothing is left to do
                    optimize()
            if mode == "reload":
                for cycle in range(2):
                    phase = "reload"
                    fn = kit.scratch() / f"exact{job['i']}.h5"
                    core.store(fn)
                    core = McCore(world.meas(), loadFromFile=fn, loadFromRepetition=0)
                    o = core._opt
                    ev.append(dict(op="reload", st=snapshot(core, world),
                                   lim=[impl.as_ints(core._model.fitParameterLimits[p]) for p in w["pars"]],
                                   stopped=[impl.as_int(o.maxIter), -1 if o.maxAccept == np.inf else impl.as_int(o.maxAccept),
                                            world.plain(o.convCrit)]))
                    if job["i"] % 2 == cycle:  # carried on to where it would have stopped anyway
                        phase = "optimize"
                        optimize()
                        continue
                    phase = "iterate"
                    for _ in range(job["more"]):
                        iterate()
            if mode == "again":  # the same settings object for another optimisation
                phase = "start"
                pos = len(gen.log)
                model = McModel(modelName="sim", nContrib=n, fitParameterLimits=world.limits(),
                                staticParameters=world.static(), seed=4711)
                core = McCore(world.meas(), model=model, opt=opt)
                ev.append(dict(op="start", draws=[d[2] for d in drawn(gen.log[pos:])], st=snapshot(core, world)))
                phase = "iterate"
                for _ in range(job["more"] if core._opt.gof == core._opt.gof else 0):
                    iterate()
    except (Exception, impl.Hang, impl.OutOfDraws) as e:
        ev.append(dict(op="exc", phase=phase, what=f"{type(e).__name__}: {e}"[:200]))
    finally:
        osb.optimizeScalingAndBackground.match = oldmatch
        if mode == "reload":
            (kit.scratch() / f"exact{job['i']}.h5").unlink(missing_ok=True)
    return dict(w=w, mode=mode, ev=ev)


def exact(run, reload=True, replays=True):
    """the specification itself, and all its behaviours replayed"""
    run.model_check("MCOptimizer", need=("AcceptBetter", "RejectEqual", "RejectWorse", "RejectUndefined"),
                    note="all draws in the given worlds; consistency, history, limits, round robin, termination")
    beh = run.generate("MCOptimizer", "GenOptimizer", note="complete behaviours up to the stopping criterion")
    run.rng.shuffle(beh)
    cap = 1600 if run.quick else 16000
    nre = (96 if run.quick else 1200) if reload else 0
    jobs = []
    if replays:
        for b in beh[:cap]:
            jobs.append(dict(w=b["w"], draws=b["draws"], mode="iterate"))
            jobs.append(dict(w=b["w"], draws=b["draws"], mode="optimize", twice=len(jobs) % 4 == 1))
    # continued after loading, and settings used again: the same number for every world
    worlds = {}
    for b in beh:
        worlds.setdefault(json.dumps(b["w"], sort_keys=True), []).append(b)
    order = sorted(worlds) + [k for k in sorted(worlds) if len(json.loads(k)["lim"]) > 1]
    for i in range(nre):
        group = worlds[order[i % len(order)]]
        b = group[(i // len(worlds)) % len(group)]
        w, more = b["w"], 6
        halted = (i // len(worlds)) % 2 == 1
        if halted:  # stored right after the start, so that improvements are still to come
            b = dict(b, draws=b["draws"][: w["n"]])

        def extra(k):
            return [run.rng.randrange(w["D"]) for _ in range(k * len(w["lim"]))]

        jobs.append(dict(w=w, draws=b["draws"], mode="reload", i=i, more=more, halted=halted,
                         extra=extra(2 * more + w["maxIter"] + 1)))
        jobs.append(dict(w=w, draws=b["draws"], mode="again", more=more, extra=extra(w["n"] + w["maxIter"] + more + 1)))
    for k, job in enumerate(jobs):
        job["gofs"] = GOFS[(k // 3) % len(GOFS)]
    EXACT.check(run, jobs, note="behaviours of the specification stepped through McCore with scripted draws")


# ---------------------------------------------------------------- real optimisations
def sphere_I(q, R, dsld):
    """volume-weighted intensity of a sphere, written down independently of the code under test"""
    x = q * R
    V = 4.0 / 3.0 * np.pi * R**3
    return V * (3.0 * (np.sin(x) - x * np.cos(x)) / x**3) ** 2 * dsld**2 * 1e-4, V


def real_scenarios(tier, rng):
    """configurations of real optimisations; deterministic for a given random generator"""
    out = []

    def add(model, lim, static, n, nit, log=False, crit=0.0, acc=-1, seed=None, pts=12, dtype="default", mode="iterate", noise=0.05,
            shape="spheres", steady=0, two=False):
        out.append(dict(model=model, lim=lim, static=static, n=n, nit=nit, log=log, crit=crit, acc=acc,
                        seed=rng.randrange(10**6) if seed is None else seed, pts=pts, dtype=dtype, mode=mode,
                        noise=noise, shape=shape, steady=steady, two=two, i=len(out)))

    own = dict(sld=33.4, sld_solvent=0.0)
    own2 = dict(sld=33.4, sld_solvent=10.0)
    sph = dict(sld=3.0, sld_solvent=1.0, background=0.0, scale=1.0)
    cyl = dict(sld=4.0, sld_solvent=1.0, background=0.0, scale=1.0)
    k = 3 if tier == "quick" else 12
    for _ in range(k):
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 8, 90)
        add("mcsas_sphere", {"radius": (0.5, 400.0)}, own2, 5, 60, log=True)
        add("sphere", {"radius": (2.0, 100.0)}, sph, 6, 60, dtype="fast")
        add("cylinder", {"radius": (2.0, 20.0), "length": (30.0, 200.0)}, cyl, 4, 24, log=True, pts=6)
        add("sphere", {"radius": (2.0, 80.0), "sld": (1.0, 6.0)}, dict(sld_solvent=0.5, background=0.0, scale=1.0), 5, 40)
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 1, 40)
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 6, 120, crit=20.0, mode="optimize")
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 6, 60, acc=4, mode="optimize")
        add("sphere", {"radius": (2.0, 100.0)}, sph, 6, 45, mode="optimize")
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 7, 50, crit=3.0, mode="reload")
        add("sphere", {"radius": (2.0, 100.0)}, sph, 4, 30, mode="reload")
        add("cylinder", {"radius": (2.0, 20.0), "length": (30.0, 200.0)}, cyl, 4, 4, mode="reload", pts=6)
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 5, 60, shape="rising")
        add("sphere", {"radius": (2.0, 100.0)}, sph, 3, 30, mode="reload", shape="rising")
        # a value among the static parameters as well, which the fit parameter takes the place of
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, dict(own, radius=5.0), 4, 20, mode="reload")
        add("sphere", {"radius": (2.0, 100.0), "sld": (1.0, 6.0)}, dict(sph, radius=33.0), 3, 15)
        # data partly below zero, for which the largest background allowed is the best one
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 5, 40, shape="negative")
        add("mcsas_sphere", {"radius": (20.0, 60.0)}, own, 3, 30, shape="negative", mode="optimize")
        add("sphere@hardsphere", {"radius": (2.0, 100.0)},
            dict(sph, radius_effective=20.0, volfraction=0.1, structure_factor_mode=0, radius_effective_mode=0), 3, 15)
        # 2D data
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 4, 40, two=True)
        add("sphere", {"radius": (2.0, 100.0)}, dict(sph, sld=7.5), 5, 30, mode="reload", two=True)
        add("cylinder", {"radius": (2.0, 20.0), "length": (30.0, 200.0)}, cyl, 3, 15, pts=6, two=True)
        # simulated data, evaluated inside and outside of their range
        sq = [0.03 * 1.2**i for i in range(25)]
        add("sim", {"factor": (0.2, 3.0)}, dict(extrapY0=0.01, extrapScaling=0.5, simDataQ0=sq, simDataI=[1 / (0.1 + x**3) for x in sq],
                                                simDataISigma=[0.1] * 25), 4, 40, mode=rng.choice(["iterate", "reload"]))
        # many contributions, of parameters over wide ranges
        add("mcsas_sphere", {"radius": (0.05, 900.0)}, own2, 60, 130, log=True)
        add("sphere", {"radius": (0.5, 900.0), "sld": (-4.0, 6.0)}, dict(sld_solvent=0.5), 12, 30)
    # never improving at all, however long
    for nit in (12000,) if tier == "quick" else (12000, 110000):
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 2, nit, mode="optimize", steady=-1, pts=4)
    # improving all the time, longer than any of the other ones
    for steady, nit in ((4, 2400),) if tier == "quick" else ((4, 2400), (2, 5000), (7, 12000)):
        add("mcsas_sphere", {"radius": (1.0, 60.0)}, own, 3, nit, mode="optimize", steady=steady, pts=4)
    return out


def real_run(job):
    from mcsas3 import osb
    from mcsas3.mc_core import McCore
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    rng = np.random.Generator(np.random.PCG64(job["seed"]))
    q = np.geomspace(0.02, 1.0, job["pts"])
    I0 = sum(sphere_I(q, R, 3.0)[0] for R in rng.uniform(3, 40, 5))
    I0 = I0 / I0.mean() * 10.0 + 0.2
    if job["shape"] == "rising":  # no positive scaling of the model improves the fit of such data
        I0 = 1.0 + 5.0 * (q / q.max()) ** 2
    I0 = I0 * (1 + job["noise"] * rng.standard_normal(len(q)))
    meas = dict(Q=[q], I=np.abs(I0), ISigma=np.abs(I0) * job["noise"] + 1e-3)
    if job["shape"] == "negative":
        meas["I"] = 2.0 + 0.1 * rng.standard_normal(len(q))
        meas["ISigma"] = np.full(len(q), 0.1)
        meas["I"][[0, 5]], meas["ISigma"][[0, 5]] = [-8.0, -1.0], 100.0
    if job["two"]:
        a = rng.uniform(0, 2 * np.pi, len(q))
        a[:2] = [0, np.pi]
        meas["Q"] = [q * np.sin(a), q * np.cos(a)]
    P = list(job["lim"])
    calls = []
    old = osb.optimizeScalingAndBackground.match

    def match(self, modelDataI, x0=None):
        x, g = old(self, modelDataI, x0)
        if job["steady"]:  # better with every trial but each steady-th
            k = match.n = match.n + 1
            g = 1e6 - (k - k // job["steady"]) if job["steady"] > 0 else 1e6 + k % 7
        calls.append((np.array(modelDataI, dtype=float), float(g), [float(v) for v in x]))
        return x, g

    match.n = 0
    rows, x0s = kit.Interner(), kit.Interner()
    ev, gofs = [], set([float(job["crit"])])
    ref = {}

    def contribution(model, row):
        key = tuple(float(row[p]) for p in P)
        if key not in ref:
            I, V = model.calcModelIV(dict(zip(P, key)))
            I = np.array(I, dtype=float)
            own = None
            if job["model"] in ("mcsas_sphere", "sphere"):
                st = dict(job["static"], **dict(zip(P, key)))
                own = sphere_I(q, st["radius"], st["sld"] - st["sld_solvent"])
            ref[key] = (I, float(np.asarray(V).ravel()[0]), own)
        return ref[key]

    def ppb(a, b, scale=None):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return 10**9
        with np.errstate(all="ignore"):
            d = np.abs(a - b) / (np.abs(b) + 1e-12 * np.max(np.abs(b)) if scale is None else scale)
        d = np.max(d) if d.size else 0.0
        return int(min(10**9, np.ceil(d * 1e9))) if np.isfinite(d) else 10**9

    def snap(core):
        m, o = core._model, core._opt
        ps = m.parameterSet.sort_index()
        pars = [{p: float(r[p]) for p in P} for _, r in ps.iterrows()] if set(ps.columns) == set(P) else []
        cs = [contribution(m, r) for r in pars]
        tot = sum((c[0] for c in cs), np.zeros(len(q)))
        dI = ppb(o.modelI, tot)
        if cs and cs[0][2] is not None:
            totown = sum((c[2][0] for c in cs), np.zeros(len(q)))
            dI = max(dI, ppb(o.modelI, totown, scale=np.max(np.abs(totown))))
        dV = ppb(m.volumes, [c[1] for c in cs])
        if cs and cs[0][2] is not None:
            dV = max(dV, ppb(m.volumes, [c[2][1] for c in cs]))
        x = [float(v) for v in o.x0]
        chi = np.sum(((meas["I"] - (o.modelI * x[0] + x[1])) / meas["ISigma"]) ** 2) / len(q)
        mean = meas["I"].mean()
        gofs.add(float(o.gof))
        for g in o.acceptedGofs:
            gofs.add(float(g))
        steps = list(o.acceptedSteps)
        return dict(pset=[rows(tuple(sorted(r.items()))) for r in pars], gof=float(o.gof),
                    x0=x0s(tuple(x)), step=int(o.step), accepted=int(o.accepted),
                    hist=[[int(a), float(b)] for a, b in zip(steps, o.acceptedGofs)]
                    if len(steps) == len(o.acceptedGofs) else [[-7, 0.0]],
                    dI=dI, dV=dV, dG=0 if job["steady"] else ppb([o.gof], [chi]),
                    xok=bool(x[0] >= 0 and abs(x[1]) <= mean * (1 + 1e-9)))

    def worse(intensity, x, g):
        """how much worse the agreement is than with the scaling and background at hand"""
        with np.errstate(all="ignore"):
            chi = np.sum(((meas["I"] - (intensity * x[0] + x[1])) / meas["ISigma"]) ** 2) / len(q)
        return ppb([max(g, chi)], [chi]) if np.isfinite(chi) and not job["steady"] else 0

    def limok(par):
        return all(job["lim"][p][0] * (1 - 1e-12) <= par[p] <= job["lim"][p][1] * (1 + 1e-12) for p in P)

    def rowsof(core):
        return [{p: float(r[p]) for p in P} for _, r in core._model.parameterSet.iterrows()]

    osb.optimizeScalingAndBackground.match = match
    phase = "start"
    fn = kit.scratch() / f"real{job['i']}.h5"
    try:
        with impl.guarded(120 + job["nit"] // 100):
            model = McModel(modelName=job["model"], modelDType=job["dtype"], nContrib=job["n"],
                            fitParameterLimits=dict(job["lim"]), staticParameters=dict(job["static"]),
                            seed=job["seed"], logRandom=job["log"])
            opt = McOpt(maxIter=job["nit"], convCrit=job["crit"],
                        maxAccept=np.inf if job["acc"] < 0 else job["acc"], repetition=0)
            core = McCore(meas, model=model, opt=opt)
            rs = rowsof(core)
            vals = [v for r in rs for v in r.values()]
            ev.append(dict(op="start", st=snap(core), limok=all(map(limok, rs)), distinct=len(set(vals)) == len(vals)))

            def iterate():
                m, o = core._model, core._opt
                calls.clear()
                before, x = np.array(o.modelI, dtype=float), [float(v) for v in o.x0]
                k = o.step % job["n"]
                oldc = contribution(m, m.parameterSet.sort_index().iloc[k])
                core.iterate()
                pick = {p: float(m.pickParameters[p]) for p in P}
                new = contribution(m, pick)
                gofs.add(calls[-1][1])
                ev.append(dict(op="iterate", pick=rows(tuple(sorted(pick.items()))), trial=calls[-1][1],
                               dT=ppb(calls[-1][0], before - oldc[0] + new[0]), dW=worse(calls[-1][0], x, calls[-1][1]), limok=limok(pick), st=snap(core)))

            if job["mode"] in ("iterate", "reload"):
                phase = "iterate"
                for _ in range(job["nit"]):
                    iterate()
            else:
                phase = "optimize"
                calls.clear()
                x, g = [float(v) for v in core._opt.x0], float(core._opt.gof)
                core.optimize()
                tr = [c[1] for c in calls]
                dW = 0
                for c in calls:
                    dW = max(dW, worse(c[0], x, c[1]))
                    if c[1] < g:
                        g, x = c[1], c[2]
                gofs.update(tr)
                ev.append(dict(op="optimize", trials=tr, dW=dW, limok=all(map(limok, rowsof(core))), st=snap(core)))
            if job["mode"] == "reload" or job["steady"]:
                for _ in range(1 if job["steady"] else 2):
                    phase = "reload"
                    core.store(fn)
                    o1, m1 = core._opt, core._model
                    o2 = McOpt(loadFromFile=fn, loadFromRepetition=0)
                    m2 = McModel(loadFromFile=fn, loadFromRepetition=0)
                    same = all(np.array_equal(np.asarray(getattr(o1, k), dtype=float), np.asarray(getattr(o2, k), dtype=float))
                               for k in ("accepted", "convCrit", "gof", "maxIter", "maxAccept", "modelI", "step",
                                         "x0", "acceptedSteps", "acceptedGofs"))
                    same = same and np.array_equal(m1.volumes, m2.volumes) and m1.modelName == m2.modelName
                    hist = list(o1.acceptedSteps), list(o1.acceptedGofs)
                    core = McCore(meas, loadFromFile=fn, loadFromRepetition=0)
                    ev.append(dict(op="reload", st=snap(core), same=bool(same),
                                   histsame=(list(core._opt.acceptedSteps), list(core._opt.acceptedGofs)) == hist))
                    phase = "iterate"
                    for _ in range(0 if job["steady"] else 4 * job["n"]):
                        iterate()
    except (Exception, impl.Hang) as e:
        ev.append(dict(op="exc", phase=phase, what=f"{type(e).__name__}: {e}"[:300]))
    finally:
        osb.optimizeScalingAndBackground.match = old
        if fn.exists():
            fn.unlink()
    # goodness-of-fit values to ranks
    fin = sorted(g for g in gofs if np.isfinite(g))
    rank = {g: i for i, g in enumerate(fin)}

    def rk(g):
        return rank.get(g, -1)

    for e in ev:
        if "trial" in e:
            e["trial"] = rk(e["trial"])
        if "trials" in e:
            e["trials"] = [rk(g) for g in e["trials"]]
        if "st" in e:
            e["st"]["gof"] = rk(e["st"]["gof"])
            e["st"]["hist"] = [[a, rk(b)] for a, b in e["st"]["hist"]]
    w = dict(n=job["n"], maxIter=job["nit"], maxAccept=job["acc"], crit=rank[float(job["crit"])],
             reloads=job["mode"] == "reload")
    return dict(w=w, job={k: v for k, v in job.items()}, ev=ev)


# ---------------------------------------------------------------- random picks
def pick_scenarios(tier, rng):
    out = []
    base = [("lin", [[1, 9]], 4), ("lin", [[0, 8], [100, 108], [-8, 0]], 8), ("log", [[-2, 2]], 4),
            ("log", [[0, 3], [2, 8]], 3), ("log", [[-6, 6], [1, 3], [3, 5]], 2), ("lin", [[5, 9], [5, 9]], 4)]
    base = [(*b, 1.0) for b in base + base[:1]] + [  # narrow ranges, wide ones, small and large values
        ("log", [[0, 8], [-3, 5]], 4, 0.01), ("log", [[300, 308]], 8, 0.05), ("log", [[-12, 12], [0, 24]], 8, 2.0),
        ("lin", [[100000, 100008], [0, 8]], 8, 0.01), ("lin", [[1, 9], [-5, -1]], 4, 1e-9), ("lin", [[0, 4]], 4, 3e12)]
    for kind, lim, D, u in base * (2 if tier == "quick" else 10):
        n = 3
        draws = [rng.choice([0, D - 1, rng.randrange(D)]) for _ in range(len(lim) * (n + 12))]
        out.append(dict(kind=kind, lim=lim, u=u, D=D, n=n, draws=draws, seed=rng.randrange(10**6), whole=len(out) % 2 == 1))
    return out


def pick_run(job):
    from mcsas3.mc_model import McModel

    P, u = len(job["lim"]), job["u"]  # limits in units of u
    log = job["kind"] == "log"
    names = ["radius", "beta", "alpha"][:P]

    def lim(a, b):
        x = (10.0 ** (u * a), 10.0 ** (u * b)) if log else (u * a, u * b)
        # limits may well be given as whole numbers
        return tuple(int(v) if v == int(v) and abs(v) < 2**53 else v for v in x) if job["whole"] else x

    def proj(v):
        v = float(v)
        if log and v > 0:
            return impl.as_int(round(np.log10(v) / u, 6))
        return impl.as_int(v if u == 1 else round(v / u, 6))

    def make(**k):
        return McModel(modelName="mcsas_sphere", nContrib=job["n"], fitParameterLimits=limits,
                       staticParameters=dict(static), seed=job["seed"], logRandom=log)

    limits = {p: lim(*l) for p, l in zip(names, job["lim"])}
    static = dict(sld=3.5, sld_solvent=1.0)
    ev = []

    def event(pars, gen, pos):
        dr = [[impl.as_int(round(a, 9)), impl.as_int(round(b, 9)), k] for a, b, k, _ in gen.log[pos:]]
        ev.append(dict(op="picks", draws=dr, keys=sorted(map(str, pars.keys())),
                       vals=[proj(pars[p]) if p in pars else impl.NOINT for p in names],
                       static=model.staticParameters == static))

    try:
        with impl.guarded(60):
            gen = impl.ScriptedGenerator(job["draws"], job["D"])
            with impl.scripted_random(gen):
                model = make()
            rows = [dict(r) for _, r in model.parameterSet.iterrows()]
            for i, r in enumerate(rows):  # the draws of the initial set, per contribution
                dr = [[impl.as_int(round(a, 9)), impl.as_int(round(b, 9)), k] for a, b, k, _ in gen.log[i * P:(i + 1) * P]]
                ev.append(dict(op="picks", draws=dr, keys=sorted(map(str, r.keys())),
                               vals=[proj(r[p]) if p in r else impl.NOINT for p in names], static=True))
            for _ in range(10):
                pos = len(gen.log)
                model.pick()
                event(model.pickParameters, gen, pos)
            # the real generator: where in the (logarithmic) range the values fall
            model = make()
            N = 1200
            vals = {p: [] for p in names}
            for _ in range(N):
                model.pick()
                for p in names:
                    vals[p].append(float(model.pickParameters[p]))
            for p, (a, b) in zip(names, job["lim"]):
                x = np.array(vals[p])
                at = ((np.log10(x) if log else x) / u - a) / (b - a)
                tiny = 1e-12 * max(1.0, abs(a) / (b - a), 1 / u)
                ev.append(dict(op="stat", n=N, counts=[int(((at >= i / 4) & (at < (i + 1) / 4)).sum()) for i in range(4)],
                               inside=bool((at >= -tiny).all() and (at <= 1 + tiny).all())))
            flat = [((np.log10(v) if log else v) / u - job["lim"][i][0]) / (job["lim"][i][1] - job["lim"][i][0])
                    for i, p in enumerate(names) for v in vals[p]]
            ev.append(dict(op="fresh", n=len(flat), distinct=len(set(np.round(flat, 13)))))
    except (Exception, impl.Hang, impl.OutOfDraws) as e:
        ev.append(dict(op="exc", what=f"{type(e).__name__}: {e}"[:300]))
    w = dict(D=job["D"], lim=job["lim"], keys=sorted(names))
    return dict(w=w, job=job, ev=ev)


EXACT = TraceKind("exact", replay, "TraceOptimizer")
REAL = TraceKind("real", real_run, "OptimizerReal", chunksize=1)
PICKS = TraceKind("picks", pick_run, "TracePicks", chunksize=1)


def real(run):
    REAL.check(run, real_scenarios(run.tier, run.rng),
               note="real models, scaling/background optimisation and random numbers")


def picks(run):
    PICKS.check(run, pick_scenarios(run.tier, run.rng), note="random picks, scripted and seeded")
