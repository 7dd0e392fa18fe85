"""C14-C16: histograms, modes and averages compared with Analysis, over histories of requests."""

import math
from fractions import Fraction
from pathlib import Path

import kit
import impl
from impl import np, h5py, pandas
from core import OracleKind
from drv_hdf import canon

UNIT = 1e-5
OPTS = ("scaling", "background", "gof", "accepted", "step")
MODES = ("totalValue", "mean", "variance", "skew", "kurtosis")


def close(a, b, tol=1e-8, atol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * np.abs(b) + atol) | (np.isnan(a) & np.isnan(b))))


def average(xs, ddof):
    """the term average of the specification; xs: fractions or floats"""
    n = len(xs)
    if n == 0:
        return math.nan, math.nan
    xs = [x if isinstance(x, Fraction) else Fraction(x) for x in xs]
    m = sum(xs) / n
    if n <= ddof:
        return float(m), math.nan
    return float(m), math.sqrt(float(sum((x - m) ** 2 for x in xs) / (n - ddof)))


def modes(m, scale, at=0):
    """the term modes of the specification for values in units of scale, counted from at"""
    n, s, c = m["n"], m["s"], m["c"]
    if n == 0:
        return [math.nan] * 4
    var = Fraction(sum(x * x for x in c), n**3)
    out = [(float(Fraction(s, n) + at)) * scale, float(var) * scale * scale]
    if var == 0:  # with rounding, identical values need not have a variance of exactly zero
        return out + [math.nan if n == 1 or math.frexp(scale)[0] == 0.5 else None] * 2
    return out + [float(Fraction(sum(x**3 for x in c), n**4)) / float(var) ** 1.5,
                  float(Fraction(sum(x**4 for x in c), n**5) / var**2)]


def tree(fn):
    out = {}

    def visit(name, x):
        if isinstance(x, h5py.Dataset):
            out[name] = canon(x[()])

    with h5py.File(fn, "r") as f:
        f.visititems(visit)
    return out


def resolve(hist, unit, want):
    """counts per bin if they are the expected ones, points at an edge being in either of its bins"""
    got = [x / unit for x in hist]
    n = [int(round(x)) for x in got]
    if not all(abs(a - b) < 1e-6 for a, b in zip(got, n)) or len(n) != len(want["bins"]):
        return None
    left = 0
    edges = want["edges"] + [0]
    for k, b in enumerate(n):
        r = b - want["bins"][k] - left
        if r not in (0, edges[k]):
            return None
        left = edges[k] - r
    return n if left == 0 else None


def scales(job, res):
    return [1.0] + [job["c"][p] for p in range(1, len(res["w"]["pars"]))]


def real_value(w, p, v, c, far=0):
    """far: where a parameter which is not of powers starts, none for the first one"""
    return c * (2.0**v if w["pow"][p] else v + (far if p else 0))


def write_result(fn, ri, res, job):
    from mcsas3.mc_hdf import ResultIndex
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    from drv_optimizer import World

    w = res["w"]
    c = scales(job, res)
    base = str(ResultIndex(ri).nxsEntryPoint)
    if fn.exists():
        with h5py.File(fn, "a") as f:
            for g in (base + "/model", base + "/optimization"):
                for k in list(f[g]) if g in f else ():
                    if k.startswith("repetition"):
                        del f[g][k]
    world = World(w)
    P = range(len(w["pars"]))
    lim = {w["pars"][p]: tuple(real_value(w, p, v, c[p], job["far"]) for v in w["lim"][p]) for p in P}
    m = None
    for r in res["reps"] + res["broken"]:
        if m is None:
            m = McModel(modelName="sim", nContrib=w["n"], fitParameterLimits=lim, staticParameters=world.static(),
                        seed=1, resultIndex=ri)
        m.parameterSet = pandas.DataFrame({w["pars"][p]: [real_value(w, p, x[p], c[p], job["far"]) for x in r["pset"]] for p in P})
        m.volumes = np.array([float(real_value(w, 0, x[0], 1)) ** 3 for x in r["pset"]])
        m.store(fn, r["rep"])
        v = np.zeros(len(w["q"]))
        o = McOpt(repetition=r["rep"], maxIter=1000, resultIndex=ri)
        o.gof, o.x0, o.modelI, o.step, o.accepted = 1.0, np.array([1.0, 0.0]), v, r["step"], r["accepted"]
        o.acceptedSteps, o.acceptedGofs = [0], [1.0]
        o.store(fn, ResultIndex(ri).nxsEntryPoint / "optimization" / f"repetition{r['rep']}")
    with h5py.File(fn, "a") as f:
        for r in res["broken"]:
            g = f[base + f"/optimization/repetition{r['rep']}"]
            if r["kind"] == "opt":
                for k in ("x0", "acceptedGofs"):
                    del g[k]
            else:
                del f[base + f"/optimization/repetition{r['rep']}"]


def frame(req, w, job, res):
    c = scales(job, res)
    rows = []
    for g in req:
        p = g["p"] - 1
        row = dict(parameter=w["pars"][p], nBin=g["n"], binScale="log" if g["log"] else "linear", binWeighting="vol",
                   autoRange=bool(g["auto"]))
        if not g["auto"]:
            row["presetRangeMin"], row["presetRangeMax"] = (real_value(w, p, v, c[p], job["far"]) for v in (g["lo"], g["hi"]))
        else:
            row["presetRangeMin"], row["presetRangeMax"] = job["junk"]
        rows.append(row)
    df = pandas.DataFrame(rows, index=[g["key"] for g in req])
    if all(g["auto"] for g in req) and job["nopreset"]:
        df = df.drop(columns=["presetRangeMin", "presetRangeMax"])
    return df


def compare(arg):
    import tempfile

    job, exp = arg
    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    out = []
    from mcsas3 import osb

    old = osb.optimizeScalingAndBackground.match
    try:
        with impl.guarded(100):
            run_history(job, exp, d / "r.h5", out)
    except (Exception, impl.Hang) as x:
        import traceback

        tb = traceback.format_exc()
        first = job.get("_phase", "")
        out += [(f"{p}:analysis failed", f"{type(x).__name__}: {x} {first} {tb[-600:]}"[:900]) for p in ("C14", "C15", "C16")]
    finally:
        osb.optimizeScalingAndBackground.match = old
        for f in d.iterdir():
            f.unlink()
        d.rmdir()
    return out


def interrupted(part, fn, call):
    """stops the call at the given part of its openings of the file for writing"""
    import os
    import shutil

    old = h5py.File.__init__
    n = [0, 0]

    def init(f, name, mode="r", *a, **k):
        if mode != "r" and isinstance(name, (str, os.PathLike)):
            n[0] += 1
            if n[0] == n[1]:
                raise KeyboardInterrupt
        old(f, name, mode, *a, **k)

    copy = fn.with_name("copy_" + fn.name)
    shutil.copy(fn, copy)
    h5py.File.__init__ = init
    try:
        call(copy)
        n[:] = [0, max(1, round(part * n[0]))]
        call(fn)
    except KeyboardInterrupt:
        pass
    finally:
        h5py.File.__init__ = old
        copy.unlink()


def run_history(job, exp, fn, out):
    from mcsas3 import osb
    from mcsas3.mc_analysis import McAnalysis

    from drv_optimizer import World

    inp = job["in"]
    ri = job["ri"]
    cur = [1, 2]
    for i in (1, 2):
        write_result(fn, ri[i - 1], inp["results"][i - 1], job)
    with h5py.File(fn, "a") as f:
        f["entry/data/I"] = np.arange(5.0)
    frames = {}
    done = set()
    for k, (e, x) in enumerate(zip(inp["log"], exp["out"])):
        if e["op"] == "rerun":
            cur[e["idx"] - 1] = e["res"]
            write_result(fn, ri[e["idx"] - 1], inp["results"][e["res"] - 1], job)
            continue
        res = inp["results"][cur[e["idx"] - 1] - 1]
        w = res["w"]
        req = inp["requests"][e["q"] - 1]
        say = x["say"][0] if x["say"] else None
        world = World(w)
        meas = world.meas()
        meas["Q"] = [np.asarray(meas["Q"][0])]
        cs = job["cs"]  # a common factor of scaling and background
        off = job["off"]  # a common large background: repetitions which agree very well
        unit = UNIT * cs

        def match(self, modelDataI, x0=None):
            x, g = world.match(self, modelDataI, x0)
            return (x + [0, off]) * cs, g

        osb.optimizeScalingAndBackground.match = match
        key = e["q"] if job["reuse"] == "same" else -k  # the caller's table, maybe used for another result before
        df = frames.setdefault(key, frame(req, w, job, res))
        before = tree(fn)
        if e["op"] == "cut":
            interrupted(job["cutat"][k % 3], fn, lambda f: McAnalysis(f, meas, df, store=True, resultIndex=ri[e["idx"] - 1]))
            ana = None
        else:
            ana = McAnalysis(fn, meas, df, store=e["store"], resultIndex=ri[e["idx"] - 1])
        after = tree(fn)
        c = scales(job, res)
        base = f"analyses/MCResult{ri[e['idx'] - 1]}/"
        keys = {g["key"] for g in req}
        again = (e["idx"], tuple(keys)) in done
        done.add((e["idx"], tuple(keys)))

        def fail(clause, detail):
            out.append((clause, f"operation {k}: {detail}"[:700]))

        # -- only what belongs to this request changes (C16)
        def mine(p):
            return e["store"] and (p.startswith(base + "optimization/average/") or
                                   any(p.startswith(base + f"histograms/histRange{q}/") for q in keys))

        other = {p for p in set(before) | set(after) if not mine(p) and before.get(p) != after.get(p)}
        if other:
            hist = all("/histograms/" in p for p in other)
            fail("C16:histogramming changes " + ("other stored histograms" if hist else "the result or other data"),
                 sorted(other)[:4])
        if ana is None:
            continue
        # -- reported averages (C15)
        dd = say["ddof"]
        reps = [r["rep"] for r in res["reps"]]
        want = {o: tuple(v * (cs if o in OPTS[:2] else 1) for v in average(say["opts"][o], dd["opts"])) for o in OPTS}
        rep = ana.optParAvg
        fine = 1e-5 if off else 1e-9
        bad = [o for o in OPTS if not close(
            [rep.loc[o, "valMean"] - (off * cs if o == OPTS[1] else 0), rep.loc[o, "valStd"]], want[o], 1e-8,
            (1e-12 if not off else fine) * (cs if o in OPTS[:2] else 1))]
        if bad:
            fail("C15:averages of the optimisation parameters", f"{bad} {rep.to_dict()} expected {want}")
        wI = [average(p, dd["I"]) for p in say["I"]]
        gI = ana.modelIAvg
        if not (close(gI["modelIMean"] / cs - off, [a[0] for a in wI], 1e-8, fine)
                and close(gI["modelIStd"] / cs, [a[1] for a in wI], 1e-8, fine)):
            fail("C15:average of the model intensity", gI.to_dict())
        for g, sg in zip(req, say["ranges"]):
            p = g["p"] - 1
            q = g["key"]
            lo, hi = (real_value(w, p, v, c[p], job["far"]) for v in (sg["lo"], sg["hi"]))
            far = 0 if w["pow"][p] or not p else job["far"]
            tiny, loose = (1e-7, 1e-5) if far else (1e-9, 1e-7)
            edges = np.geomspace(lo, hi, g["n"] + 1) if g["log"] else np.linspace(lo, hi, g["n"] + 1)
            span = max(abs(lo), abs(hi))
            ah = ana._averagedHistograms[q]
            am = ana._averagedModes.loc[q]
            xm = edges[:-1] + np.diff(edges) / 2
            if not (close(ah["xMean"], xm, 0, 1e-9 * span) and close(ah["xWidth"], np.diff(edges), 0, 1e-9 * span)):
                fail("C14:bins do not span the range", f"range {q}: {ah['xMean'].tolist()} {ah['xWidth'].tolist()}")
            # per repetition, as stored
            counts = {}
            wm = {}
            for r in sg["reps"]:
                wm[r["rep"]] = [r["modes"]["n"] * r["scaling"] * unit] + modes(r["modes"], c[p], far)
            if e["store"]:
                pre = base + f"histograms/histRange{q}/"
                subs = {s[len(pre):].split("/")[0] for s in after if s.startswith(pre + "repetition")}
                if subs - {f"repetition{r}" for r in reps}:
                    fail("C16:stored histograms of repetitions that are not in the result", f"range {q}: {sorted(subs)}")

                def get(path, shape=None):
                    v = after.get(pre + path)
                    return np.full(0, math.nan) if v is None else np.array(
                        [math.nan if y == "nan" else y for y in v[2]], dtype=float)

                stale = []
                for r in sg["reps"]:
                    rp = f"repetition{r['rep']}/"
                    if not close(get(rp + "binEdges"), edges, 0, 1e-9 * span):
                        fail("C14:bins do not span the range", f"range {q} {rp}: {get(rp + 'binEdges').tolist()}")
                        stale.append(rp)
                    n = resolve(get(rp + "hist"), r["scaling"] * unit, r["counts"])
                    if n is None:
                        fail("C14:histogram is not the count of the contributions per bin times the scaling",
                             f"range {q} {rp}: {(get(rp + 'hist') / unit).tolist()} expected {r}")
                        stale.append(rp)
                    counts[r["rep"]] = n
                    gm = [float(get(rp + m)[0]) if get(rp + m).size else None for m in MODES]
                    if None in gm or not (close(gm[:1], wm[r["rep"]][:1], 1e-8, 0) and
                                          close(gm[1:2], wm[r["rep"]][1:2], 1e-8 if not far else 1e-12, 1e-9 * c[p]) and
                                          close(gm[2:3], wm[r["rep"]][2:3], 1e-8, tiny * c[p] ** 2) and
                                          (None in wm[r["rep"]] or close(gm[3:], wm[r["rep"]][3:], loose, loose))):
                        fail("C14:modes are not those of the contributions in the range",
                             f"range {q} {rp}: {gm} expected {wm[r['rep']]}")
                        stale.append(rp)
                for name, v in (("rangeMin", lo), ("rangeMax", hi), ("nBin", g["n"])):
                    if not close(get(name), [v], 1e-12):
                        fail("C16:stored range is not the one requested", f"range {q}: {name} {get(name).tolist()}")
                if stale and again:
                    fail("C16:stored histograms are not those of the latest request", f"range {q}: {stale}")
                st = {kk: get("average/" + kk) for kk in ("xMean", "xWidth", "yMean", "yStd")}
                sm = {m: [get(f"average/{m}/{v}") for v in ("valMean", "valStd")] for m in MODES}
                if not (all(close(st[kk], ah[kk], 1e-12) for kk in st) and
                        all(close(np.concatenate(sm[m]), [am[(m, "valMean")], am[(m, "valStd")]], 1e-12) for m in MODES)):
                    fail("C15:stored averages are not the reported ones", f"range {q}: {st} {sm}")
            else:  # counts from the averages are all there is to see
                for r in sg["reps"]:
                    counts[r["rep"]] = None
                    if not any(r["counts"]["edges"]):
                        counts[r["rep"]] = r["counts"]["bins"]
            if all(v is not None for v in counts.values()):
                wh = [average([Fraction(counts[r["rep"]][b] * r["scaling"]) for r in sg["reps"]], dd["hist"])
                      for b in range(g["n"])]
                if not (close(ah["yMean"] / unit, [a[0] for a in wh], 1e-8, 1e-9) and
                        close(ah["yStd"] / unit, [a[1] for a in wh], 1e-8, 1e-9)):
                    fail("C15:average histogram", f"range {q}: {ah.to_dict('list')} expected {wh}")
            if not close([am[("totalValue", "valMean")]], [ah["yMean"].sum()], 1e-8, 1e-10 * unit):
                fail("C15:mean total is not the sum of the mean histogram", f"range {q}: {am.to_dict()}")
            for j, m in enumerate(MODES):
                tol = (1e-8, 1e-10 * unit) if j == 0 else (1e-8, tiny * max(c[p], c[p] ** 2)) if j < 3 else (loose, loose)
                if any(v[j] is None for v in wm.values()):
                    continue
                wa = average([v[j] for v in wm.values() if not math.isnan(v[j])], dd["modes"])
                if not close([am[(m, "valMean")], am[(m, "valStd")]], wa, *tol):
                    fail("C15:averages of the population modes", f"range {q}: {m} {am.to_dict()} expected {wa} of {wm}")
        if e["store"]:
            def val(path):
                v = after.get(base + "optimization/average/" + path)
                return np.array([math.nan if y == "nan" else y for y in v[2]], dtype=float) if v else np.zeros(0)

            if not (all(close(np.concatenate([val(f"{o}/valMean"), val(f"{o}/valStd")]),
                              [rep.loc[o, "valMean"], rep.loc[o, "valStd"]], 1e-12) for o in OPTS)
                    and close(val("modelIMean"), gI["modelIMean"], 1e-12) and close(val("modelIStd"), gI["modelIStd"], 1e-12)):
                fail("C15:stored averages are not the reported ones", "optimization/average")


ANALYSIS = OracleKind("analysis", compare, "OracleAnalysis", chunksize=1)


# ---------------------------------------------------------------- worlds
def random_world(rng):
    P = rng.choice([1, 2, 2, 3])
    pars = rng.sample(["aux", "extra", "beta"], P - 1)
    pars = ["factor"] + pars
    powr = [rng.random() < 0.4 for _ in range(P)]
    lim = [[0, 3] if powr[0] else [1, 8]]
    for p in range(1, P):
        a = rng.randrange(-4, 6) if powr[p] else rng.choice([1, 1, 0, 5, -9])
        lim.append([a, a + rng.choice([1, 3, 4, 6] if powr[p] else [2, 5, 9, 12, 24])])
        if powr[p]:
            lim[p] = [max(0, lim[p][0]), min(9, max(1, lim[p][1]))]
            if lim[p][0] >= lim[p][1]:
                lim[p] = [0, 4]
    if powr[0]:  # the size itself is what the intensities are made of: a plain number
        powr[0] = False
        lim[0] = [1, 8]
    return dict(n=rng.choice([1, 2, 3, 5, 6]), D=4, lim=lim, q=[1, 2], table=[rng.randrange(1, 8) for _ in range(20)],
                a=[rng.randrange(1, 5), rng.randrange(1, 5)], M=rng.choice([97, 89]), nan=1000, pars=pars, pow=powr,
                maxIter=0, maxAccept=-1, crit=0)


def random_result(rng, w, most=12):
    N = min(most, rng.choice([1, 1, 2, 3, 4, 5, 12]))
    nums = rng.choice([list(range(N)), list(range(N)), rng.sample(range(0, 25), N), rng.sample([0, 1, 2, 10, 11, 12, 20, 21, 100, 101, 3, 30], N)])
    if N == 12 and rng.random() < 0.5:
        nums = list(range(12))
    same = rng.random() < 0.2  # values at few places

    def value(p):
        a, b = w["lim"][p]
        return rng.choice([a, b]) if same or rng.random() < 0.15 else rng.randrange(a, b + 1)

    def rep(r):
        return dict(rep=r, pset=[[value(p) for p in range(len(w["pars"]))] for _ in range(w["n"])],
                    accepted=rng.randrange(0, 50), step=rng.randrange(50, 1000))

    broken = []
    if rng.random() < 0.25:
        broken = [dict(rep(r), kind=rng.choice(["opt", "none"])) for r in rng.sample([r for r in range(40, 60)], rng.choice([1, 2]))]
    return dict(w=w, reps=[rep(r) for r in sorted(nums)], broken=broken)


def random_range(rng, w, key):
    p = rng.randrange(len(w["pars"]))
    a, b = w["lim"][p]
    auto = rng.random() < 0.35
    lo, hi = a, b
    if not auto:
        lo = rng.choice([a, a + (b - a) // 3, rng.randrange(a, b)])
        hi = rng.choice([b, rng.randrange(lo + 1, b + 1), b + 3])
        if w["pow"][p]:
            hi = min(hi, 12)
        if rng.random() < 0.08:  # nothing there
            lo, hi = b + 1, b + 3
    log = rng.random() < 0.5
    if log and not w["pow"][p] and (a if auto else lo) <= 0:
        log = False
    if log and not w["pow"][p]:
        top = max(abs(lo), abs(hi), abs(a), abs(b))
        n = rng.randrange(1, 7)
        while n > 1 and top**n >= 2**30:
            n -= 1
    else:
        n = rng.choice([1, 2, 3, 4, 5, 7, 10, 25, 50, 49, 41, 98, 103])
    return dict(key=key, p=p + 1, auto=auto, lo=lo, hi=hi, n=n, log=log)


def jobs_of(run, histories, many=0):
    rng, jobs = run.rng, []
    for b in histories:
        w1 = random_world(rng)
        if many:  # contributions in a single bin
            w1["n"] = rng.choice([many, many + 36])
        # a later result at the same place may be of the same or another model; ranges must fit all
        w3 = w1 if rng.random() < 0.5 else dict(w1, n=rng.choice([1, 2, 4, 6]), lim=[[l[0], l[1] + (1 if l[1] < 9 else 0)] for l in w1["lim"]])
        w2 = dict(w1, n=rng.choice([1, 3, 5]))
        results = [random_result(rng, w, most=2 if many else 12) for w in (w1, w2, w3)]
        keys = rng.choice([[0, 1, 2], [0, 1, 2], [1, 5, 12]])
        requests = [[random_range(rng, w1, keys[k]) for k in ks] for ks in ((0, 1), (0,), (1, 2))]
        if rng.random() < 0.3:
            requests[0].append(random_range(rng, w1, 14))
        if many:
            for g in requests[0] + requests[1]:
                g["n"] = min(g["n"], 4)
            requests[0][0].update(auto=True, lo=w1["lim"][requests[0][0]["p"] - 1][0], hi=w1["lim"][requests[0][0]["p"] - 1][1], n=1)
        far = 0
        if rng.random() < 0.2:  # values far from zero, compared with their spread
            far = 2**20
            for req in requests:
                for g in req:
                    if g["log"] and g["p"] > 1 and not w1["pow"][g["p"] - 1]:
                        g["log"] = False
        # powers of two: with identical values in a range, the exact variance is 0 as well
        jobs.append(dict(c=[1.0] + [rng.choice([1.0, 0.5, 4.0, 0.125, 2.0**-10, 0.1, 0.7, 1.1, 0.0137]) for _ in range(3)],
                         cutat=[rng.choice([0.02, 0.3, 0.6, 0.85, 0.95, 1]) for _ in range(3)], cs=rng.choice([1.0, 0.1, 1e-9 / 3, 1e7 / 7]),
                         far=far, off=rng.choice([0, 0, 0, 2**30]),
                         ri=rng.choice([[1, 2], [1, 10], [3, 1], [12, 1]]), junk=rng.choice([[0.0, 0.0], [1e-3, 1e-2], [3.0, 1e9]]),
                         nopreset=rng.random() < 0.5, reuse=rng.choice(["same", "new"]),
                         **{"in": dict(results=results, requests=requests, log=b)}))
    return jobs


def analyses(run):
    hs = run.generate("MCAnalysis", "MCAnalysis", env=dict(MODE="hist"), note="all histories of requests over two indices")
    run.model_check("MCAnalysis", env=dict(MODE="bins"), note="every contribution in one bin, small worlds")
    hs = [h["log"] for h in hs]
    n = 120 if run.quick else 2500
    short = [[dict(op="hist", idx=i, q=q, store=s)] for i in (1, 2) for q in (1, 2, 3) for s in (True, True, False)]
    again = [h for h in hs if any(
        x["op"] == "rerun" and any(y["op"] != "rerun" and y["store"] and y["idx"] == x["idx"] for y in h[:k])
        and any(y["op"] == "hist" and y["store"] and y["idx"] == x["idx"] for y in h[k:]) for k, x in enumerate(h))]
    pick = [run.rng.choice(short) for _ in range(2 * n)] + run.rng.sample(hs, min(n // 2, len(hs)))
    pick += run.rng.sample(again, min(n // 2, len(again)))
    jobs = jobs_of(run, pick)
    for many in (301, 2101) if run.quick else (301, 2101, 4099, 2101, 301, 301):
        one = [dict(op="hist", idx=1, q=q, store=s) for q, s in ((1, True), (2, False))]
        jobs += jobs_of(run, [one], many)
    ANALYSIS.check(run, jobs, note="histories of histogramming requests on result files")
