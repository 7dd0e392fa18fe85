"""C09: several result indices in one file."""

import functools
import hashlib
import re
import tempfile
from pathlib import Path

import kit
import impl
from impl import np, h5py, pandas
from core import TraceKind
from drv_run import dig, file_content, memory_content


def group_digests(fn):
    """digest per result index (name as in the file) and of everything else"""
    parts = {}
    with h5py.File(fn, "r") as f:
        def attrs(o):
            return tuple(sorted((k, repr(np.asarray(v).tolist())) for k, v in o.attrs.items()))

        def visit(n, o):
            m = re.match(r"analyses/MCResult(\d+)(/|$)", n)
            key = m.group(1) if m else "analyses" if n == "analyses" else ""
            val = ()
            if isinstance(o, h5py.Dataset):
                v = o[()]
                val = (str(o.dtype), o.shape, v.tobytes() if isinstance(v, np.ndarray) and v.dtype.kind not in "O" else repr(np.asarray(v).tolist()))
            parts.setdefault(key, []).append((n, attrs(o), val))

        f.visititems(visit)
    parts.pop("analyses", None)  # the group of the results itself
    return {k: hashlib.sha1(repr(sorted(v)).encode()).hexdigest() for k, v in parts.items()}


def frame(which):
    q = np.linspace(0.05, 0.9, 5 + which % 3)
    I = (3.0 + which) / (1 + (q * 9) ** 4) + 0.05
    return pandas.DataFrame(dict(Q=q, I=I, ISigma=0.05 * I + 1e-4))


HR = dict(parameter="radius", nBin=3, binScale="linear", presetRangeMin=2.0, presetRangeMax=30.0,
          binWeighting="vol", autoRange=False)


def index_trace(job):
    import matplotlib
    import yaml
    from mcsas3.cli_tools import McSAS3_cli_histogram
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_core import McCore
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_hat import McHat
    from mcsas3.mc_model import McModel
    from mcsas3.mc_opt import McOpt

    ids = kit.Interner()
    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    fn = d / "result.nxs"
    ev = []
    with h5py.File(fn, "w") as f:  # a measurement file
        g = f.create_group("entry1/sasdata1")
        f.attrs["default"] = "entry1"
        g.attrs["signal"] = "I"
        g["I"] = np.arange(5.0)
        g["I"].attrs["units"] = "1/(m sr)"
        f["analyses/other"] = "somebody's"
        f["MCResult1"] = 5
    stored, data = {}, {}
    orig = McCore.store

    @functools.wraps(orig)
    def store(core, *a, **k):
        stored[int(core._opt.repetition)] = memory_content(core)
        return orig(core, *a, **k)

    def hid(h, m, I, g):
        return ids((dig(h["yMean"], h["xMean"], h["xWidth"]), dig(m), dig(I), dig(g)))

    def memory(a):
        return hid(a._averagedHistograms[0], a._averagedModes["totalValue"]["valMean"][0],
                   a.modelIAvg["modelIMean"], a.optParAvg.loc["gof", "valMean"])

    def rid(c):
        return ids(tuple(sorted((r, tuple(x)) for r, x in c.items())))

    def write(n, i, kind, via):
        if kind == "data":
            df = frame(n)
            md = McData1D(df=df, resultIndex=i, nbins=3 + n, IEmin=0.01 * (n + 1))
            md.store(fn)
            data[i] = n
            return ids(("data", dig(df["Q"], df["I"], df["ISigma"]), 3 + n, 0.01 * (n + 1)))
        if kind == "run":
            stored.clear()
            df = frame(n)
            meas = dict(Q=[df["Q"].values], I=df["I"].values, ISigma=df["ISigma"].values)
            margs = dict(modelName="mcsas_sphere", nContrib=2 + n % 3, modelDType="default", seed=n,
                         fitParameterLimits={"radius": [2.0, 40.0 + n]}, staticParameters=dict(sld=4.0 + n, sld_solvent=1.0))
            oargs = dict(maxIter=3 + n, convCrit=0.001)
            if via == "core":
                c = McCore(meas, model=McModel(resultIndex=i, **margs), opt=McOpt(resultIndex=i, **oargs), resultIndex=i)
                c.optimize()
                with_opt(i, fn, lambda: c.store(fn))
            elif via == "hat":
                McHat(nRep=2, nCores=1, resultIndex=i, **margs, **oargs).run(meas, fn)
            elif via == "run":
                McHat(nRep=2, nCores=1, **margs, **oargs).run(meas, fn, resultIndex=i)
            else:
                McHat(nRep=2, nCores=1, resultIndex=i, **margs, **oargs).run(meas, fn, i)
            return rid(stored)
        hr = dict(HR, nBin=2 + len(ev))
        if i in data and via in ("hat", "core"):  # by the tool, with the data stored under that index
            meas = McData1D(df=frame(data[i]), nbins=3 + data[i], IEmin=0.01 * (data[i] + 1)).measData
            want = memory(McAnalysis(fn, meas, pandas.DataFrame([hr]), store=False, resultIndex=i))
            (d / "hist.yaml").write_text(yaml.safe_dump(hr))
            McSAS3_cli_histogram(resultFile=fn, histConfigFile=d / "hist.yaml", resultIndex=i)
            return want
        with h5py.File(fn, "r") as f:
            n = int(f[f"analyses/MCResult{i}/optimization/repetition0/modelI"].shape[0])
        q = np.linspace(0.05, 0.9, n)
        meas = dict(Q=[q], I=1 / q, ISigma=0.1 / q)
        return memory(McAnalysis(fn, meas, pandas.DataFrame([hr]), store=True, resultIndex=i))

    def with_opt(i, fn, f):
        # a core of its own is stored over repetitions of a run, remove those as a run does
        with h5py.File(fn, "a") as h:
            for g in ("model", "optimization"):
                p = f"/analyses/MCResult{i}/{g}"
                for k in list(h.get(p, {})):
                    if k.startswith("repetition"):
                        del h[p][k]
        f()

    def read(i):
        """everything that can be read under an index"""
        out = []
        with h5py.File(fn, "r") as f:
            has = {k: f"/analyses/MCResult{i}/{k}" in f for k in ("mcdata", "model", "histograms")}
        x = 0
        if has["mcdata"]:
            md = McData1D(loadFromFile=fn, resultIndex=i)
            x = ids(("data", dig(md.rawData["Q"], md.rawData["I"], md.rawData["ISigma"]), int(md.nbins), float(md.IEmin)))
        out.append(dict(i=i, what="data", id=x))
        x = 0
        if has["model"]:
            c = {}
            for r in file_content(fn, i):
                m = McModel(loadFromFile=fn, loadFromRepetition=r, resultIndex=i)
                o = McOpt(loadFromFile=fn, loadFromRepetition=r, resultIndex=i)
                fake = type("C", (), dict(_model=m, _opt=o))
                c[r] = memory_content(fake)
            x = rid(c)
        out.append(dict(i=i, what="run", id=x))
        x = 0
        if has["histograms"]:
            with h5py.File(fn, "r") as f:
                a = f[f"/analyses/MCResult{i}/histograms/histRange0/average"]
                b = f[f"/analyses/MCResult{i}/optimization/average"]
                x = hid({k: a[k][()] for k in ("yMean", "xMean", "xWidth")}, a["totalValue/valMean"][()],
                        b["modelIMean"][()], b["gof/valMean"][()])
        out.append(dict(i=i, what="hist", id=x))
        return out

    McCore.store = store
    try:
        with impl.guarded(120):
            for n, o in enumerate(job["log"]):
                before = group_digests(fn)
                x = write(n + 1, o["i"], o["kind"], o.get("via", "hat"))
                after = group_digests(fn)
                ch = [int(k) for k in set(before) | set(after) if k and before.get(k) != after.get(k)]
                reads = [r for i in job["indices"] for r in read(i)]
                ev.append(dict(op="write", i=o["i"], kind=o["kind"], id=x, changed=sorted(ch),
                               rest=before.get("") != after.get(""), reads=reads))
    except (Exception, impl.Hang) as e:
        import traceback

        ev.append(dict(op="exc", what=f"{type(e).__name__}: {e}"[:300], tb=traceback.format_exc()[-900:]))
    finally:
        McCore.store = orig
        matplotlib.pyplot.close("all")
        for f in d.iterdir():
            f.unlink()
        d.rmdir()
    return dict(w=dict(n=len(job["log"])), job=job, ev=ev)


INDEX = TraceKind("index", index_trace, "TraceIndex", chunksize=2)


def check(run):
    behaviours = run.generate("MCIndex", "MCIndex", note="all histories over three indices")
    if len(behaviours) > (120 if run.quick else 3000):
        behaviours = run.rng.sample(behaviours, 120 if run.quick else 3000)
    jobs = []
    for b in behaviours:
        log = [dict(o, via=run.rng.choice(["hat", "run", "both", "core"])) for o in b["log"]]
        jobs.append(dict(log=log, indices=[0, 1, 10, 2]))
    for _ in range(12 if run.quick else 150):  # longer ones with other indices
        have, log, ind = set(), [], run.rng.sample([0, 1, 2, 3, 11, 12, 21, 100], 3)
        for _ in range(8):
            i = run.rng.choice(ind)
            k = run.rng.choice(["data", "run", "hist"] if i in have else ["data", "run"])
            if k == "run":
                have.add(i)
            log.append(dict(i=i, kind=k, via=run.rng.choice(["hat", "run", "both", "core"])))
        jobs.append(dict(log=log, indices=ind + [1]))
    INDEX.check(run, jobs, note="histories under several indices, with everything read after each step")
