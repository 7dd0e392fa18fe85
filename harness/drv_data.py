"""C12, C13: preparation of 1D data compared with DataPrep. C10: storing and restoring it."""

import itertools
import math

import kit
import impl
from impl import np, pandas
from core import OracleKind, TraceKind

UNDEF = -999999
LINK = dict(raw="rawData", clip="clippedData", bin="binnedData")


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * np.maximum(np.abs(b), 1e-300)) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def same_rows(df, raw, idx, cols):
    """df holds exactly the given rows of raw, in order"""
    if len(df) != len(idx) or any(c not in df for c in cols):
        return False
    want = raw.iloc[[k - 1 for k in idx]]
    return all(close(df[c].values, want[c].values, 0) for c in cols)


DEFAULTS = dict(dataRange=[-np.inf, np.inf], nbins=100, IEmin=0.01, qNudge=0, measDataLink="binnedData", omitQRanges=None)
UQ = 1 / 64  # unit of the uncertainties of Q, relative to that of Q


def q_uncertainty(x, d):
    """the term QTerms of a bin of the specification"""
    q = np.array([d["Q"][k - 1] for k in x["rows"]])
    n = len(q)
    value = dict(minimum=lambda: 0.01 * q.mean(), sem=lambda: math.sqrt(((q - q.mean()) ** 2).sum() / (n - 1) / n),
                 propagated=lambda: math.sqrt(sum(d["QSigma"][k - 1] ** 2 for k in x["rows"])) / n)
    return max(value[t]() for t in x["qterms"])


def compare_data(arg):
    from mcsas3.mc_data_1d import McData1D

    job, exp = arg
    inp, c = job["in"], job["c"]
    pw = inp["steps"][0]["pow"]

    def Q(q):
        return float("nan") if q == UNDEF else c * (2.0**q if pw else q)

    def lim(q):
        return -np.inf if q == -1000 else np.inf if q == 1000 else Q(q)

    rows = inp["rows"]
    si = job["si"]  # scale of the intensities
    d = dict(Q=[Q(r["q"]) for r in rows])
    d["I"] = [math.nan if r["i"] == UNDEF else si * r["i"] for r in rows]
    d["ISigma"] = [math.nan if r["s"] == UNDEF else si * r["s"] for r in rows]
    if "u" in rows[0]:
        d["QSigma"] = [math.nan if r["u"] == UNDEF else c * UQ * r["u"] for r in rows]
    if job["extra"]:  # a further column: nothing to do with the uncertainties, but selected and omitted alike
        d["tag"] = [math.nan if r.get("x") == UNDEF else float(k) for k, r in enumerate(rows)]
    df = pandas.DataFrame(d).astype(float)
    if job["index"]:
        df.index = job["index"]
    keep = df.copy()
    cols = list(d)
    out = []

    def settings(s):
        k = dict(dataRange=[lim(s["lo"]), lim(s["hi"])], nbins=s["nbins"], IEmin=s["ieN"] / s["ieD"],
                 qNudge=c * s["nudge"], measDataLink=LINK[s["link"]])
        if s["omit"] or job["omitempty"]:
            k["omitQRanges"] = [[lim(a), lim(b)] for a, b in s["omit"]]
        return k

    def asked(k):
        """what has its documented default is not said"""
        return {a: b for a, b in k.items() if not (job["silent"] and DEFAULTS[a] == b)}

    m = None
    for n, (s, e) in enumerate(zip(inp["steps"], exp["out"])):
        kw = settings(s)
        if e["refused"] and n in job["calls"]:  # nothing to be rebinned, the selection has been refused before
            continue
        try:
            with impl.guarded(30):
                if m is None and job["before"]:  # the same object has been used for other data
                    other = df.iloc[::-1].copy()
                    other["I"] = 3 * other["I"] + si
                    m = McData1D(df=other, **asked(kw))
                    m.from_pandas(df)
                elif m is None:
                    m = McData1D(df=df, **asked(kw))
                elif n in job["calls"]:  # rebinned once more, with arguments of its own
                    before = m.nbins, m.IEmin
                    m.reBin(**{k: kw[k] for k in ("nbins", "IEmin") if kw[k] != getattr(m, k) or job["extra"]})
                    m.linkMeasData(LINK[s["link"]])
                    if (m.nbins, m.IEmin) != before:
                        out.append(("C13:rebinning changes the settings", f"{n}: {before} {m.nbins} {m.IEmin}"))
                else:
                    kw.setdefault("omitQRanges", None)
                    for k, v in kw.items():
                        setattr(m, k, v)
                    m.prepare()
        except impl.Hang:
            return [("C12:preparing the data does not end", n)]
        except Exception as x:
            if not e["refused"] and not e.get("nopos"):
                P = "C13" if s["nbins"] else "C12"
                out.append((f"{P}:preparing the data failed", f"{n}: {type(x).__name__}: {x}"[:300]))
            if m is None:
                return out
            continue
        if e["refused"]:
            out.append(("C12:an empty selection range is not refused", n))
            return out
        if e.get("nopos"):
            continue
        if not (keep.equals(df) and same_rows(m.rawData, keep, range(1, len(rows) + 1), cols)):
            out.append(("C12:the raw data are changed", n))
        if not same_rows(m.clippedData, keep, e["sel"], cols):
            out.append(("C12:the clipped data are not the selected points",
                        f"{n}: {m.clippedData['Q'].tolist()}"[:300]))
        if s["nbins"] == 0:
            if not same_rows(m.binnedData, keep, e["sel"], cols):
                out.append(("C13:without rebinning the selected points are not used as they are", n))
        else:
            b = m.binnedData
            got = [b[k].values.tolist() for k in ("Q", "I", "ISigma")]

            def fits(alt):
                return (close(got[0], [c * x["sq"] / x["n"] for x in alt]) and
                        np.allclose(got[1], [si * x["si"] / x["n"] for x in alt], rtol=1e-9, atol=1e-9 * si)
                        if len(alt) == len(got[0]) else False)

            def sigmas(alt):
                return close(got[2], [si * math.sqrt(x["en"] / x["ed"]) for x in alt], 1e-8)

            alts = [a for a in e["alts"] if fits(a)]
            if not alts:
                nn = "number of bins" if all(len(a) != len(got[0]) for a in e["alts"]) else "bins' Q and I"
                out.append((f"C13:{nn}", f"{n}: {got}"[:600]))
            elif not any(close(b["QSigma"].values, [q_uncertainty(x, d) for x in a], 1e-8) for a in alts):
                out.append(("C13:uncertainty of the bins' Q", f"{n}: {b['QSigma'].tolist()}"[:400]))
            elif not any(sigmas(a) for a in alts):
                out.append(("C13:uncertainty of the bins", f"{n}: {got[2]}"[:400]))
        src = getattr(m, LINK[s["link"]])
        md = m.measData
        q = md["Q"][0] if isinstance(md["Q"], (list, tuple)) else md["Q"]
        if not (close(q, src["Q"].values + c * s["nudge"], 1e-12) and close(md["I"], src["I"].values, 0)
                and close(md["ISigma"], src["ISigma"].values, 0)):
            out.append(("C12:the data to be fitted are not those of the linked stage with the offset", n))
    return out


DATA = OracleKind("prepare", compare_data, "OracleData")


# ---------------------------------------------------------------- many points
def compare_large(arg):
    from mcsas3.mc_data_1d import McData1D

    job, exp = arg
    rows, c, si = job["in"]["rows"], job["c"], job["si"]
    Q = [c * 2.0 ** (r["q"] / job["fine"]) for r in rows]
    d = dict(Q=Q, I=[si * r["i"] for r in rows], ISigma=[si * r["s"] / 16 for r in rows])
    if "u" in rows[0]:
        d["QSigma"] = [q * r["u"] / 64 for q, r in zip(Q, rows)]
    out = []
    for n, (s, e) in enumerate(zip(job["in"]["steps"], exp["out"])):
        assert e["edges"] == 0
        ie = s["ieN"] / s["ieD"]
        try:
            with impl.guarded(60):
                m = McData1D(df=pandas.DataFrame(d), nbins=s["nbins"], IEmin=ie)
        except (Exception, impl.Hang) as x:
            out.append(("C13:preparing the data failed", f"{n}: {type(x).__name__}: {x}"[:300]))
            continue
        b = m.binnedData
        if len(b) != len(e["bins"]):
            out.append(("C13:number of bins", f"{n}: {len(b)} {len(e['bins'])}"))
            continue
        I, S = np.array(d["I"]), np.array(d["ISigma"])
        for k, x in enumerate(e["bins"]):
            j = np.array(x["rows"]) - 1
            i, N = I[j], len(j)
            mean = math.fsum(i) / N
            terms = dict(minimum=lambda: ie * mean, propagated=lambda: math.sqrt(math.fsum(S[j] ** 2)) / N,
                         sem=lambda: math.sqrt(math.fsum((i - mean) ** 2) / (N - 1) / N))
            want = [math.fsum(np.array(d["Q"])[j]) / N, mean, max(terms[t]() for t in x["iterms"]), q_uncertainty(x, d)]
            got = [float(b[o].values[k]) for o in ("Q", "I", "ISigma", "QSigma")]
            if not close(got, want, 1e-8):
                out.append(("C13:bins of many points", f"{n}: bin {k}: {got} expected {want}"))
                break
    return out


LARGE = OracleKind("many points", compare_large, "OracleData")


def many_points(run):
    """Q over 997 powers, so that no point but the first and the last one is at an edge"""
    rng, jobs = run.rng, []
    for k in range(6 if run.quick else 24):
        n = [250, 500, 800][k % 3] if run.quick else rng.choice([250, 800, 1500])
        known = rng.random() < 0.5
        rows = [dict(q=rng.randrange(998), i=rng.randrange(1, 2000), s=rng.choice([0, 1, 16, 99, 999]), **({"u": rng.choice([0, 1, 20])} if known else {}))
                for _ in range(n)]
        rows[rng.randrange(n // 2)]["q"], rows[n // 2 + rng.randrange(n // 2)]["q"] = 0, 997
        if k % 2:
            rows.sort(key=lambda r: r["q"])
        steps = [dict(lo=-1000, hi=1000, omit=[], nbins=nb, ieN=ie, ieD=100, link="bin", nudge=0, pow=True)
                 for nb, ie in zip([100] + rng.sample([1, 10, 59, 100, 150, 257, 1000], 2), rng.sample([1, 1, 0, 5, 30], 3))]
        jobs.append(dict(c=rng.choice([1.0, 2.0**-50, 1e-9]), fine=rng.choice([16, 64, 200]), si=rng.choice([1.0, 0.01, 1e5]), **{"in": dict(rows=rows, steps=steps, large=True)}))
    LARGE.check(run, jobs, note="hundreds of points in many bins")


def random_settings(rng, pw, span):
    lo = rng.choice([-1000, -1000, rng.randrange(0, span)])
    hi = rng.choice([1000, 1000, rng.randrange(0, span + 2)])
    omit = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        a = rng.randrange(0, span)
        omit.append([a, min(span + 1, a + rng.randrange(0, max(2, span // 3)))])
    nb = rng.choice([0, 1, 2, 3, 4, 5, 7, 30, 100, 1000]) if pw else rng.choice([0, 1, 2, 3, 4, 5] if span <= 30 else [0, 1, 2, 3])
    n, d = rng.choice([(1, 100), (1, 10), (0, 1), (1, 4), (1, 2)])
    return dict(lo=lo, hi=hi, omit=omit, nbins=nb, ieN=n, ieD=d, link=rng.choice(["bin", "bin", "clip", "raw"]),
                nudge=rng.choice([0, 0, 1, -1, 3]), pow=pw)


def fits_tlc(rows, s):
    """integers of the oracle stay within TLC's range, and not everything is omitted"""
    sel = [r for r in rows if UNDEF not in r.values() and s["lo"] <= r["q"] < s["hi"]]
    if sel and all(any(a <= r["q"] < b for a, b in s["omit"]) for r in sel):
        return False
    big = max([abs(r["i"]) for r in rows if r["i"] != UNDEF] + [1]) * len(rows) * max(s["ieN"], 1)
    return big * big * (s["ieD"] * len(rows)) ** 2 < 2**31 and (big * big) * len(rows) ** 3 < 2**31


def data_jobs(run, C13):
    rng, jobs = run.rng, []
    N = 1500 if run.quick else 16000
    # worlds where ranges and edges meet the points in all ways: small ones, systematically
    while len(jobs) < N:
        pw = rng.random() < 0.4
        span = rng.choice([6, 12, 18]) if pw else rng.choice([6, 12, 30, 30, 300])
        n = rng.choice([1, 2, 3, 5, 6, 7, 8])
        qs = [rng.randrange(0 if pw else rng.choice([0, 1, -2]), span + 1) for _ in range(n)]
        if rng.random() < 0.7:
            qs.sort()
        if rng.random() < 0.5:
            qs = list(dict.fromkeys(qs))
        rows = [dict(q=q, i=rng.choice([0, 1, 2, 3, 5, 7, 8, -2, 4]), s=rng.choice([0, 1, 1, 2, 3])) for q in qs]
        extra = rng.random() < 0.5
        known = rng.random() < 0.4  # uncertainties of Q
        for r in rows:
            if known:
                r["u"] = rng.choice([0, 1, 1, 3, 40])
            if rng.random() < 0.08:
                r[rng.choice("qis" + "x" * extra + "u" * known)] = UNDEF
        steps, calls = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            s = random_settings(rng, pw, span)
            if steps and rng.random() < 0.4:
                own = {k: s[k] for k in ("nbins", "ieN", "ieD", "link")}
                s = dict(steps[-1], **{k: own[k] for k in rng.choice([("nbins",), ("ieN", "ieD"), ("ieN", "ieD"), tuple(own)])})
                if s["nbins"] == 0 or not fits_tlc(rows, s):
                    continue
                calls.append(len(steps))
            if fits_tlc(rows, s):
                steps.append(s)
        if not steps or all(r["q"] == UNDEF for r in rows):
            continue
        if C13 and all(s["nbins"] == 0 for s in steps):
            continue
        index = None
        if rng.random() < 0.3:
            index = rng.choice([list(range(len(rows), 0, -1)), [0] * len(rows), [10 * k for k in range(len(rows))]])
        jobs.append(dict(c=rng.choice([1.0, 0.01, 0.0137, 0.3, 7.77, 1e-4]), si=rng.choice([1.0, 0.1, 123.4]),
                         before=rng.random() < 0.2, silent=rng.random() < 0.6, extra=extra, index=index, calls=calls, omitempty=rng.random() < 0.1,
                         **{"in": dict(rows=rows, steps=steps)}))
    return jobs


def prepare(run, C13=False):
    DATA.check(run, data_jobs(run, C13), note="data sets with settings changed in between")


# ---------------------------------------------------------------- options left out
def defaults_trace(job):
    from drv_hdf import canon
    from mcsas3.mc_data_1d import McData1D

    rng = np.random.default_rng(job["seed"])
    n = job["n"]
    q = np.sort(10.0 ** rng.uniform(-2, 1, n))
    df = pandas.DataFrame(dict(Q=q, I=rng.uniform(1, 9, n), ISigma=10.0 ** rng.uniform(-4, -0.5, n)))
    if job["qsigma"]:
        df["QSigma"] = q * 10.0 ** rng.uniform(-4, -1, n)
    fn = None
    if job["file"]:
        fn = kit.scratch() / f"defaults{job['seed']}.csv"
        df.to_csv(fn, sep=" ", header=False, index=False, columns=["Q", "I", "ISigma"])
    ids, ev = kit.Interner(), []
    for given in job["given"]:
        e = dict(op="prepare", ok=False, given={k: str(v) for k, v in given.items()}, clip=0, bin=0, fit=0)
        try:
            with impl.guarded(30):
                m = McData1D(filename=fn, **given) if fn else McData1D(df=df.copy(), **given)
                table = [(x[["Q", "I", "ISigma"]].values, x.get("QSigma", x.Q).values) for x in (m.clippedData, m.binnedData)]
            e.update(ok=True, clip=ids(("t", *map(canon, table[0]))), bin=ids(("t", *map(canon, table[1]))),
                     fit=ids(("f", *[canon(np.asarray(x, dtype=float)) for x in (m.measData["Q"][0], m.measData["I"], m.measData["ISigma"])])))
        except (Exception, impl.Hang) as x:
            e["why"] = f"{type(x).__name__}: {x}"[:200]
        ev.append(e)
    if fn:
        fn.unlink()
    return dict(w=dict(n=n), job=job, ev=ev)


LEFT = TraceKind("defaults", defaults_trace, "TraceDefaults")


def defaults(run):
    """every subset of the options given at their defaults, and others in between"""
    jobs = []
    inf = float("inf")
    full = dict(dataRange=[-inf, inf], omitQRanges=None, nbins=100, IEmin=0.01, qNudge=0, measDataLink="binnedData")
    other = dict(dataRange=[0.02, 5.0], omitQRanges=[[0.1, 0.3]], nbins=7, IEmin=0.2, qNudge=0.5, measDataLink="clippedData")
    for k in range(6 if run.quick else 40):
        given = []
        for _ in range(24 if run.quick else 64):
            g = {}
            for o in full:
                x = run.rng.random()
                if x < 0.45:
                    g[o] = full[o]
                elif x < 0.6:
                    g[o] = other[o]
            given += [g, {o: v for o, v in g.items() if v != full[o]}, {**full, **g}]
        given += [{}, full]
        jobs.append(dict(seed=run.rng.randrange(10**6), n=[250, 400, 60][k % 3], qsigma=k % 2 == 0, file=k % 3 == 1, given=given))
    LEFT.check(run, jobs, note="the same data with options given or left out")


# ---------------------------------------------------------------- storing and restoring
def content_ids(m, ids):
    from drv_hdf import canon

    def table(df):
        if df is None:
            return 0
        return ids(tuple((c, canon(df[c].values)) for c in sorted(df.columns)))

    def pairs(v):
        if v is None:
            return "none"
        return tuple(tuple(float(x) for x in r) for r in v)

    md = m.measData
    return dict(raw=table(m.rawData), clipped=table(m.clippedData), binned=table(m.binnedData),
                measured=ids(tuple(canon(np.asarray(md[k], dtype=float)) for k in ("Q", "I", "ISigma"))),
                range=ids(("range",) + tuple(float(x) for x in m.dataRange)), omit=ids(("omit", pairs(m.omitQRanges))),
                nbins=ids(("nbins", int(m.nbins))), IEmin=ids(("IEmin", float(m.IEmin))),
                qNudge=ids(("qNudge", float(m.qNudge))), link=ids(("link", str(m.measDataLink))),
                binning=ids(("binning", str(m.binning))))


def restore_trace(job):
    import tempfile
    from pathlib import Path, PurePosixPath
    from mcsas3.mc_data_1d import McData1D

    ids = kit.Interner()
    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    ev, objs = [], {}

    def make(n):
        o = job["orig"][n - 1]
        rng = np.random.default_rng(o["seed"])
        N = o["n"]
        # four points that every range and omission below leaves some of
        q = np.sort(np.concatenate([rng.uniform(0.01, 2.0, N - 4), [0.15, 0.25, 0.45, 0.9]]))
        if o["order"] == "any":
            q = rng.permutation(q)
        elif o["order"] == "repeated":
            q = np.sort(np.round(q, 1) + 0.05)
        df = pandas.DataFrame(dict(Q=q, I=rng.uniform(0.1, 9, N), ISigma=rng.uniform(0.01, 1, N)))
        kw = dict(o["kw"])
        if o["extra"]:
            df["QSigma"] = 0.01 * df["Q"]
        if o["nan"] and N > 4:
            df.loc[N // 2, "I"] = np.nan
        if o["index"]:
            df.index = range(5, 5 + N) if N < 40 else range(N, 0, -1)
        if o["src"] == "df":
            return McData1D(df=df, resultIndex=o["ri"], **kw)
        if o["src"] == "csv":
            p = d / f"in{n}.dat"
            if o["csv"]:
                df.to_csv(p, sep=";", index=False, columns=["Q", "I", "ISigma"])
                kw["csvargs"] = {"sep": ";", "header": 0, "skip_blank_lines": True}
            else:
                df.to_csv(p, sep=" ", index=False, header=False, columns=["Q", "I", "ISigma"])
            return McData1D(filename=p, resultIndex=o["ri"], **kw)
        import h5py

        p = d / f"in{n}.nxs"
        with h5py.File(p, "w") as f:
            f.attrs["default"] = "a"
            g = f.create_group("a")
            g.attrs["signal"] = "I"
            g.attrs["axes"] = "Q"
            for k in ("Q", "I", "ISigma"):
                g[k] = df[k].values
            g["I"].attrs["uncertainties"] = "ISigma"
        return McData1D(filename=p, resultIndex=o["ri"], **kw)

    try:
        with impl.guarded(60):
            for n in (1, 2):
                objs[n] = make(n)
                ev.append(dict(op="make", o=n, c=content_ids(objs[n], ids)))
            places = {}
            for k, p in job["places"].items():
                places[k] = (d / p["file"], None if p["path"] is None else PurePosixPath(p["path"]), p["ri"])
            from mcsas3.mc_hdf import ResultIndex

            for o in job["log"]:
                fn, path, ri = places[o["p"]]
                if o["op"] == "store":
                    m = objs[o["o"]]
                    if path is None:
                        m.resultIndex = ResultIndex(ri)
                        m.store(fn)
                    else:
                        m.store(fn, path)
                else:
                    if path is None:
                        m = McData1D(loadFromFile=fn, resultIndex=ri)
                    else:
                        m = McData1D(df=pandas.DataFrame(dict(Q=[.1, .2, .3], I=[1., 2., 3.], ISigma=[.1, .1, .1])))
                        m.load(fn, path)
                    objs[o["o"]] = m
                ev.append(dict(op=o["op"], o=o["o"], p=o["p"], c=content_ids(m, ids)))
    except (Exception, impl.Hang) as e:
        import traceback

        ev.append(dict(op="exc", what=f"{type(e).__name__}: {e}"[:300], tb=traceback.format_exc()[-900:]))
    finally:
        for f in d.iterdir():
            f.unlink()
        d.rmdir()
    return dict(w=dict(n=len(job["log"])), job=job, ev=ev)



RESTORE = TraceKind("restore", restore_trace, "TraceRestore", chunksize=4)


def original(rng, ri):
    kw = {}
    if rng.random() < 0.7:
        lo = rng.choice([0.0, 0.02, 0.1])
        kw["dataRange"] = [lo, rng.choice([float("inf"), 1.5, 1.0])]
    if rng.random() < 0.6:
        kw["omitQRanges"] = rng.choice([[[0.3, 0.4]], [[0.3, 0.4], [0.5, 0.75]], [[1, 2]], []])
    if rng.random() < 0.6:
        kw["nbins"] = rng.choice([0, 3, 10, 50])
    if rng.random() < 0.5:
        kw["IEmin"] = rng.choice([0.0, 0.05, 0.3])
    if rng.random() < 0.5:
        kw["qNudge"] = rng.choice([0.01, -0.002, 1])
    if rng.random() < 0.5:
        kw["measDataLink"] = rng.choice(["rawData", "clippedData", "binnedData"])
    return dict(seed=rng.randrange(10**6), n=rng.choice([5, 12, 40]), kw=kw, extra=rng.random() < 0.3,
                nan=rng.random() < 0.3, index=rng.random() < 0.3, order=rng.choice(["", "", "any", "repeated"]), src=rng.choice(["df", "df", "csv", "nexus"]),
                csv=rng.random() < 0.5, ri=ri)


def restores(run):
    rng, jobs = run.rng, []
    bs = run.generate("MCRestore", "MCRestore", note="all histories over two data sets and two places")
    n = 300 if run.quick else 5000
    for b in (rng.sample(bs, n) if len(bs) > n else bs * (n // len(bs))):
        style = rng.choice(["index", "path", "files"])
        ri = rng.choice([1, 1, 2])
        if style == "index":
            places = dict(p=dict(file="r.h5", path=None, ri=1), q=dict(file="r.h5", path=None, ri=rng.choice([2, 10])))
        elif style == "path":
            places = dict(p=dict(file="r.h5", path="/x/mcdata", ri=1), q=dict(file="r.h5", path="/x/mcdata2", ri=1))
        else:
            places = dict(p=dict(file="r.h5", path=None, ri=1), q=dict(file="s.h5", path=None, ri=1))
        jobs.append(dict(log=b["log"], orig=[original(rng, ri), original(rng, 1)], places=places))
    RESTORE.check(run, jobs, note="histories of storing and restoring")
