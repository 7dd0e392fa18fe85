"""C18: preparation of 2D data compared with Data2D. C19: reading of files compared with Nexus."""

import math
from pathlib import Path

import kit
import impl
from impl import np, h5py, pandas
from core import OracleKind

INF = 30000
LINK = dict(clip="clippedData", bin="binnedData")


def scratch_dir():
    import tempfile

    return Path(tempfile.mkdtemp(dir=kit.scratch()))


def remove(d):
    for f in d.iterdir():
        f.unlink()
    d.rmdir()


def same(a, b, tol=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * np.abs(b)) | (a == b) | (np.isnan(a) & np.isnan(b))))


# ------------------------------------------------------------------ C18
def pixel_arrays(img, c):
    """values of the pixels; intensities differ from pixel to pixel"""
    H, W = len(img), len(img[0])
    I, S = np.zeros((H, W)), np.zeros((H, W))
    Q0, Q1, M = np.zeros((H, W)), np.zeros((H, W)), np.zeros((H, W), dtype=int)
    for r in range(H):
        for k in range(W):
            p = img[r][k]
            n = r * W + k + 1
            # negative ones, none at all and others
            I[r, k] = (np.inf if n % 2 else -np.inf) if p["inf"] else (16.0 + n) * (n % 5 - 1)
            # tiny and negative ones are values like others, as only zero marks a pixel
            S[r, k] = 0.0 if p["zero"] else (1.0 + n / 64) * (1, 1, 1e-12, 1, -1, 1e-300)[n % 6]
            Q0[r, k], Q1[r, k] = c * p["y"], c * p["x"]
            M[r, k] = p["m"]
    return I, S, Q0, Q1, M


def write_2d(fn, img, c, lay):
    I, S, Q0, Q1, M = pixel_arrays(img, c)
    zero = np.zeros_like(I)
    planes = dict(a=[Q0, Q1], b=[Q0, Q1, zero], c=[zero, Q0, Q1], d=[Q0, zero, Q1])[lay["planes"]]
    with h5py.File(fn, "w") as f:
        f.attrs["default"] = "entry"
        e = f.create_group("entry")
        e.attrs["default"] = "data"
        g = e.create_group("data")
        g.attrs["signal"] = "I"
        g.attrs["I_axes"] = "Q,Q"
        g["I"], g["S"], g["Q"] = I, S, np.stack(planes)
        g["I"].attrs["uncertainties"] = "S"
        if lay["mask"]:
            g.attrs["mask"] = "M"
            n = np.arange(M.size).reshape(M.shape)
            # detector flags, or just yes and no
            flags = dict(int=[1, 2, -1, 1024], bool=[1], float=[1.0, 0.5, 2.0], u8=[1, 2, 4, 255])[lay["mask"]]
            M = M * np.choose(n % len(flags), flags)
            g["M"] = M.astype(dict(int=int, bool=bool, float=float, u8=np.uint8)[lay["mask"]])


def limits(v, c):
    return [np.inf if x == INF else x * c for x in v]


def compare_2d(arg):
    from mcsas3.mc_data_2d import McData2D

    job, exp = arg
    d = scratch_dir()
    out = []
    c = job["c"]
    m = None
    try:
        for n, (st, e) in enumerate(zip(job["in"]["steps"], exp["out"])):
            s, opt, img = st["set"], job["opts"][n], st["img"]

            def fail(clause, detail=""):
                out.append(("C18:" + clause, f"step {n}: {detail}"[:600]))

            fn = d / f"{n}.h5"
            try:
                with impl.guarded(30):
                    kw = dict(dataRange=limits(s["q"], c), qNudge=[c * s["ny"], c * s["nx"]], nbins=opt["nbins"],
                              measDataLink=LINK[opt["link"]])
                    fresh = m is None or opt["fresh"]
                    attr = dict(kw, orthoQ1Range=limits(s["x"], c), orthoQ0Range=limits(s["y"], c))
                    if fresh and opt["silent"]:  # what has its default is not said
                        for o, v in dict(dataRange=[0, np.inf], qNudge=[0, 0], orthoQ1Range=[0, np.inf],
                                         orthoQ0Range=[0, np.inf], nbins=100, measDataLink="binnedData").items():
                            for a in (attr, kw):
                                if o in a and a[o] == v:
                                    del a[o]
                    if fresh:
                        m = McData2D(**(kw if opt["kw"] else {}))
                    for k, v in attr.items():
                        setattr(m, k, v)
                    if fresh or opt["read"]:
                        write_2d(fn, img, c, opt["lay"])
                        m.loader = None
                        if opt["paths"]:
                            m.pathDict = {k: f"/entry/data/{v}" for k, v in
                                          [("Q", "Q"), ("I", "I"), ("ISigma", "S")] + ([("mask", "M")] if opt["lay"]["mask"] else [])}
                        m.from_file(fn)
                    else:
                        m.prepare()
            except impl.Hang:
                fail("preparing the data does not end")
                return out
            except Exception as x:
                if e["none"] or e["refused"]:
                    if m is None or m.rawData2D is None or n + 1 == len(exp["out"]) or not job["opts"][n + 1]["read"]:
                        return out
                    continue
                fail("preparing the data failed", f"{type(x).__name__}: {x}")
                return out
            if e["refused"]:
                fail("an empty selection is not refused")
                return out
            if e["none"]:
                continue
            I, S, Q0, Q1, M = pixel_arrays(img, c)
            where = {(Q0[r, k], Q1[r, k]): (r, k) for r in range(I.shape[0]) for k in range(I.shape[1])}
            if not (same(m.rawData2D["I"], I) and same(m.rawData2D["ISigma"], S) and same(m.rawData2D["Qy"], Q0)
                    and same(m.rawData2D["Qx"], Q1)):
                fail("the raw data are not those of the file")
            want = [(r - 1, k - 1) for r, k in e["sel"]]
            md, src = m.measData, getattr(m, LINK[opt["link"]])
            q0, q1 = (np.asarray(q) for q in md["Q"])
            rows = sorted(zip(q0, q1, md["I"], md["ISigma"]))
            exp_rows = sorted((c * a, c * b, I[p], S[p]) for p, a, b in zip(want, e["q0"], e["q1"]))
            if len({len(q0), len(q1), len(md["I"]), len(md["ISigma"])}) != 1 or not same(rows, exp_rows, 1e-12):
                sel = sorted(zip(np.asarray(src["Q"][0]).tolist(), np.asarray(src["Q"][1]).tolist()))
                wrong = sel != sorted((Q0[p], Q1[p]) for p in want)
                fail("the fitted pixels are not those inside the limits and valid" if wrong else
                     "values or Q of the fitted pixels", f"{rows} expected {exp_rows}")
                continue
            # back to the detector
            vals = np.arange(1.0, len(want) + 1)
            try:
                with impl.guarded(30):
                    rec = np.asarray(m.reconstruct2D(vals))
                    rec2 = np.asarray(m.reconstruct2D(vals))
            except Exception as x:
                fail("reconstruction failed", f"{type(x).__name__}: {x}")
                continue
            c0, c1 = (np.asarray(m.clippedData[k]) for k in ("Q0Crop2D", "Q1Crop2D"))
            org = where.get((c0[0, 0], c1[0, 0]))
            ok = org is not None and rec.shape == c0.shape and same(rec, rec2)
            if ok:
                r0, k0 = org
                h, w = c0.shape
                box = np.s_[r0:r0 + h, k0:k0 + w]
                ok = same(c0, Q0[box]) and same(c1, Q1[box]) and same(m.clippedData["I2D"], I[box])
            if not ok:
                fail("the cropped detector is not a part of the detector", f"{c0.shape} {rec.shape}")
                continue
            at = {}
            for j, (a, b) in enumerate(zip(np.asarray(src["Q"][0]), np.asarray(src["Q"][1]))):
                at[where[(a, b)]] = j + 1.0
            full = np.array([[at.get((r0 + r, k0 + k), math.nan) for k in range(w)] for r in range(h)])
            if not same(rec, full) or len(at) != np.isfinite(rec).sum():
                fail("reconstruction puts values elsewhere", f"{rec.tolist()} expected {full.tolist()}")
    finally:
        remove(d)
    return out


DATA2D = OracleKind("prepare2d", compare_2d, "OracleData2D")


def random_image(rng, size=None):
    H, W = size or rng.choice([(2, 2), (2, 3), (3, 3), (3, 4), (4, 4), (5, 6), (6, 5), (8, 8)])
    sx, sy = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 4])
    ox, oy = rng.randrange(-W, 3), rng.randrange(-H, 3)
    fx, fy = rng.choice([1, 1, -1]), rng.choice([1, 1, -1])
    sh = rng.choice([0, 0, 1])  # a tilted detector
    pm, pi, pz = (rng.choice([0, 0, 0.1, 0.3]) for _ in range(3))
    img = []
    for r in range(H):
        row = []
        for k in range(W):
            row.append(dict(x=fx * sx * (k + ox) * (3 if sh else 1) + sh * r, y=fy * sy * (r + oy) * (3 if sh else 1) + sh * (k % 2),
                            m=rng.random() < pm, inf=rng.random() < pi, zero=rng.random() < pz))
        img.append(row)
    # both components need to be there at all
    if len({(p["x"], p["y"]) for row in img for p in row}) < H * W or not any(p["x"] for r in img for p in r) \
            or not any(p["y"] for r in img for p in r):
        return random_image(rng, size)
    return img


def random_limits(rng, img):
    def pair(vals, wide):
        vals = sorted(set(vals))
        if rng.random() < wide:
            return [rng.choice([0, -1, -1]), INF]
        a = rng.choice([-1, 0, rng.choice(vals)])
        b = rng.choice([INF, rng.choice(vals), max(vals), max(vals) + 1])
        return [a, b]

    P = [p for r in img for p in r]
    rad = [int(math.isqrt(p["x"] ** 2 + p["y"] ** 2)) for p in P]  # exact for many pixels
    s = dict(q=pair(rad, 0.4), x=pair([abs(p["x"]) for p in P], 0.5), y=pair([abs(p["y"]) for p in P], 0.5))
    s.update(nx=rng.choice([0, 0, 1, -2]), ny=rng.choice([0, 0, 1, 3]))
    return s


def jobs_2d(rng, n, sizes=(None,)):
    jobs = []
    while len(jobs) < n:
        size = sizes[len(jobs) % len(sizes)]
        img = random_image(rng, size)
        steps, opts = [], []
        for k in range(rng.choice([1, 2, 3, 4] if size is None else [2])):
            read = k == 0 or rng.random() < 0.3
            if read and k:
                img = random_image(rng, size)
            lay = dict(planes=rng.choice("abbcd"), mask=rng.choice(["int", "bool", "float", "u8"]))
            if not any(p["m"] for r in img for p in r) and rng.random() < 0.7:
                lay["mask"] = ""
            steps.append(dict(img=img, set=random_limits(rng, img)))
            fresh = read and rng.random() < 0.6
            opts.append(dict(read=read, fresh=fresh or k == 0, kw=rng.random() < 0.5, silent=rng.random() < 0.6, nbins=rng.choice([0, 100, 3]),
                             link=rng.choice(["clip", "bin", "bin"]), lay=lay, paths=False))
        # explicit paths stay set, with those of another layout a mask may be missing
        if all(o["lay"]["mask"] or not any(p["m"] for r in s["img"] for p in r) for o, s in zip(opts, steps)):
            if rng.random() < 0.3:
                for o in opts:
                    o["paths"] = True
        jobs.append(dict(c=rng.choice([1.0, 0.125, 0.25, 1 / 1024]), opts=opts, **{"in": dict(steps=steps)}))
    return jobs


def two_d(run):
    run.model_check("MCData2D", need=["DoLimits", "DoMask", "DoCrop", "DoBad", "DoList", "DoReconstruct"])
    DATA2D.check(run, jobs_2d(run.rng, 2500 if run.quick else 40000), note="sequences of settings and detectors")
    DATA2D.check(run, jobs_2d(run.rng, 9 if run.quick else 60, [(20, 30), (33, 18), (13, 40)]), note="large detectors")


# ------------------------------------------------------------------ C19
def values(i, shape, q=False):
    """those of a dataset: all different, negative ones among them unless it is Q"""
    n = np.arange(int(np.prod(shape)))
    sign = 1.0 if q or i % 3 else 1.0 - 2 * (n % 2)
    return (sign * ((n + 1.0) / 8 + 16.0 * i)).reshape(shape)


def q_planes(i, shape, planes):
    H, W = shape
    Q0 = np.repeat(np.arange(H)[:, None] + 1.0, W, axis=1) + 16 * i
    Q1 = np.repeat(np.arange(W)[None, :] + 1.0, H, axis=0) + 32 * i
    z = np.zeros(shape)
    return np.stack(dict(a=[Q0, Q1], b=[Q0, Q1, z], c=[z, Q0, Q1], d=[Q0, z, Q1])[planes]), Q0, Q1


def attr(v, kind):
    """the encodings of text attributes found in files"""
    if kind == "bytes":
        return np.bytes_(v) if isinstance(v, str) else np.array([x.encode() for x in v])
    if kind == "obj":
        return v if isinstance(v, str) else np.array(v, dtype=h5py.string_dtype())
    return v if isinstance(v, str) else np.array(v, dtype="S8")


def write_nexus(fn, file, job, st):
    k = st["x"]["enc"]
    shape, two = st["x"]["shape"], st["x"]["planes"]
    with h5py.File(fn, "w") as f:
        for g in file["groups"]:
            p = "/" + "/".join(g["path"])
            grp = f.require_group(p)
            if g["default"]:
                grp.attrs["default"] = attr("/".join(g["default"]), k)
            if g["signal"]:
                grp.attrs["signal"] = attr(g["signal"], k)
            if g["unc"]:
                grp.attrs[g["unc"][0] + "_uncertainty"] = attr(g["unc"][1], k)
            for a, nm in ((g["axes"], "axes"), (g["iaxes"], "I_axes")):
                if a:
                    v = a[0] if len(a) == 1 and st["x"]["scalar"] else list(a)
                    grp.attrs[nm] = attr(v, k)
            if g["mask"]:
                grp.attrs["mask"] = attr(g["mask"], k)
        for d in file["datasets"]:
            p = "/" + "/".join(d["path"])
            isq = d["name"].lower() == "q"
            if two and isq:
                v = q_planes(d["id"], shape[-2:], two)[0]
            elif d["name"].startswith("M"):
                v = (np.arange(int(np.prod(shape))) % 3 == d["id"] % 3).reshape(shape).astype(int)
            else:
                v = values(d["id"], shape, isq)
            f.require_group(p)[d["name"]] = v
            if d["unc"]:
                f[p][d["name"]].attrs["uncertainties"] = attr(d["unc"], k)


def expected_nexus(e, st):
    shape, two = st["x"]["shape"], st["x"]["planes"]
    w = dict(I=values(e["I"], shape).squeeze())
    w["ISigma"] = values(e["S"], shape).squeeze() if e["S"] else w["I"] * 0.001
    if two:
        _, w["Qy"], w["Qx"] = q_planes(e["Q"], shape[-2:], two)
    else:
        w["Q"] = values(e["Q"], shape, True).squeeze()
    if e["M"]:
        w["mask"] = (np.arange(int(np.prod(shape))) % 3 == e["M"] % 3).reshape(shape).squeeze()
    return w


def number(v, style):
    x = v / 8
    return dict(plain=f"{x:.3f}", sci=f"{x:.6e}", sign=f"{x:+.4f}")[style]


def write_text(fn, st):
    x = st["x"]
    lines = []
    for ln in st["lines"]:
        fields = [number(f["v"], x["style"]) if f["t"] == "n" else f["v"] for f in ln]
        lines.append((x["lead"] if ln and ln[0]["t"] == "n" else "") + x["glue"].join(fields))
    fn.write_text("\n".join(lines) + "\n")


def compare_files(arg):
    from mcsas3.mc_data_1d import McData1D
    from mcsas3.mc_data_2d import McData2D

    job, exp = arg
    d = scratch_dir()
    out = []
    m = None
    two = job["two"]
    kw = dict(job["settings"])
    try:
        for n, (st, e) in enumerate(zip(job["in"]["steps"], exp["out"])):
            x = job["xs"][n]
            st = dict(st, x=x)
            fn = d / f"{n}{x['suffix']}"

            def fail(clause, detail=""):
                out.append(("C19:" + clause, f"step {n}: {detail}"[:600]))

            opts = dict(kw)
            if x["loader"]:
                opts["loader"] = x["loader"]
            if st["kind"] == "nexus":
                write_nexus(fn, st["file"], job, st)
                if st["paths"]:
                    opts["pathDict"] = {k: "/" + "/".join(p + [nm]) for k, p, nm in st["paths"]}
            elif st["kind"] != "df":
                write_text(fn, st)
                if x["csvargs"]:
                    opts["csvargs"] = dict(x["csvargs"])
            cls = McData2D if two else McData1D
            try:
                with impl.guarded(30):
                    if st["kind"] == "df":
                        rows = [[v / 8 for v in r] for r in st["rows"]]
                        m = cls(df=pandas.DataFrame(rows, columns=["Q", "I", "ISigma"]), **kw)
                    elif m is None or x["how"] == "new":
                        m = cls(filename=fn, **opts)
                    else:
                        m.loader = opts.get("loader")
                        m.pathDict = opts.get("pathDict")
                        if not two:
                            m.csvargs = dict(opts.get("csvargs", dict(sep=r"\s+", header=None, names=["Q", "I", "ISigma"])))
                        m.from_file(fn)
            except impl.Hang:
                fail("reading does not end")
                return out
            except Exception as ex:
                if e["ok"]:
                    fail(f"a {st['kind']} file is not read", f"{type(ex).__name__}: {ex}")
                m = None
                continue
            if not e["ok"]:
                fail("a file without the data needed is not refused")
                m = None
                continue
            if st["kind"] == "nexus":
                want = expected_nexus(e, st)
            elif st["kind"] == "df":
                want = {c: np.array([r[k] / 8 for r in st["rows"]]) for k, c in enumerate(("Q", "I", "ISigma"))}
            else:
                want = {c: np.array([r[c] / 8 for r in e["rows"]]) for c in ("Q", "I", "ISigma")}
            raw = m.rawData2D if two else m.rawData
            bad = [k for k in want if k not in raw or not same(raw[k], want[k], 1e-12)]
            if bad:
                fail("read from another place: " + " ".join(bad), f"{ {k: np.asarray(raw[k]).tolist() if k in raw else None for k in bad} } expected {want}")
                continue
            if not two:
                ref = McData1D(df=pandas.DataFrame({k: want[k] for k in ("Q", "I", "ISigma")}).astype(float), **kw)
                a, b = m.measData, ref.measData
                if not (same(a["Q"][0], b["Q"][0], 1e-9) and same(a["I"], b["I"], 1e-9) and same(a["ISigma"], b["ISigma"], 1e-9)):
                    fail("the same data give other fit data than supplied directly", f"{a} {b}")
            else:
                keep = ~want["mask"].ravel() if "mask" in want else np.full(want["I"].size, True)
                got = sorted(zip(*m.measData["Q"], m.measData["I"], m.measData["ISigma"]))
                ref = sorted(zip(*(want[k].ravel()[keep] for k in ("Qy", "Qx", "I", "ISigma"))))
                if not same(got, ref, 1e-12):
                    fail("the fit data are not those of the file", f"{got} expected {ref}"[:500])
    finally:
        remove(d)
    return out


FILES = OracleKind("files", compare_files, "OracleNexus")


def random_nexus(rng, two):
    nid = [0]
    datasets, groups = [], []

    def fill(path, names):
        for nm in names:
            nid[0] += 1
            datasets.append(dict(path=path, name=nm, id=nid[0], unc=""))

    names = ["entry", "data", "result", "sasentry01", "E2", "a", "I"]
    depth = rng.choice([0, 1, 1, 2, 2, 2, 3, 4])
    parts = [rng.choice(names) for _ in range(depth)]
    cuts = [0]
    while cuts[-1] < depth:  # defaults leading over several levels at once
        cuts.append(min(depth, cuts[-1] + rng.choice([1, 1, 1, 2])))
    blank = dict(signal="", unc=[], axes=[], iaxes=[], mask="")
    for k in range(depth + 1):
        p = parts[:k]
        dflt = []
        if k in cuts and k < depth:
            dflt = parts[k:cuts[cuts.index(k) + 1]]
        g = dict(path=p, default=dflt, **blank)
        if k < depth and rng.random() < 0.35:  # data on the way to those wanted
            g.update(signal="I", axes=["Q"], unc=["I", "E"] if rng.random() < 0.5 else [])
            if rng.random() < 0.3:
                g["mask"] = "M"
            fill(p, [nm for nm in ("I", "Q", "E", "M") if [nm] != parts[k:k + 1]])
        groups.append(g)
    here = parts
    sig = rng.choice(["I", "I", "signal", "intensity", "Iq", "J"])
    q = rng.choice(["q", "Q"])
    # only one of them is there, or also the other one without being an axis
    pool = [sig, q, "E", "Idev", "M", "mask2", "IE"] + (["Q" if q == "q" else "q"] if rng.random() < 0.3 else [])
    if sig != "I" and "I" not in parts and rng.random() < 0.5:
        pool.append("I")
    for nm in list(pool):
        if rng.random() < 0.03:
            pool.remove(nm)
    rng.shuffle(pool)
    taken = {tuple(g["path"]) for g in groups}
    fill(here, [nm for nm in pool if tuple(here + [nm]) not in taken])
    g = groups[-1]
    g["signal"] = sig if rng.random() < 0.97 else ""
    u = rng.choice(["none", "group", "data", "both", "other"])
    if u in ("group", "both"):
        g["unc"] = [sig, rng.choice(["E", "Idev", "IE"])]
    if u == "other":
        g["unc"] = ["other", "E"]
    if u in ("data", "both", "other") and rng.random() < 0.9:
        for x in datasets:
            if x["name"] == sig:
                x["unc"] = rng.choice(["E", "Idev", "IE"])
            elif rng.random() < 0.3 and x["name"].lower() != "q":
                x["unc"] = "E"
    ax = [q, q] if two and rng.random() < 0.5 else rng.choice([[q], [q], [".", q], [q, "."], ["I", q], [q, "x"]])
    which = rng.random()
    if which < 0.5:
        g["axes"] = ax
    elif which < 0.9:
        g["iaxes"] = ax
    elif which < 0.95:
        g["axes"], g["iaxes"] = ax, ["x"]
    else:
        g["axes"] = ["x"] if rng.random() < 0.5 else []
    if rng.random() < 0.35:
        g["mask"] = rng.choice(["M", "mask2"])
    for x in datasets:
        if x["name"] == "mask2":
            x["name"] = "Mask"
    if g["mask"] == "mask2":
        g["mask"] = "Mask"
    # other groups with data of their own
    for k in range(rng.choice([0, 1, 2])):
        p = (parts[:rng.randrange(0, depth)] if depth else []) + [f"other{k}"]
        groups.append(dict(path=p, default=[], **dict(blank, signal="I", axes=["Q"])))
        fill(p, ["I", "Q", "E", "M"])
    if rng.random() < 0.02 and depth:
        groups[0]["default"] = ["nowhere"]
    paths = []
    if rng.random() < 0.3:
        byname = {}
        for x in datasets:
            byname.setdefault(x["name"], []).append(x)

        def pick(ns):
            c = [x for nm in ns for x in byname.get(nm, [])]
            x = rng.choice(c) if c else dict(path=["no"], name="no")
            return x["path"], x["name"]

        for k, ns in (("Q", ["Q", "q"]), ("I", [sig, "I", "E"]), ("ISigma", ["E", "IE", "Idev"])):
            paths.append([k, *pick(ns)])
        if rng.random() < 0.4:
            paths.append(["mask", *pick(["M", "Mask"])])
        if rng.random() < 0.05:
            paths.pop(rng.randrange(3))
    return dict(groups=groups, datasets=datasets), paths


def num(v):
    return dict(t="n", v=v)


def word(v):
    return dict(t="s", v=v)


def random_rows(rng):
    n = rng.choice([2, 3, 5, 12])
    qs = sorted(rng.sample(range(1, 200), n))
    if all(24 <= q < 32 for q in qs):  # something has to be left when omitting this range
        qs[-1] = 200
    return [[q, rng.randrange(1, 900), rng.randrange(1, 90)] for q in qs]


def random_text(rng, kind, rows):
    x = dict(style=rng.choice(["plain", "sci", "sign"]), lead="", suffix=".csv", loader="", csvargs=None)
    lines = []
    if kind == "pdh":
        x.update(glue=rng.choice([" ", "   ", "\t"]), lead=rng.choice(["", "  "]), suffix=".pdh")
        if rng.random() < 0.25:
            x.update(suffix=rng.choice([".asc", ".dat", ".txt"]), loader="from_pdh")
        lines = [[word("sample"), word("one")], [word("SAXS"), word("BOX")]]
        lines += [[num(8 * rng.randrange(9)) for _ in range(rng.choice([3, 5, 8]))] for _ in range(3)]
        lines += [[num(v) for v in r] for r in rows]
        lines += [[word("<?xml"), word('version="1.0"?>')], [word("<fileinfo>")]]
        for _ in range(rng.choice([0, 0, 1, 3])):  # whatever is recorded there
            lines.append(rng.choice([[num(8), num(16), num(24)], [word("<value>3</value>")], [],
                                     [word("<?xml"), word('version="1.0"?>')]]))
        lines.append([word("</fileinfo>")])
        return dict(kind=kind, lines=lines, x=x)
    names = ["Q", "I", "ISigma"]
    cols = list(names)
    if rng.random() < 0.4:
        cols += rng.sample(["QSigma", "extra", "mask"], rng.choice([1, 2]))
    if rng.random() < 0.5:
        rng.shuffle(cols)
    if rng.random() < 0.4:
        cols = list(names)
    sep = rng.choice([r"\s+", r"\s+", ",", ";", "\t"])
    x["glue"] = {r"\s+": rng.choice([" ", "  ", "\t", " \t "]), ",": ",", ";": ";", "\t": "\t"}[sep]
    if sep == r"\s+" and rng.random() < 0.3:
        x["lead"] = "  "
    x["suffix"] = rng.choice([".csv", ".dat", ".txt"])
    if rng.random() < 0.25:
        x.update(suffix=rng.choice([".asc", ".xyz", ".out", ""]), loader="from_csv")
    opts = dict(skip=rng.choice([0, 0, 1, 2, 4]), head=rng.random() < 0.3, names=cols, comment="")
    if rng.random() < 0.2:
        opts["comment"] = "#"
    plain = cols == names and sep == r"\s+" and not opts["comment"]
    if plain and rng.random() < 0.6:
        opts.update(skip=0, head=False)
    else:
        x["csvargs"] = dict(sep=sep, header=0 if opts["head"] else None)
        if opts["head"]:
            x["csvargs"].pop("header") if rng.random() < 0.3 else None
        else:
            x["csvargs"]["names"] = cols
        if opts["skip"]:
            x["csvargs"]["skiprows"] = opts["skip"]
        if opts["comment"]:
            x["csvargs"]["comment"] = "#"
    lines += [rng.choice([[word("title"), word("of"), word("this")], [num(8), num(16), num(24)], []]) for _ in range(opts["skip"])]
    body = []
    if opts["head"]:
        body.append([word(c) for c in cols])
    for r in rows:
        v = dict(zip(names, r))
        body.append([num(v.get(c, rng.randrange(1, 99))) for c in cols])
        if opts["comment"] and rng.random() < 0.2:
            body.append([word("#"), word("note")])
        elif rng.random() < 0.05:
            body.append([])
    return dict(kind="csv", lines=lines + body, opts=opts, x=x)


def jobs_files(rng, n):
    jobs = []
    while len(jobs) < n:
        two = rng.random() < 0.2
        steps = []
        rows = random_rows(rng)
        for k in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.4:
                rows = random_rows(rng)
            kind = "nexus" if two else rng.choice(["nexus", "nexus", "csv", "csv", "pdh", "df"])
            how = rng.choice(["new", "again"])
            if kind == "df":
                st = dict(kind="df", rows=rows, x=dict(suffix="", loader=""))
            elif kind != "nexus":
                st = random_text(rng, kind, rows)
            else:
                file, paths = random_nexus(rng, two)
                x = dict(enc=rng.choice(["str", "bytes", "obj"]), scalar=rng.random() < 0.6, loader="",
                         suffix=rng.choice([".h5", ".hdf5", ".nx", ".nxs"]), planes="",
                         shape=rng.choice([[4], [7], [1, 4], [5, 1], [1, 1, 3], [20]]))
                if two:
                    x.update(planes=rng.choice("abbcd"), shape=rng.choice([[2, 2], [3, 4], [4, 3], [1, 3, 3]]))
                if rng.random() < 0.2:
                    x.update(suffix=rng.choice([".dat2", ".nexus", ".bin"]), loader="from_nexus")
                st = dict(kind="nexus", file=file, paths=paths, x=x)
            st["x"]["how"] = how
            steps.append(st)
        st = dict(nbins=rng.choice([0, 0, 2, 5, 100]), measDataLink=rng.choice(["binnedData", "clippedData"]))
        if not two:
            st.update(qNudge=rng.choice([0, 0.5]), IEmin=rng.choice([0.01, 0.25]))
            if rng.random() < 0.3:
                st["measDataLink"] = "rawData"
            if rng.random() < 0.3:
                st["omitQRanges"] = [[3.0, 4.0]]
        jobs.append(dict(two=two, settings=st, xs=[s.pop("x") for s in steps], **{"in": dict(steps=steps)}))
    return jobs


def files(run):
    run.model_check("MCNexus", need=["DoFollow", "DoSignal", "DoUncertainty", "DoMask", "DoQ"])
    FILES.check(run, jobs_files(run.rng, 2500 if run.quick else 40000), note="sequences of files read")
