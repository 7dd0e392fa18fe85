"""C20: the command line tools in a scratch directory, with links and other users' files around."""

import contextlib
import hashlib
import os
import re
import runpy
import shutil
import sys
import tempfile
from pathlib import Path

import kit
import impl
from impl import np, h5py
from core import TraceKind
from drv_index import group_digests
from drv_run import dig, isolated, OPTKEYS

PLOTS = {"d.csv": "d.pdf", "d.nxs": "d.pdf", "r.nxs": "r.pdf", "s.nxs": "s.pdf", "k.v2.nxs": "k.v2.pdf",
         "o.1.nxs": "o.1.pdf", "u.txt": "u.pdf"}
NQ = 7


def curve(k):
    q = np.round(np.linspace(0.1 + 0.01 * k, 0.9 - 0.02 * k, NQ), 6)
    I = np.round((3.0 + k) / (1 + (q * 6) ** 4) + 0.05, 9)
    return q, I, np.round(0.03 * I + 1e-3, 9)


def populate(d):
    """the directory before: text data, a measurement file with links to it, other files"""
    q, I, s = curve(1)
    (d / "d.csv").write_text("".join(f"{a!r};{b!r};{c!r}\n" for a, b, c in zip(q.tolist(), I.tolist(), s.tolist())))
    q, I, s = curve(2)
    with h5py.File(d / "d.nxs", "w") as f:
        f.attrs["default"] = "entry"
        e = f.create_group("entry")
        e.attrs["default"] = "data"
        g = e.create_group("data")
        g.attrs["signal"] = "I"
        g.attrs["I_axes"] = "Q"
        g.attrs["axes"] = "Q"
        g["I"], g["Q"], g["ISigma"] = I, q, s
        g["I"].attrs["uncertainties"] = "ISigma"
        f["entry/title"] = "precious"
    os.link(d / "d.nxs", d / "k.v2.nxs")
    os.symlink("d.nxs", d / "s.nxs")
    os.symlink("r.nxs", d / "o.1.nxs")
    (d / "u.txt").write_text("notes\n")
    (d / "u.pdf").write_text("%PDF-1.4 somebody's\n")
    (d / "r.pdf").write_text("%PDF-1.4 another one\n")
    # neighbours with similar names
    for nm in ("r_report.pdf", "r2.pdf", "r.nxs.pdf", "sr.pdf", "s.pdf.bak", "d_1.pdf", "k.v2.pdf~", "k.pdf", "o.pdf", "k.v2.nxs.pdf", "o0.pdf", "u.h5.pdf"):
        (d / nm).write_text(f"%PDF-1.4 {nm}\n")
    for nm in ("r.nxs.bak", "r.txt", "r.h5", "r.yaml", "s.nxs.tmp", ".r.nxs", "d.nxs.tmp", "r.png", "u.txt.bak"):
        (d / nm).write_text(f"mine: {nm}\n")
    (d / "sub").mkdir()
    (d / "sub" / "r.nxs").write_text("not this one\n")
    for nm in ("r.pdf", "d.pdf", "s.pdf", "k.v2.pdf", "o.1.pdf", "k.pdf", "o.pdf", "d.csv", "u.txt"):
        (d / "sub" / nm).write_text("%PDF not this one\n")
    os.symlink(".", d / "here")


def write_configs(d, nrange, nrep, cores, h):
    c = d / "cfg"
    c.mkdir()
    (c / "csv.yaml").write_text('nbins: 5\ndataRange:\n  - 0.0\n  - .inf\ncsvargs:\n  sep: ";"\n  header: null\n  names: ["Q", "I", "ISigma"]\n')
    (c / "nxs.yaml").write_text("nbins: 0\ndataRange: [0.0, 10.0]\n" + (
        "pathDict:\n  Q: /entry/data/Q\n  I: /entry/data/I\n  ISigma: /entry/data/ISigma\n" if nrange else ""))
    (c / "badread.yaml").write_text("nbins: 5\nnoSuchOption: 3\n")
    run = ("modelName: mcsas_sphere\nnContrib: 2\nmodelDType: default\nfitParameterLimits:\n  radius: %s\n"
           "staticParameters:\n  sld: 33.4\n  sld_solvent: 0\nmaxIter: 3\nconvCrit: 0.001\nnRep: %d\nnCores: %d\n"
           % (["auto", "[3.14, 20]"][nrange], nrep, cores))
    (c / "run.yaml").write_text(run)
    (c / "badrun.yaml").write_text(run + "noSuchOption: 3\n")
    docs = ["parameter: %s\nnBin: %d\nbinScale: %s\npresetRangeMin: 3.1\npresetRangeMax: 25\nbinWeighting: vol\nautoRange: %s\n"
            % ("%s", 3 + k, ["linear", "log"][k % 2], ["True", "False"][k % 2]) for k in range(h)]
    (c / "hist.yaml").write_text("---\n" + "---\n".join(x % "radius" for x in docs))
    (c / "badhist.yaml").write_text("---\n" + "---\n".join(x % "length" for x in docs))
    (c / "run.txt").write_text(run)


class Observer:
    """states of the directory, as the specification sees them"""

    def __init__(self, d, idxs):
        self.d, self.idxs, self.ids = d, idxs, kit.Interner()
        self.users = {dig(*curve(1)): self.user((d / "d.csv")), dig(*curve(2)): self.user(d / "d.nxs")}

    def user(self, p):
        if h5py.is_hdf5(p):
            g = group_digests(p)
            known = {str(i) for i in self.idxs}
            rest = (g.get(""),) + tuple(sorted((k, v) for k, v in g.items() if k and k not in known))
            return 0 if rest == (None,) else self.ids(("hdf", rest))
        b = p.read_bytes()
        return self.ids(("bytes", b, p.stat().st_mtime_ns if b[:4] == b"%PDF" else 0))

    def group(self, f, i):
        e = dict(core=0, data=0, reps=0, hist=0, hr=[])
        g = f.get(f"/analyses/MCResult{i}")
        if g is None:
            return e
        core, hist = [], []

        def visit(n, o):
            v = (n, tuple(sorted((k, repr(np.asarray(x).tolist())) for k, x in o.attrs.items())),
                 (str(o.dtype), o.shape, repr(np.asarray(o[()]).tolist())) if isinstance(o, h5py.Dataset) else ())
            (hist if n.split("/")[0] == "histograms" or n.startswith("optimization/average") else core).append(v)

        g.visititems(visit)
        h = lambda x: self.ids(hashlib.sha1(repr(sorted(x)).encode()).hexdigest()) if x else 0
        e["core"], e["hist"] = h(core), h(hist)
        with contextlib.suppress(Exception):
            raw = g["mcdata/rawData"]
            e["data"] = self.users.get(dig(raw["Q"][()], raw["I"][()], raw["ISigma"][()]), -1)
        e["reps"] = self.reps(g)
        hs = g.get("histograms")
        if hs is not None:
            rng = sorted(hs)
            if rng != [f"histRange{k}" for k in range(len(rng))]:
                rng = []
            nums = []
            for r in rng:
                ok = "average" in hs[r] and "yMean" in hs[r]["average"] and "totalValue" in hs[r]["average"]
                reps = {k for k in hs[r] if k.startswith("repetition")}
                ok = ok and reps == {f"repetition{k}" for k in range(len(reps))}
                ok = ok and all("hist" in hs[r][k] for k in reps)
                nums.append(len(reps) if ok else -1)
            e["hr"] = nums or [-1]
        return e

    @staticmethod
    def reps(g):
        m = {k for k in g.get("model", {}) if k.startswith("repetition")}
        o = {k for k in g.get("optimization", {}) if k.startswith("repetition")}
        n = len(m)
        if m != o or m != {f"repetition{k}" for k in range(n)}:
            return -1
        try:
            nq = g["mcdata/measData/I"].shape[0]
            for k in m:
                op, mo = g["optimization"][k], g["model"][k]
                ok = all(x in op for x in OPTKEYS) and op["modelI"].shape == (nq,) and int(op["repetition"][()]) == int(k[10:])
                ok = ok and mo["parameterSet/data"].shape[0] == mo["volumes"].shape[0] == 2
                if not ok:
                    return -1
            if n and int(g["optimization/nRep"][()]) != n:
                return -1
        except Exception:
            return -1
        return n

    def state(self):
        dirs, files, inodes = {}, [], {}
        for p in sorted(self.d.iterdir()):
            if p.name in ("cfg", "sub", "here"):
                continue
            if p.is_symlink():
                dirs[p.name] = dict(t="link", to=os.readlink(p), f=0)
                continue
            ino = p.stat().st_ino
            if ino not in inodes:
                files.append(self.file(p))
                inodes[ino] = len(files)
            dirs[p.name] = dict(t="file", to="", f=inodes[ino])
        return dict(dir=dirs, files=files)

    def file(self, p):
        none = dict(core=0, data=0, reps=0, hist=0, hr=[])
        res = [dict(none) for _ in range(3)]
        kind = "text"
        if h5py.is_hdf5(p):
            kind = "hdf"
            with h5py.File(p, "r") as f:
                res = [self.group(f, i) for i in self.idxs]
        elif p.read_bytes()[:4] == b"%PDF":
            kind = "plot"
        return dict(kind=kind, user=self.user(p), res=res)

    def other(self, made):
        out = []
        for p in sorted(self.d.rglob("*")):
            rel = str(p.relative_to(self.d))
            if "/" not in rel and p.name not in ("cfg", "sub", "here"):
                continue
            if rel.startswith("cfg"):
                continue  # written anew for each run, compared on its own
            out.append((rel, p.is_symlink(), p.read_bytes() if p.is_file() and not p.is_symlink() else None))
        for p in sorted((self.d / "cfg").iterdir()):
            out.append((p.name, made[p.name] == p.read_bytes() if p.name in made else False))
        return out, all(x[1] for x in out if len(x) == 2)


def spelled(d, name, how, cwd="."):
    if cwd != "." and how in ("rel", "dot", "up", "here"):
        return {"rel": "../" + name, "dot": "../here/sub/../" + name, "up": f"./../../{d.name}/{name}", "here": "../here/" + name}[how]
    return {"abs": str(d / name), "rel": name, "dot": "./sub/../" + name, "up": f"../{d.name}/{name}",
            "here": "here/" + name, "hereabs": str(d / "here" / "." / name), "sub": str(d / "sub" / ".." / name)}[how]


def contain():
    """destructive calls reach the scratch directory only"""
    root = os.path.realpath(kit.scratch())
    for mod, names in ((os, ("unlink", "remove", "rename", "replace", "rmdir", "truncate")),):
        for n in names:
            def wrap(f):
                def g(p, *a, **k):
                    q = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p)))), "x")
                    if isinstance(p, int) or not (q.startswith(root + os.sep) or q.startswith(os.path.realpath(tempfile.gettempdir()) + "/pym")):
                        raise PermissionError(f"outside of the scratch directory: {p}")
                    return f(p, *a, **k)
                return g
            setattr(mod, n, wrap(getattr(mod, n)))
    shutil.rmtree = lambda *a, **k: (_ for _ in ()).throw(PermissionError("rmtree"))


def tool(arg):
    """one invocation, in a process of its own"""
    d, op, how = Path(arg["d"]), arg["op"], arg["how"]
    os.chdir(d / how["cwd"])  # same names are in use there
    contain()
    sys.path.insert(0, str(kit.REPO / "src"))
    cfg = d / "cfg"
    read = cfg / ("badread.yaml" if op["bad"] == "read" else "csv.yaml" if op["data"].endswith(".csv") else "nxs.yaml")
    runc = cfg / ("badrun.yaml" if op["bad"] == "run" else ["run.txt", "missing.yaml"][how["cfg"]] if op["bad"] == "config" and op["tool"] != "hist" else "run.yaml")
    hist = cfg / ("badhist.yaml" if op["bad"] == "range" else ["run.txt", "missing.yaml"][how["cfg"]] if op["bad"] == "config" and op["tool"] == "hist" else "hist.yaml")
    data, res = spelled(d, op["data"], how["data"], how["cwd"]) if op["data"] else "", spelled(d, op["res"], how["res"], how["cwd"])
    i = arg["idxs"][op["idx"] - 1]
    if how["via"] == "class":
        from mcsas3.cli_tools import McSAS3_cli_histogram, McSAS3_cli_optimize

        if op["tool"] != "hist":
            McSAS3_cli_optimize(dataFile=Path(data), resultFile=Path(res), readConfigFile=read, runConfigFile=runc,
                                resultIndex=i, deleteIfExists=op["del"], nThreads=how["threads"])
        if op["tool"] != "opt":
            McSAS3_cli_histogram(resultFile=Path(res), histConfigFile=hist, resultIndex=i)
        return dict(rc=0)
    long = how["via"] == "long"
    a = []

    def arg_(short, name, value):
        a.extend([f"--{name}={value}"] if long else [f"-{short}", str(value)])

    if op["tool"] != "hist":
        arg_("f", "dataFile", data)
        arg_("F", "readConfigFile", read)
        arg_("R", "runConfigFile", runc)
        if op["del"]:
            a.append("--deleteIfExists" if long else "-d")
        if how["threads"]:
            arg_("t", "nThreads", how["threads"])
    arg_("r", "resultFile", res)
    if op["tool"] != "opt":
        arg_("H", "histConfigFile", hist)
    if i != 1 or how["cfg"]:
        arg_("i", "resultIndex", i)
    mod = dict(opt="mcsas3.mcsas3_cli_runner", hist="mcsas3.mcsas3_cli_histogrammer", both="mcsas3")[op["tool"]]
    sys.argv = [mod] + a
    try:
        runpy.run_module(mod, run_name="__main__", alter_sys=False)
        rc = 0
    except SystemExit as e:
        rc = e.code or 0
    return dict(rc=rc)


def cli_trace(job):
    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    ev = []
    try:
        populate(d)
        obs = Observer(d, job["idxs"])
        w = dict(start=obs.state(), plots=PLOTS)
        for op, how in zip(job["ops"], job["how"]):
            write_configs(d, how["ranges"], op["n"] or 1, how["cores"], op["h"] or 1)
            made = {p.name: p.read_bytes() for p in (d / "cfg").iterdir()}
            before, _ = obs.other(made)
            r, hung = isolated(tool, dict(d=str(d), op=op, how=how, idxs=job["idxs"]), 60)
            if hung or r is None:
                ev.append(dict(op="hang", what="no answer" if hung else "ended"))
                break
            after, cfg = obs.other(made)
            shutil.rmtree(d / "cfg")
            ev.append(dict(op="run", c=op, after=obs.state(), other=before != after or not cfg,
                           failed="error" in r or r.get("rc", 0) != 0, how=how["via"],
                           what=str(r.get("error", ""))[-700:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(w=w, job=job, ev=ev)


CLI = TraceKind("cli", cli_trace, "TraceCli", chunksize=1)


def rand_how(rng, op):
    sp = ["abs", "abs", "rel", "dot", "up", "here", "hereabs", "sub"]
    return dict(data=rng.choice(sp), res=rng.choice(sp), cfg=rng.randrange(2), ranges=rng.randrange(2),
                cwd=rng.choice([".", ".", "sub"]), cores=rng.choice([1, 1, 2]), threads=rng.choice([0, 0, 1, 2]),
                via=rng.choice(["class", "short", "long"]))


def check(run):
    run.model_check("MCCli", need=["DoOpt", "DoHist", "DoBoth"])
    m = run.generate("MCCli", "GenCli", note="the invocations")[0]
    assert m["plots"] == PLOTS
    ops = sorted(m["ops"], key=repr)
    rng = run.rng
    by = lambda f: [o for o in ops if f(o)]
    hists, goods = by(lambda o: o["tool"] == "hist"), by(lambda o: not o["bad"])
    jobs = []

    def job(hist):
        hist = [dict(o) for o in hist]
        for o in hist:
            if o["tool"] != "hist":
                o["n"] = rng.choice([1, 2, 2, 3])
            if o["tool"] != "opt":
                o["h"] = rng.choice([1, 1, 2])
        idxs = rng.choice([[1, 2, 3], [1, 10, 0], [1, 12, 2], [3, 1, 11]])
        jobs.append(dict(idxs=idxs, ops=hist, how=[rand_how(rng, o) for o in hist]))

    singles = list(ops)
    if run.quick:
        singles = rng.sample(ops, 60) + by(lambda o: o["bad"])
    for o in singles:  # every invocation on its own, then something done with its result
        follow = [x for x in hists if x["res"] == o["res"] and x["idx"] == o["idx"] and not x["bad"]]
        job([o] + follow[:1] if o["tool"] == "opt" else [o])
    for _ in range(60 if run.quick else 400):
        n = rng.choice([2, 3, 4])
        res = rng.sample(sorted({o["res"] for o in ops}), 2)
        pool = by(lambda o: o["res"] in res)
        job([rng.choice(pool if rng.random() < 0.85 else ops) for _ in range(n)])
    CLI.check(run, jobs, note="histories of invocations, file by file")
