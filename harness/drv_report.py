"""C22: text reports, plotted histograms and result cards, read back from text and figures and
validated against the averages of the analysis they belong to."""

import math
import re
import shutil
import tempfile
from decimal import Decimal
from pathlib import Path

import kit
import impl
from impl import np, h5py
from core import TraceKind
from drv_analysis import MODES, OPTS, frame, jobs_of, real_value, scales, write_result

NUMBER = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)"


def num(v):
    """[s, m, e]: six digits"""
    v = float(v)
    if not math.isfinite(v):
        return dict(s=2, m=0, e=0)
    if v == 0:
        return dict(s=0, m=0, e=0)
    m, e = f"{abs(v):.5e}".split("e")
    return dict(s=1 if v > 0 else -1, m=int(m.replace(".", "")), e=int(e))


def seen(text):
    """a number as it is written: n units of 10^k"""
    if "n" in text:
        return dict(s=2, n=0, k=0)
    s, digits, k = Decimal(text).as_tuple()
    while len(digits) > 9:
        digits, k = digits[:-1], k + 1
    return dict(s=-1 if s else 1, n=int("".join(map(str, digits))), k=k)


NONE = dict(s=3, n=0, k=0)


def field(line, name):
    rest = line[line.index(":", len(name) - 1) + 1:]
    n = re.findall(NUMBER, rest)
    if len(n) < 2:
        return None
    return dict(name=name, mean=seen(n[0]), std=seen(n[1]), pct=[seen(x) for x in n[2:3]] if "%" in rest else [])


def fields(lines, names):
    out = []
    for line in lines:
        for name in names:
            if re.match(rf"\s*{name}\s*:", line):
                f = field(line.strip(), name)
                out.append(f or dict(name="unreadable", mean=NONE, std=NONE, pct=[]))
    return out


def range_report(text, head, pars):
    lines = text.split("\n")
    out = dict(key=[], par="", lo=NONE, hi=NONE, fields=fields(lines, MODES))
    if head:
        out["key"] = [int(x) for x in re.findall(r"-?\d+", lines[0])]
    for line in lines:
        m = re.search(rf"({NUMBER})\s*≤\s*(\S+)\s*≤\s*({NUMBER})", line)
        if m:
            out.update(lo=seen(m.group(1)), par=m.group(2), hi=seen(m.group(3)))
    return out


def run_report(text, head):
    lines = text.split("\n")
    out = dict(nrep=[], qmin=NONE, qmax=NONE, fields=fields(lines, OPTS))
    if head:
        out["nrep"] = [int(x) for x in re.findall(r"\d+", lines[0])]
    for line in lines:
        m = re.search(rf"({NUMBER})\s*≤\s*Q.*≤\s*({NUMBER})", line)
        if m:
            out.update(qmin=seen(m.group(1)), qmax=seen(m.group(2)))
    return out


def bars_of(ax):
    """the bars and error bars drawn in an axes"""
    from matplotlib.container import BarContainer

    out = []
    for c in ax.containers:
        if not isinstance(c, BarContainer):
            continue
        yerr = [math.nan] * len(c.patches)
        if c.errorbar is not None:
            segs = c.errorbar.lines[2][0].get_segments()
            yerr = [(s[-1][1] - s[0][1]) / 2 if len(s) else math.nan for s in segs]
        for p, s in zip(c.patches, yerr):
            out.append([num(p.get_x() + p.get_width() / 2), num(p.get_width()), num(p.get_height()), num(s)])
    return dict(bars=out, log=ax.get_xscale() == "log")


def card_of(fig, pars):
    from matplotlib.container import BarContainer, ErrorbarContainer

    col = lambda ax: ax.get_subplotspec().colspan.start
    axes = [a for a in fig.get_axes() if a.get_subplotspec() is not None]
    barred = sorted((a for a in axes if any(isinstance(c, BarContainer) for c in a.containers)), key=col)
    text = {}
    for a in axes:
        for x in a.texts:
            text.setdefault(col(a), []).append(x.get_text())
    panels = []
    for a in barred:
        panels.append(dict(bars_of(a), label=a.get_xlabel(), report=range_report("\n".join(text.pop(col(a), [])), False, pars)))
    run = run_report("\n".join("\n".join(v) for v in text.values()), False)
    data, fit = [], []
    for a in axes:
        if a in barred:
            continue
        own = set()
        for c in a.containers:
            if isinstance(c, ErrorbarContainer):
                line, _, segs = c.lines
                own.add(line)
                x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
                s = [(g[-1][1] - g[0][1]) / 2 for g in segs[0].get_segments()]
                data += [[num(v) for v in r] for r in zip(x, y, s)]
        for line in a.lines:
            if line not in own and len(line.get_xdata()) and not line.get_label().startswith("_"):
                fit += [[num(v) for v in r] for r in zip(line.get_xdata(), line.get_ydata())]
    return dict(panels=panels, run=run, data=data, fit=fit)


def stored_analysis(fn, ri, df, lims, meas):
    """what the result file holds of the analysis"""
    base = f"analyses/MCResult{ri}/"
    with h5py.File(fn, "r") as f:
        val = lambda p: float(f[base + p][()])
        arr = lambda p: np.asarray(f[base + p][()], dtype=float)

        def fld(name, path):
            m, s = val(path + "/valMean"), val(path + "/valStd")
            with np.errstate(all="ignore"):
                return dict(name=name, mean=num(m), std=num(s), pct=num(s / m * 100 if m else math.nan))

        ranges = []
        for key, r in df.iterrows():
            p = f"histograms/histRange{key}/average/"
            lo, hi = lims[r["parameter"]] if r["autoRange"] else (r["presetRangeMin"], r["presetRangeMax"])
            bars = np.stack([arr(p + k) for k in ("xMean", "xWidth", "yMean", "yStd")]).T
            ranges.append(dict(key=int(key), par=r["parameter"], log=r["binScale"] == "log", lo=num(lo), hi=num(hi),
                               modes=[fld(m, p + m) for m in MODES], bars=[[num(v) for v in b] for b in bars]))
        opts = [fld(o, f"optimization/average/{o}") for o in OPTS]
        fit = arr("optimization/average/modelIMean")
        nrep = len([k for k in f[base + "optimization"] if k.startswith("repetition") and "acceptedGofs" in f[base + "optimization/" + k]])
    q = np.asarray(meas["Q"][0], dtype=float)
    return dict(nrep=nrep, qmin=num(q.min()), qmax=num(q.max()), opts=opts, ranges=ranges,
                data=[[num(v) for v in r] for r in zip(q, meas["I"], meas["ISigma"])],
                fit=[[num(v) for v in r] for r in zip(q, fit)])


def report_run(job):
    import matplotlib.pyplot as plt
    from mcsas3 import osb
    from mcsas3.mc_analysis import McAnalysis
    from mcsas3.mc_plot import McPlot

    from drv_optimizer import World

    d = Path(tempfile.mkdtemp(dir=kit.scratch()))
    inp, ev, phase = job["in"], [], "analysing"
    fn = d / "r.h5"
    old = osb.optimizeScalingAndBackground.match
    anas, plotter = {}, None
    plt.close("all")
    try:
        with impl.guarded(150):
            for i in (1, 2):
                write_result(fn, job["ri"][i - 1], inp["results"][i - 1], job)
            for e in job["log"]:
                a, r = e["a"], e["r"]
                res = inp["results"][r - 1]
                w = res["w"]
                pars = w["pars"]
                if e["op"] == "analyse":
                    phase = "analysing"
                    world = World(w)
                    meas = world.meas()
                    meas["Q"] = [np.asarray(meas["Q"][0]) * 0.125]
                    meas["I"], meas["ISigma"] = np.asarray(meas["I"], float) + 0.75 * r, np.asarray(meas["ISigma"], float)
                    osb.optimizeScalingAndBackground.match = lambda self, modelDataI, x0=None: world.match(self, modelDataI, x0)
                    req = inp["requests"][job["table"][a - 1]]
                    c = scales(job, res)
                    lims = {pars[p]: [real_value(w, p, v, c[p], job["far"]) for v in w["lim"][p]] for p in range(len(pars))}
                    df = frame(req, w, job, res)
                    McAnalysis(fn, meas, df.copy(), store=True, resultIndex=job["ri"][r - 1])
                    truth = stored_analysis(fn, job["ri"][r - 1], df, lims, meas)
                    anas[a] = McAnalysis(fn, meas, df, store=job["store"], resultIndex=job["ri"][r - 1]), [g["key"] for g in req]
                    ev.append(dict(op="analyse", a=a, ana=truth))
                    continue
                ana, keys = anas[a]
                key = keys[len(ev) % len(keys)]
                if plotter is None or job["fresh"]:
                    plotter = McPlot()
                head = bool((len(ev) + job["fresh"]) % 2)
                phase = {"range": "reporting a range", "run": "reporting the run", "bars": "plotting a histogram",
                         "card": "making the result card"}[e["op"]]
                if e["op"] == "range":
                    if not head:
                        plotter._analysis = ana
                    txt = ana.debugReport(key) if head else plotter.getHistReport(key)
                    ev.append(dict(op="range", a=a, key=int(key), head=head, text=range_report(txt, head, pars)))
                elif e["op"] == "run":
                    if not head:
                        plotter._analysis = ana
                    txt = ana.debugRunReport() if head else plotter.getRunReport()
                    ev.append(dict(op="run", a=a, head=head, text=run_report(txt, head)))
                elif e["op"] == "bars":
                    fig = plt.figure()
                    ana.debugPlot(key)
                    axes = fig.get_axes()
                    ev.append(dict(op="bars", a=a, key=int(key), plot=bars_of(axes[0]) if axes else dict(bars=[], log=False)))
                    plt.close(fig)
                elif e["op"] == "card":
                    save = d / f"card{len(ev)}.{job['suffix']}" if job["save"] else None
                    here = set(plt.get_fignums())
                    plotter.resultCard(ana, **(dict(saveHistFile=save) if save else {}))
                    new = [n for n in plt.get_fignums() if n not in here] or [plt.gcf().number]
                    fig = plt.figure(new[-1])
                    files = sorted(p.name for p in d.iterdir() if p.name != fn.name)
                    ok = files == ([save.name] if save else []) and (not save or save.stat().st_size > 500)
                    ev.append(dict(op="card", a=a, card=card_of(fig, pars), saved=ok))
                    if save and save.exists():
                        save.unlink()
                    if not job["keepfig"]:
                        plt.close(fig)
    except (Exception, impl.Hang) as x:
        import traceback

        ev.append(dict(op="exc", phase=phase, what=f"{type(x).__name__}: {x} {traceback.format_exc()[-700:]}"[:1100]))
    finally:
        osb.optimizeScalingAndBackground.match = old
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    return dict(w=dict(job=0), ev=ev)


REPORT = TraceKind("report", report_run, "TraceReport", chunksize=1)


def reports(run):
    rng = run.rng
    hs = [b["log"] for b in run.generate("MCReport", "MCReport", note="all histories of analyses and reports; rounding")]
    n = 100 if run.quick else 1400
    some = rng.sample(hs, n)
    jobs = []
    for log, j in zip(some, jobs_of(run, some)):
        del j["in"]["log"]
        keys = rng.choice([{0: 0, 1: 1, 2: 2, 5: 5, 12: 12, 14: 14}, {0: 3, 1: 0, 2: 1, 5: 1, 12: 0, 14: 4}])
        for q in j["in"]["requests"]:  # numbered in any way
            if len({keys[g["key"]] for g in q}) == len(q):
                for g in q:
                    g["key"] = keys[g["key"]]
        jobs.append(dict(j, log=log, table=rng.choice([[0, 1], [0, 2], [2, 0], [1, 1]]), store=rng.random() < 0.5,
                         fresh=rng.random() < 0.5, save=rng.random() < 0.5, suffix=rng.choice(["pdf", "png"]),
                         keepfig=rng.random() < 0.5))
    REPORT.check(run, jobs, note="reports and figures of analyses, read back")
