"""C08: histories of writes into the HDF5 store."""

import datetime
from pathlib import Path, PurePosixPath

import kit
import impl
from impl import np, h5py, pandas
from core import TraceKind


def canon(x):
    """equal for values which are the same number(s) or string(s) in the same shape"""
    import pint

    if isinstance(x, pint.Quantity):
        x = x.m
    if isinstance(x, Path):
        return ("s", (), (x.as_posix(),))
    if isinstance(x, pandas.Timestamp):
        x = x.timestamp()
    if isinstance(x, pandas.Series):
        x = x.values
    if isinstance(x, bytes):
        x = x.decode()
    if isinstance(x, str):
        return ("s", (), (x,))
    a = np.asarray(x)
    k = a.dtype.kind
    if k in "OSU":
        return ("s", a.shape, tuple(v.decode() if isinstance(v, bytes) else str(v) for v in a.ravel()))
    k = "i" if k == "u" else k
    return (k, a.shape, tuple("nan" if v != v else v for v in a.ravel().tolist()))


_cat = None


def catalogue():
    global _cat
    if _cat is None:
        import pint

        u = pint.UnitRegistry()
        _cat = [None,
                1, 2, 0, -7, 3.25, float("inf"), float("nan"),  # 1..7
                "text", "", "Ünïcode/ü m^-1", True, np.float32(0.1), np.int64(2**40),  # 8..13
                np.arange(4), np.arange(6.0).reshape(2, 3), [1, 2], ["a", "bc", "ä"], (0.5, float("inf")),  # 14..18
                Path("/some/dir/file.dat"), np.zeros(0),  # 19, 20
                [[0.1, 0.2], [0.4, 0.8]], np.array(["x", "yy"], dtype=object), np.array(["q", "I"]),  # 21..23
                pandas.Series([1.0, 2.0, 4.0]), pandas.Timestamp("2024-02-03T04:05:06"),  # 24, 25
                u.Quantity(3.5, "nm"), np.array([1.0]), np.array(5.0), False, "1", [True, False],  # 26..31
                np.arange(3, dtype=np.uint16), np.arange(5.0), -1.5e-300, "a" * 300, [], np.bool_(True),  # 32..37
                np.array([[b"ab", b"c"]]), ["only"], np.arange(24.0).reshape(2, 3, 4),  # 38..40
                " 1/nm ", "\t a\nb \n", [" a", "b ", " ", ""], np.array(["\n", "x  y"]),  # 41..44
                Path("dir with blanks/ f"), np.arange(5000) / 7, [False], (1, 2.5, 3), "nan", "None", 0.1 + 0.2,  # 45..51
                pandas.Timestamp("2024-02-03T04:05:06.789"), np.array([[]]), -0.0, [2**53 + 1], b"bytes ",  # 52..56
                2**53 + 1, -(2**62) - 1, np.uint8(200), np.uint64(2**64 - 1), 1e-45, 1.7e308, 123456789.123456789,  # 57..63
                [1e308, 5e-324], np.array([2**24 + 1.0]), np.array([1 + 2**-40, 3], dtype=np.longdouble)]
    return _cat


ALL = list(range(1, 67))


class Unstorable:
    pass


# there is no way to put these into a file
UNSTORABLE = [lambda: {1, 2}, lambda: Unstorable(), lambda: "nul\0inside", lambda: datetime.datetime(2024, 2, 3),
              lambda: [1, [2, 3]], lambda: np.array([None, Unstorable()])[1:].tolist()[0], lambda: [{1}, {2, 3}]]


def build(v):
    """the python value of a specification value"""
    if v["t"] == "none":
        return None
    if v["t"] == "val":
        return catalogue()[v["id"]]
    if v["t"] == "bad":
        return UNSTORABLE[v["id"]]()
    if v["t"] == "frame":
        return pandas.DataFrame({k: catalogue()[w["id"]] for k, w in v["items"]})
    return {k: build(w) for k, w in v["items"]}


def replaced(v, ids):
    if v["t"] in ("none", "bad"):
        return dict(t=v["t"])
    if v["t"] == "val":
        return dict(t="val", id=ids(canon(catalogue()[v["id"]])))
    return dict(t="dict", items=[[k, replaced(w, ids)] for k, w in v["items"]])


def tree(fn, ids):
    out = []
    if Path(fn).exists():
        with h5py.File(fn, "r") as f:
            f.visititems(lambda n, o: out.append([n.split("/"), ids(canon(o[()]))])
                         if isinstance(o, h5py.Dataset) else None)
    return out


def history(job):
    from mcsas3.mc_hdf import loadKV, loadKVPairs, storeKV, storeKVPairs

    ids = kit.Interner()
    fn = kit.scratch() / f"hdf_{kit.stable_hash(repr(job))}_{impl.os.getpid()}.h5"
    ev = []

    def P(p):
        return PurePosixPath("/" + "/".join(p))

    def load(p):
        """everything loading can say about a path"""
        sentinel = object()
        kind = "missing"
        if fn.exists():
            with h5py.File(fn, "r") as f:
                o = f.get(str(P(p)))
                kind = "missing" if o is None else "leaf" if isinstance(o, h5py.Dataset) else "group"
                deep = [0]
                if kind == "group":
                    # dictionaries in dictionaries, but not any deeper
                    o.visititems(lambda n, x: deep.append(n.count("/") + 1 + isinstance(x, h5py.Group)))
                deep = max(deep)
        else:
            return
        if kind in ("leaf", "missing"):
            types = [None]
            x = None
            for dt in types:
                x = loadKV(fn, P(p), datatype=dt, default=sentinel)
                ev.append(dict(op="load", p=p, got=0 if x is sentinel else ids(canon(x))))
            if kind == "leaf" and isinstance(x, (bytes, str)):
                for dt in ("str", Path, str):
                    if dt is Path and canon(Path(canon(x)[2][0]))[2] != canon(x)[2]:
                        continue  # no such path
                    if dt is str and isinstance(x, bytes):
                        continue
                    y = loadKV(fn, P(p), datatype=dt, default=sentinel)
                    if dt == "str" and not isinstance(y, str) or dt is Path and not isinstance(y, Path):
                        y = ("wrong type", str(type(y)))
                    ev.append(dict(op="load", p=p, got=ids(canon(y))))
            elif kind == "leaf" and np.ndim(x) == 0:
                t = {"b": bool, "i": int, "f": float}.get(canon(x)[0])
                if t:
                    y = loadKV(fn, P(p), datatype=t)
                    ev.append(dict(op="load", p=p, got=ids(canon(y)) if type(y) is t else 0))
            elif kind == "leaf" and np.ndim(x) == 1 and np.size(x):
                y = loadKV(fn, P(p), datatype=list)
                ev.append(dict(op="load", p=p, got=ids(canon(y)) if type(y) is list else 0))
            if kind == "leaf" and len(p) > 1:
                y = [v for _, v in loadKVPairs(fn, P(p[:-1]), [p[-1]])]
                ev.append(dict(op="load", p=p, got=ids(canon(y[0])) if len(y) == 1 else 0))
        if kind in ("group", "missing"):
            if kind == "missing" or deep <= 2:
                x = loadKV(fn, P(p), datatype="dict", default=sentinel)
                got = []
                if x is not sentinel:
                    for k, v in x.items():
                        if isinstance(v, dict):
                            got += [[[k, k2], ids(canon(v2))] for k2, v2 in v.items()]
                        else:
                            got.append([[k], ids(canon(v))])
                ev.append(dict(op="loaddict", p=p, got=got, default=x is sentinel))

    try:
        with impl.guarded(60):
            for o in job["log"]:
                if o.get("op") == "frame":  # as parameter sets are stored
                    df = pandas.DataFrame(data=o["data"], columns=o["columns"], index=o["index"])
                    sd = df.to_dict(orient="split")
                    items = [[k, dict(t="val", id=ids(canon(v)))] for k, v in sd.items()]
                    storeKVPairs(fn, P(o["p"]), sd.items())
                    ev.append(dict(op="pairs", p=o["p"], items=items, refused=False, tree=tree(fn, ids)))
                    x = loadKV(fn, P(o["p"]), datatype="dictToPandas")
                    sd = x.to_dict(orient="split")
                    ev.append(dict(op="loaddict", p=o["p"], default=False,
                                   got=[[[k], ids(canon(v))] for k, v in sd.items()]))
                    continue
                pairs = o.get("op") == "pairs"
                refused = False
                try:
                    if pairs:
                        storeKVPairs(fn, P(o["p"]), [(k, build(v)) for k, v in o["items"]])
                    else:
                        storeKV(fn, P(o["p"]), build(o["v"]))
                except impl.Hang:
                    raise
                except Exception:
                    refused = True
                e = dict(op="pairs" if pairs else "store", p=o["p"], refused=refused, tree=tree(fn, ids))
                if pairs:
                    e["items"] = [[k, replaced(v, ids)] for k, v in o["items"]]
                else:
                    e["v"] = replaced(o["v"], ids)
                ev.append(e)
                for p in job["paths"]:
                    load(p)
    except (Exception, impl.Hang) as e:
        ev.append(dict(op="exc", what=f"{type(e).__name__}: {e}"[:300]))
    finally:
        if fn.exists():
            fn.unlink()
    return dict(w=dict(n=len(job["log"])), job=job, ev=ev)


HISTORY = TraceKind("history", history, "TraceHdf")


def random_value(rng, depth=2):
    r = rng.random()
    if r < 0.04:
        return dict(t="bad", id=rng.randrange(len(UNSTORABLE)))
    if r < 0.6:
        return dict(t="val", id=rng.choice(ALL))
    if r < 0.7 or depth == 0:
        return dict(t="none")
    if r < 0.76:
        a = [[k, dict(t="val", id=i)] for k, i in zip("abc", rng.sample([14, 33, 24, 32], rng.randrange(1, 2)))]
        return dict(t="frame", items=a)
    names = rng.sample(["a", "b", "c", "d1"], rng.randrange(0, 4))
    return dict(t="dict", items=[[n, random_value(rng, depth - 1)] for n in names])


def histories(run):
    jobs = []
    for m in run.generate("MCHdf", "GenHdf", env=dict(MODE="gen"), note="all pairs of writes"):
        log = [dict(op="store", p=o["p"], v=o["v"]) for o in m["log"]]
        jobs.append(dict(log=log, paths=[["p"], ["p", "x"], ["q"]]))
    if run.quick:
        jobs = run.rng.sample(jobs, 900)
    rng = run.rng
    P = [["a"], ["a", "b"], ["a", "b", "c"], ["a", "c"], ["b"], ["d1", "a"], ["d1", "a b"], ["d1"]]
    for _ in range(150 if run.quick else 3000):
        log = []
        for _ in range(rng.randrange(3, 10)):
            r = rng.random()
            p = rng.choice(P)
            if r < 0.7:
                log.append(dict(op="store", p=p, v=random_value(rng)))
            elif r < 0.9:
                log.append(dict(op="pairs", p=p, items=[[n, random_value(rng, 1)] for n in rng.sample(["a", "b", "c"], 2)]))
            else:
                # parameter sets have a place of their own
                n, c = rng.randrange(1, 5), rng.randrange(1, 4)
                log.append(dict(op="frame", p=["frames", rng.choice("ab")], 
                                columns=rng.sample(["radius", "sld", "l", " h ", "ü", "10", "Radius"], c),
                                index=rng.sample(range(2 * n), n), data=[[rng.random() for _ in range(c)] for _ in range(n)]))
        jobs.append(dict(log=log, paths=rng.sample(P, 4)))
    for i in ALL:  # every kind of value over every other, once
        for j in ALL if not run.quick else rng.sample(ALL, 3):
            jobs.append(dict(log=[dict(op="store", p=["p", "x"], v=dict(t="val", id=k)) for k in (i, j)], paths=[["p", "x"]]))
    HISTORY.check(run, jobs, note="histories of writes with everything that can be loaded after each")
