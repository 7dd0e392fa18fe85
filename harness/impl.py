"""Access to the code under test: everything that touches the mcsas3 package goes through here."""

import contextlib
import io
import logging
import math
import multiprocessing
import os
import signal
import sys
import warnings
from pathlib import Path

os.environ.setdefault("SAS_OPENCL", "none")
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
from kit import REPO  # noqa: E402

sys.path.insert(0, str(REPO / "src"))

import h5py  # noqa: E402,F401
import numpy as np  # noqa: E402
import pandas  # noqa: E402,F401

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
np.seterr(all="ignore")


class Hang(BaseException):
    """the code under test did not come back in time (not an Exception: nothing may swallow it)"""


class OutOfDraws(BaseException):
    """the code under test asked for more random numbers than the script has"""


_hangs = multiprocessing.Value("i", 0)  # seen in this process and its children


@contextlib.contextmanager
def guarded(seconds=20, quiet=True):
    """runs code under test: no output, no endless loops"""

    def alarm(*_):
        with _hangs.get_lock():
            _hangs.value += 1
        raise Hang()

    if _hangs.value >= 6:  # it hangs, there is no need to see it for long each time
        seconds = min(seconds, 8 if _hangs.value < 30 else 3)
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    so, se = sys.stdout, sys.stderr
    if quiet:
        sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sys.stdout, sys.stderr = so, se


class ScriptedGenerator(np.random.Generator):
    """A random generator giving the draws of a script: draw k of 0..D-1 is the fraction k/D."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, draws, D):
        super().__init__(np.random.PCG64(0))
        self.draws, self.D, self.pos, self.log = list(draws), D, 0, []

    def _next(self, low, high):
        if self.pos >= len(self.draws):
            raise OutOfDraws()
        k = self.draws[self.pos]
        self.pos += 1
        v = low + (high - low) * (k / self.D)
        self.log.append((float(low), float(high), k, float(v)))
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape
            if not size:
                return self._next(low, high)
        n = int(np.prod(size))
        lo = np.broadcast_to(low, size).ravel()
        hi = np.broadcast_to(high, size).ravel()
        return np.array([self._next(lo[i], hi[i]) for i in range(n)]).reshape(size)

    def random(self, size=None, *a, **k):
        return self.uniform(0.0, 1.0, size)


@contextlib.contextmanager
def scripted_random(gen):
    """every generator made meanwhile is the scripted one, whatever its seed and however it is made"""

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real)

        def __call__(cls, *a, **k):
            return gen

    real, make = np.random.Generator, np.random.default_rng
    fake = Meta("Generator", (), {})
    own = lambda seed=None: gen
    changed = []
    for name, mod in list(sys.modules.items()):
        if name == "numpy.random" or name.split(".")[0] == "mcsas3":
            for key, value in list(vars(mod).items()):
                if value is real or value is make:
                    changed.append((mod, key, value))
                    setattr(mod, key, fake if value is real else own)
    try:
        yield gen
    finally:
        for mod, key, value in changed:
            setattr(mod, key, value)


NOINT = -999983  # marks something that is not the (representable) integer it should be


def as_int(x):
    try:
        f = float(x)
    except (TypeError, ValueError):
        return NOINT
    if math.isnan(f):
        return -1
    r = round(f) if abs(f) < 2**30 else None
    return r if r is not None and abs(f - r) <= 1e-9 * max(1.0, abs(f)) else NOINT


def as_ints(v):
    try:
        return [as_int(x) for x in np.asarray(v, dtype=object).ravel()]
    except Exception:
        return [NOINT]
