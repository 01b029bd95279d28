"""Seam: the random stream.

Every numpy bit generator made from here on (np.random.default_rng, the bit
generator classes, and the legacy np.random functions) asks the simulator for
its bits while a stream is armed, and its own state otherwise.  The methods of
Generator / RandomState that turn bits into numbers are numpy's own.
"""
import ctypes
import random

import numpy as np

from sim import core


class Bitgen(ctypes.Structure):
    _fields_ = [("state", ctypes.c_void_p), ("u64", ctypes.c_void_p),
                ("u32", ctypes.c_void_p), ("dbl", ctypes.c_void_p),
                ("raw", ctypes.c_void_p)]


U64 = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)
U32 = ctypes.CFUNCTYPE(ctypes.c_uint32, ctypes.c_void_p)
DBL = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
KEEP = []
STREAM = None


class Stream:
    """plan: seeded | zero | max | ends | mid | run | sparse"""

    def __init__(self, plan, seed):
        self.plan, self.n = plan, 0
        self.r = random.Random(f"{seed}|rand")
        self.cur, self.left = 0, 0

    def u64(self):
        self.n += 1
        p = self.plan
        if p == "zero":
            return 0
        if p == "max":
            return (1 << 64) - 1
        if p == "mid":
            return 1 << 63
        v = self.r.getrandbits(64)
        if p == "ends":
            return (0, (1 << 64) - 1)[v & 1]
        if p == "sparse" and v % 5 == 0:
            return (0, (1 << 64) - 1, 1 << 63, 1 << 11)[v >> 20 & 3]
        if p == "run":              # the same value many times in a row
            if not self.left:
                self.cur, self.left = v, 1 + v % 7
            self.left -= 1
            return self.cur
        return v


def _wrap(bg):
    pc = ctypes.pythonapi.PyCapsule_GetPointer
    pc.restype, pc.argtypes = ctypes.c_void_p, [ctypes.py_object,
                                                ctypes.c_char_p]
    b = Bitgen.from_address(pc(bg.capsule, b"BitGenerator"))
    o64, o32, od, oraw = U64(b.u64), U32(b.u32), DBL(b.dbl), U64(b.raw)

    def n64(st):
        return STREAM.u64() if STREAM is not None else o64(st)

    def n32(st):
        return STREAM.u64() >> 32 if STREAM is not None else o32(st)

    def nd(st):
        return (STREAM.u64() >> 11) * 2.0 ** -53 if STREAM is not None \
            else od(st)

    def nr(st):
        return STREAM.u64() if STREAM is not None else oraw(st)
    cbs = (U64(n64), U32(n32), DBL(nd), U64(nr))
    KEEP.append((bg, cbs, o64, o32, od, oraw))
    b.u64, b.u32, b.dbl, b.raw = [ctypes.cast(c, ctypes.c_void_p).value
                                  for c in cbs]
    return bg


real_rng = np.random.default_rng
LEGACY = ["rand", "randn", "random", "random_sample", "ranf", "sample",
          "uniform", "randint", "normal", "standard_normal", "choice",
          "shuffle", "permutation", "triangular", "beta", "bytes"]


def sim_default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    bg = seed if isinstance(seed, np.random.BitGenerator) else \
        np.random.PCG64(seed)
    return np.random.Generator(_wrap(bg))


class SimRandomState(np.random.RandomState):
    pass


def install():
    np.random.default_rng = sim_default_rng


def arm(sim, plan, seed):
    """deliver the planned stream to every generator made by install()ed
    factories, to the legacy functions and to the random module"""
    global STREAM
    STREAM = Stream(plan, seed)
    rs = np.random.RandomState(_wrap(np.random.MT19937(1)))
    saved = {}
    for k in LEGACY:
        if hasattr(np.random, k) and hasattr(rs, k):
            saved[k] = getattr(np.random, k)
            setattr(np.random, k, getattr(rs, k))
    saved["RandomState"] = np.random.RandomState
    np.random.RandomState = lambda seed=None: rs
    st = STREAM
    rr = random.random
    random.random = lambda: (st.u64() >> 11) * 2.0 ** -53
    ru = random.uniform
    random.uniform = lambda a, b: a + (b - a) * random.random()
    sim.count("streams")
    return saved, rr, ru


def disarm(sim, tok):
    global STREAM
    saved, random.random, random.uniform = tok
    for k, v in saved.items():
        setattr(np.random, k, v)
    n = STREAM.n
    sim.count("draws", n)
    STREAM = None
    return n
