"""C15 jittered samples stay in their own cell for every random stream"""
import numpy as np
from sim import core, rand
from checks.common import *

PROP = "C15"
FAMILIES = ["pixels", "idx", "roundtrip", "threads", "rays", "independent",
            "hist"]
RULE = ("a jittered pixel grid, index-to-coordinate conversion or pixel ray "
        "grid of a Mapper, ViewMapper (any angle), SolidViewMapper or "
        "PerspectiveViewMapper under an adversarial or seeded random stream "
        "(all zeros, all ones, ends, mid, repeated runs, extremes mixed in, "
        "seeded), any jitter rate, shape, index order with repeats, alone, in "
        "a history of calls, or from several threads sharing the mapper with "
        "line-level preemption; non-trivial: at least one sample; distinct by "
        "recorded history")
REAL = ["raytools.mapper, raytools.translate", "numpy.random.Generator and "
        "RandomState methods", "threading"]
STUB = ["the bit generators below numpy's Generator / RandomState", "lock, "
        "thread start"]
ASSUME = ["a coordinate within floating point rounding (1e-9 of a cell) of a "
          "cell boundary counts as inside", "indices are one dimensional; "
          "coordinates of angular mappers are in units of the second side of "
          "the grid (so their inverse uses that square grid)"]
QUICK_S = 30
PLANS = ["seeded", "seeded", "seeded", "zero", "max", "ends", "mid", "run",
         "sparse"]
EPS = 1e-9


def gen_map(rng):
    k = rng.choice(["view", "view", "view360", "mapper", "mapper", "solid",
                    "persp"])
    d = [rng.uniform(-1, 1) for _ in range(3)]
    if rng.random() < .4:
        d = rng.choice([[0, 1, 0], [0, 0, 1], [0, 0, -1], [1, 0, 0]])
    return dict(k=k, d=d, va=rng.choice([180, 90, 45, 10, 170, 179.5]),
                rate=gen_rate(rng), w=rng.choice([1, 1, 2, 3.5, .5]),
                h=rng.choice([1, 1, 2, .7]))


def gen_rate(rng):
    return rng.choice([1.0, 1.0, .5, .5, .9, .1, 1e-3, 0, 0,
                       round(rng.random(), 3)])


def gen_call(rng, fam):
    b = fam
    if fam in ("threads", "hist"):
        b = rng.choice(["pixels", "idx", "idx", "rays", "roundtrip"])
    s = [rng.choice([1, 2, 3, 4, 7, 16, 30]) for _ in range(2)]
    if b == "independent":
        s = [rng.choice([20, 24, 31]), rng.choice([20, 24, 37])]
    c = dict(c=b, shape=s, n=rng.choice([1, 2, 5, 17, 60]),
             order=rng.choice(["asc", "all", "rand", "desc", "rep", "scalar"]),
             res=rng.choice([1, 2, 3, 5, 8, 13, 20]), rate=gen_rate(rng),
             jitter=rng.choice([True, True, True, True, False, 1, 0]),
             seed=rng.randrange(1 << 30), plan=rng.choice(PLANS),
             t=rng.randrange(3))
    if b == "independent":
        c.update(order="all", jitter=True, plan="seeded",
                 rate=rng.choice([1., .5, .9]), res=rng.choice([20, 25]),
                 how=rng.choice(["idx", "pixels", "rays"]))
    return c


def gen(rng, fam, tier):
    n = {"threads": rng.choice([2, 3, 6]), "hist": rng.choice([2, 4, 8])}.get(
        fam, 1)
    m = gen_map(rng)
    if fam == "independent":
        m["rate"] = rng.choice([1., .5, .9])
    return dict(map=m, calls=[gen_call(rng, fam) for _ in range(n)],
                plan=rng.choice(PLANS), p_stay=rng.choice([.2, .5, .8]))


def shrink(p):
    s = p["calls"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, calls=s[:i] + s[i + 1:])
    for i, x in enumerate(s):
        for k, v in (("shape", [2, 2]), ("shape", [2, 3]), ("res", 2),
                     ("order", "asc"), ("n", 1), ("n", 2)):
            if x[k] != v and x["c"] != "independent":
                yield dict(p, calls=s[:i] + [dict(x, **{k: v})] + s[i + 1:])
    for k in ("zero", "max", "seeded"):
        if p["plan"] != k:
            yield dict(p, plan=k)


def make(m):
    from raytools.mapper.mapper import Mapper
    from raytools.mapper.viewmapper import ViewMapper
    from raytools.mapper.solidviewmapper import SolidViewMapper
    from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper
    k, kw = m["k"], dict(jitterrate=m["rate"])
    if k == "view":
        return ViewMapper(m["d"], m["va"], **kw)
    if k == "view360":
        return ViewMapper(m["d"], 360, **kw)
    if k == "solid":
        return SolidViewMapper(m["d"], m["va"], **kw)
    if k == "persp":
        return PerspectiveViewMapper(m["d"], min(m["va"], 170),
                                     min(m["va"], 90), **kw)
    return Mapper(m["d"], sf=(m["w"], m["h"]), bbox=((0, 0),
                                                    (m["w"], m["h"])), **kw)


def indices(c, shape):
    size = shape[0] * shape[1]
    r = np.random.Generator(np.random.PCG64(c["seed"]))
    n = min(c["n"], 400)
    o = c["order"]
    if o == "scalar":
        return np.int64(r.integers(size))
    if o == "all":
        return np.arange(size)
    if o == "asc":
        return np.arange(min(n, size))
    if o == "desc":
        return np.arange(size)[::-1][:n].copy()
    if o == "rep":
        return np.full(n, r.integers(size))
    return r.integers(size, size=n)


def in_cell(what, cell, coord, rate):
    """coord (N, 2) in units of cells must be within the cells (N, 2)"""
    off = coord - cell
    lo, hi = (1 - rate) / 2, (1 + rate) / 2
    tol = EPS + 4e-16 * np.abs(cell)
    bad = ~((off >= lo - tol) & (off <= hi + tol))
    if bad.any():
        i = np.argwhere(bad)[0][0]
        raise Violation(f"{what}: sample {i} is at {off[i].tolist()} of its "
                        f"cell {cell[i].tolist()}, outside {lo:g}..{hi:g}")
    return off


def sample(mp, m, c):
    """-> (cells (N,2), coordinates in cells (N,2), rate) of one call"""
    k = c["c"]
    how = c.get("how") or k
    shape = tuple(c["shape"])
    if how == "idx":
        if m["k"] in ("view", "solid", "persp", "view360"):
            div = np.array([shape[1], shape[1]])
        else:
            div = np.array(shape)
        idx = indices(c, shape)
        keep = np.copy(idx)
        uv = mp.idx2uv(idx, shape, jitter=c["jitter"])
        rate = m["rate"] if c["jitter"] else 0
        ij = np.stack(np.unravel_index(keep, shape)).T
        want = np.shape(keep) + (2,)
        if uv.shape != want:
            raise Violation(f"idx2uv: result shape {uv.shape} instead of "
                            f"{want}")
        uv = np.asarray(uv).reshape(-1, 2)
        cells = ij.reshape(-1, 2)
        off = in_cell("idx2uv", cells, uv * div, rate)
        inner = (np.abs(off - .5) < .5 - 1e-6).all(-1)
        back = mp.uv2idx(uv[inner], tuple(int(x) for x in div))
        flat = np.atleast_1d(keep)[inner]
        if back.shape != flat.shape or (back != flat).any():
            j = np.argwhere(back != flat)
            raise Violation(f"idx2uv then uv2idx: index {flat[j[0][0]]} comes "
                            f"back as {back[j[0][0]]} on a grid {shape}")
        if rate == 0 and (np.abs(off - .5) > EPS).any():
            raise Violation("idx2uv without jitter is not the cell centre")
        return off, rate
    res = c["res"]
    rate = c["rate"]
    if 0 in mp.framesize(res):
        return np.zeros((0, 2)), 0
    if how == "pixels":
        pxy = mp.pixels(res, jitter=rate)
    elif how == "roundtrip":
        rate = min(rate, .99)
        pxy = mp.pixels(res, jitter=rate)
    elif how == "rays":
        return rays(mp, m, c)
    xres, yres = mp.framesize(res)
    if pxy.shape != (xres, yres, 2):
        raise Violation(f"pixels: shape {pxy.shape} instead of "
                        f"{(xres, yres, 2)}")
    cells = np.stack(np.mgrid[0:xres, 0:yres], 2).reshape(-1, 2)
    off = in_cell("pixels", cells, pxy.reshape(-1, 2), rate)
    if how == "roundtrip" and m["k"] not in ("mapper", "view360"):
        flat = pxy.reshape(-1, 2)
        ray = mp.pixel2ray(flat, res)
        rad = np.sqrt(np.sum((flat / res - .5) ** 2, -1))
        ok = rad < .49
        if ok.any():
            if m["k"] in ("solid", "persp"):
                got = mp.ray2pixel(ray[ok], res)
            else:
                got = mp.ray2pixel(ray[ok], res)
            if (got != cells[ok]).any():
                j = np.argwhere((got != cells[ok]).any(-1))[0][0]
                raise Violation(f"pixel {cells[ok][j].tolist()} jittered to "
                                f"{flat[ok][j].tolist()} comes back as "
                                f"{got[j].tolist()}")
    return off, rate


def rays(mp, m, c):
    """pixel rays: only through the public inverse of each class"""
    res, rate = c["res"], c["rate"]
    xres, yres = mp.framesize(res)
    if m["k"] == "mapper":
        r = mp.pixelrays(res, jitter=rate).reshape(-1, 3)
        cen = mp.pixel2ray((np.stack(np.mgrid[0:xres, 0:yres], 2) + .5)
                           .reshape(-1, 2), res)
        step = np.array([m["w"] / xres, m["h"] / yres])
        d = (r - cen)[:, 0:2] / step
        off = in_cell("pixelrays", np.zeros_like(d), d + .5, rate)
        return off, rate
    if m["k"] == "view":
        rate = min(rate, .98)
        r = mp.solid_pixelrays(res, jitter=rate).reshape(-1, 3)
        pxy = mp.solid_ray2pixel(r, res, integer=False)
        cells = np.stack(np.mgrid[0:res, 0:res], 2).reshape(-1, 2)
        rad = np.sqrt(np.sum((cells + .5 - res / 2) ** 2, -1)) / res
        ok = rad < .5 - .8 / res
        if ok.any():
            o = pxy[ok] - cells[ok]
            if (np.abs(o - .5) > rate / 2 + 1e-4).any():
                raise Violation(f"solid_pixelrays: ray outside of its pixel, "
                                f"{np.abs(o - .5).max()}")
        return np.zeros((0, 2)), rate
    r = mp.pixelrays(res)
    return np.zeros((0, 2)), 0


def independent(off, rate, what):
    if rate <= 0 or len(off) < 300:
        return
    a, b = off.T
    if (a == b).all() or np.allclose(a, b, atol=1e-7):
        raise Violation(f"{what}: both coordinates get the same jitter")
    sa, sb = a.std(), b.std()
    full = rate / np.sqrt(12)
    if not (sa > .5 * full and sb > .5 * full):
        raise Violation(f"{what}: a coordinate is not jittered over the given "
                        f"fraction: spread {sa:.3g}, {sb:.3g} instead of "
                        f"{full:.3g}")
    r = np.corrcoef(a, b)[0, 1]
    if not abs(r) < .5:
        raise Violation(f"{what}: the jitter of the two coordinates is "
                        f"correlated ({r:.2f})")


def run(p, sim):
    m = p["map"]
    sim.sched.p_stay = p["p_stay"]
    mp = make(m)
    fam = p["family"]
    sim.nontrivial = True
    for c in p["calls"]:
        sim.event(c["c"], c.get("how"), c["plan"] if fam == "hist" else
                  p["plan"])
    sim.event(m)

    def one(c):
        off, rate = sample(mp, m, c)
        sim.count("samples", len(off))
        if len(off):
            sim.event("off", np.round(off[:4], 6).tolist())
        if c["c"] == "independent":
            independent(off, rate, c["how"])

    if fam != "threads":
        for c in p["calls"]:
            plan = c["plan"] if fam in ("hist", "independent") else p["plan"]
            tok = rand.arm(sim, plan, c["seed"])
            try:
                one(c)
            finally:
                rand.disarm(sim, tok)
        return

    def thread(t):
        for c in p["calls"]:
            if c["t"] == t:
                one(c)
    tok = rand.arm(sim, p["plan"], p["calls"][0]["seed"])
    run_threads(sim, [lambda t=t: thread(t) for t in range(3)])
    rand.disarm(sim, tok)
