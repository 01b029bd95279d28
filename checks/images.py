"""seeded images, files, headers, disk and helper faults"""
import contextlib
import os
import resource
import signal

import numpy as np

from sim import core, rgbe
from sim.core import Violation, HarnessError

START = ("missing", "eagain", "emfile", "enomem")
DIE = ("kill", "fail", "latefail", "latekill")
FAULTS = START + DIE + ("noread", "readkill")

HEAD = ["VIEW= -vta -vv 180 -vh 180", "VIEW= -vta -vp 1 2 3 -vd 0 1 0 -vu 0 0 1"
        " -vh 90 -vv 90 -vo 0 -va 0 -vs 0 -vl 0", "SOFTWARE= RADIANCE 5.4a 2020-09-06 LBNL (5.4.e147df6ada)",
        "EXTRA=1", "a plain line", "made by RADIANCE tools", "key with spaces=a b c", "K\u00e4se=\u00fc",
        "CAPDATE= 2020:01:01 10:00:00", "long=" + "v" * 300,
        "\tindented=1", "pfilt -x 100 -y 100", "x=", "50% of = it", "normtiff",
        "PRIMARIES= .64 .33 .29 .60 .15 .06 .3333 .3333"]


def nest(rng):
    """header lines as the tools write them when an image is made of others:
    blocks of indented lines, some of them in several blocks"""
    out, used, k, d = [], [], 0, 0
    for i in range(rng.randrange(1, 5)):
        out.append("\t" * d + rng.choice("abc") + f"{i}.hdr:")
        for _ in range(rng.randrange(0, 4)):
            old = [x for x in used if not out[-1].endswith(x)]
            if old and rng.random() < .4:
                e = rng.choice(old)
            else:
                k += 1
                e = f"N{k}= n{k}"
                used.append(e)
            out.append("\t" * (d + 1) + e)
        d = rng.choice([0, d, d, d + 1])
    return out


def gen_size(rng, square=False, big=24):
    s = lambda: rng.choice([1, 2, 3, 5, 7, 8, 9, 13, 16, big, rng.randrange(
        1, big)])
    w = s()
    return (w, w) if square else (w, s())


def gen_image(rng, square=False, big=24, kinds=None):
    w, h = gen_size(rng, square, big)
    return dict(w=w, h=h, seed=rng.randrange(1 << 30),
                kind=rng.choice(kinds or ["rand", "rand", "log", "const",
                                          "zero", "grad", "sparse", "huge",
                                          "bytes"]))


def make_rgb(im, gray=False):
    """(H, W, 3) float64, row 0 is the top of the image"""
    g = np.random.Generator(np.random.PCG64(im["seed"]))
    h, w = im["h"], im["w"]
    k = im["kind"]
    n = (h, w, 1 if gray else 3)
    if k == "rand":
        a = g.random(n)
    elif k == "log":
        a = 10 ** g.uniform(-6, 6, n)
    elif k == "const":
        a = np.full(n, g.uniform(.1, 50))
    elif k == "zero":
        a = np.zeros(n)
    elif k == "grad":
        a = (np.arange(h)[:, None, None] * 1.0 + np.arange(w)[None, :, None] *
             100 + np.arange(n[2]) * .3) + .05
    elif k == "sparse":
        a = np.where(g.random(n) < .2, g.random(n) * 1e4, 0)
    elif k == "bytes":
        # floats whose last byte (sign and exponent) reads as a text separator
        b = g.choice([0x20, 0x20, 0x0d, 0x0c, 0x0b, 0x3a, 0x3d, 0x3f], n)
        a = 2. ** (2 * b.astype(int) - 127 + g.integers(0, 2, n)) * \
            g.uniform(1, 2, n)
        if g.random() < .6:
            a[:] = np.broadcast_to(a[..., :1], n)
    elif k == "glare":
        a = g.random(n) * 3 + .5
        for _ in range(3):
            y, x = g.integers(0, h), g.integers(0, w)
            a[y:y + 2, x:x + 2] = g.uniform(50, 3000)
    else:
        a = g.random(n) * 1e9
    return np.broadcast_to(a, (h, w, 3)).copy()


def write_hdr(path, im, header=(), rle=True, magic=b"#?RADIANCE\n"):
    """write an image file, return its pixel values (H, W, 3)"""
    data, px = rgbe.encode(make_rgb(im), header, rle, magic=magic)
    with open(path, "wb") as f:
        f.write(data)
    return data, rgbe.values(px)


@contextlib.contextmanager
def disk_limit(n):
    """no file can grow beyond n bytes"""
    if n is None:
        yield
        return
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)


def gen_plan(rng, p=.5, faults=FAULTS, env=True):
    """helper process behaviour of a case"""
    return dict(faults=list(faults), p=p,
                flood=env and rng.random() < .3,
                stall=env and rng.random() < .3)


def gen_cap(rng):
    return rng.choice([1, 2, 7, 64, 512, 4096, 65536])


def clear(path):
    """remove whatever an earlier step left at path"""
    import shutil
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.unlink(path)


def stamp(path, t):
    """give a file a drawn modification time (same tick, same second, later)"""
    if os.path.isfile(path):
        t = 10 ** 18 + t
        os.utime(path, ns=(t, t))


SMALL = ("gss", "imgmetric")


def gen_steps(rng, gen, n=None, same=("w", "h", "kind")):
    """a history of 2 to 4 cases on one path, in some of which the image keeps
    its size"""
    steps = [gen() for _ in range(n or rng.choice([2, 2, 3, 4]))]
    t = 0
    keep = rng.random() < .6
    if any(s.get("func") in SMALL for s in steps):
        w = rng.choice([4, 6, 7, 12])
        for s in steps:
            s["im"].update(w=w, h=w, kind="rand")
    for i, s in enumerate(steps):
        if i and keep:
            for k in same:
                s["im"][k] = steps[0]["im"][k]
            if rng.random() < .7:
                s["header"] = steps[0]["header"]
                if "view" in s:
                    s["view"] = steps[0]["view"]
        if i and rng.random() < .2:
            s["im"] = dict(steps[rng.randrange(i)]["im"])
        t += rng.choice([0, 0, 1000, 10 ** 6, 10 ** 9])
        s["t"] = t
    return steps


def shrink_steps(p, shrink):
    st = p["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield dict(p, steps=st[:i] + st[i + 1:])
    for i in range(len(st)):
        for v in shrink(st[i]):
            yield dict(p, steps=st[:i] + [v] + st[i + 1:])


def new_faults(sim, before):
    return [k for k in sim.counts if k.startswith("fault.") and
            sim.counts[k] > before.get(k, 0)]


def setup(p, sim):
    sim.opts["pipe_cap"] = p.get("cap", 65536)
    sim.popen_plan = p.get("plan")
    sim.fault_left = p.get("nfault", 1)


def quiet(sim):
    sim.popen_plan = None


def shrink_common(p):
    for k, v in (("cap", 65536), ("header", []), ("rle", True)):
        if k in p and p[k] != v:
            yield dict(p, **{k: v})
    if p.get("plan"):
        for k in ("flood", "stall"):
            if p["plan"].get(k):
                yield dict(p, plan=dict(p["plan"], **{k: False}))
    im = p.get("im")
    if im:
        a, b = im["w"], im["h"]
        # (a square image stays square, some calls need it)
        for w, h in ((2, 2), (a // 2, b // 2), (a - 1, b - 1)) if a == b else \
                ((3, 2), (a // 2, b), (a, b // 2), (a - 1, b), (a, b - 1)):
            if w > 0 and h > 0 and w <= im["w"] and h <= im["h"] and \
                    (w, h) != (im["w"], im["h"]):
                yield dict(p, im=dict(im, w=w, h=h))
        if im["kind"] != "rand":
            yield dict(p, im=dict(im, kind="rand"))


def pixel_err(got, want, what):
    """got and want (H, W, 3): raise if they differ beyond RGBE precision"""
    if got.shape != want.shape:
        raise Violation(f"{what}: wrong size {got.shape[1::-1]} instead of "
                        f"{want.shape[1::-1]}")
    m = want.max(-1, keepdims=True)
    tol = m / 120.0 + 1e-30
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        y, x, c = np.argwhere(bad)[0]
        raise Violation(f"{what}: {int(bad.any(-1).sum())} of {m.size} pixels "
                        f"wrong, first at row {y} column {x} channel {c}: "
                        f"{got[y, x, c]!r} instead of {want[y, x, c]!r}")


def decode_file(path, what):
    with open(path, "rb") as f:
        data = f.read()
    return decode(data, what)


def decode(data, what):
    try:
        return rgbe.decode(data)
    except rgbe.BadImage as ex:
        raise Violation(f"{what}: not a complete image: {ex} "
                        f"({len(data)} bytes)")
