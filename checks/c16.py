"""C16 binary array files round-trip completely or the call raises"""
import io as _io
import os
import threading
import numpy as np
from sim import core, files
from checks.common import *
from checks import images as I

PROP = "C16"
FAMILIES = ["write", "file", "read", "limit", "stream", "text", "text-file",
            "threads", "file-b"]
RULE = ("seeded histories of writes and appends of arrays (7 storage types, "
        "0..4 dimensions, 0..5000 values, NaN, infinities, strided, Fortran "
        "and byte-swapped) to one or several files, full disks, failing "
        "opens, writes, reads and closes, short writes and reads, torn and "
        "overlong files, reads from files (buffered, unbuffered, from an "
        "offset), memory, pipes and streams delivering pieces, with exact, "
        "wrong and inferred shapes; text files good, unreadable, missing and "
        "wrong argument types; non-trivial: something was compared or a "
        "fault struck; distinct by case and recorded history")
REAL = ["raytools.io", "numpy", "python's io module", "file system of a "
        "scratch directory"]
STUB = ["raw files opened by the code (short transfers, errors)", "streams "
        "delivering pieces"]
ASSUME = ["the values fit the storage type", "streams end"]
QUICK_S = 25
DT = ["<f", "<f4", ">f4", "<f8", "<i4", ">i2", "u1", "<c8", "f2"]


def gen_array(rng, tier):
    nd = rng.choice([0, 1, 1, 2, 2, 3, 4])
    big = rng.choice([3, 5, 9, 40])
    return dict(shape=[rng.choice([0, 1, 2, 3, rng.randrange(1, big)])
                       if rng.random() < .95 else 0 for _ in range(nd)],
                seed=rng.randrange(1 << 30), how=rng.choice(
                    ["c", "c", "f", "stride", "swap", "neg", "f8", "list"]))


def gen(rng, fam, tier):
    base = fam.split("-")[0]
    n = rng.choice([1, 2, 3, 6])
    p = dict(dt=rng.choice(DT), n=n)
    p["writes"] = [dict(a=gen_array(rng, tier), mode=rng.choice(
        ["wb", "ab", "ab"]), f=rng.randrange(2), size=rng.choice(
            [0, 0, 0, 3000, 20000]), missing=rng.random() < .03)
        for _ in range(n)]
    p["limit"] = rng.random() if base == "limit" else None
    p["file"] = rng.choice([0, .2, .6]) if base == "file" or \
        fam == "text-file" else None
    p["reader"] = rng.choice(["buffered", "raw", "bytesio", "pieces",
                              "bufpieces", "pipe", "bytes"])
    p["tear"] = rng.choice([0, 0, 1, -1, 2, 3, 4, 8, -4, -8, 1000]) \
        if base in ("read", "stream") else 0
    p["shape"] = rng.choice(["exact", "exact", "exact", "infer", "infer0",
                             "more", "less"])
    p["offset"] = rng.choice([0, 0, 1, 5, 16])
    if base == "text":
        p["text"] = dict(kind=rng.choice(["ok", "ok", "ok", "junk", "missing",
                                          "dir", "binary", "ragged", "type",
                                          "empty"]),
                         rows=rng.choice([1, 2, 7, 300]),
                         cols=rng.choice([1, 2, 5]),
                         delim=rng.choice([None, None, ","]),
                         skip=rng.choice([0, 0, 2]),
                         arg=rng.choice(["int", "none", "list", "path",
                                         "file", "array"]),
                         seed=rng.randrange(1 << 30))
    return p


def shrink(p):
    w = p["writes"]
    for i in range(len(w)):
        if len(w) > 1:
            yield dict(p, writes=w[:i] + w[i + 1:])
    for i, x in enumerate(w):
        for k, v in (("size", 0), ("mode", "wb"), ("f", 0)):
            if x[k] != v:
                yield dict(p, writes=w[:i] + [dict(x, **{k: v})] + w[i + 1:])
        if x["a"]["how"] != "c":
            yield dict(p, writes=w[:i] + [dict(x, a=dict(x["a"], how="c"))] +
                       w[i + 1:])
        if x["a"]["shape"] != [2]:
            yield dict(p, writes=w[:i] + [dict(x, a=dict(x["a"],
                                                         shape=[2]))] +
                       w[i + 1:])
    for k, v in (("offset", 0), ("reader", "buffered"), ("dt", "<f"),
                 ("shape", "exact")):
        if p[k] != v:
            yield dict(p, **{k: v})


def make(a, dt, size=0):
    g = np.random.Generator(np.random.PCG64(a["seed"]))
    dt = np.dtype(dt)
    shape = tuple(a["shape"])
    if size:
        shape = (size,) + shape[1:2]
    if dt.kind in "iu":
        ar = g.integers(0, 120, shape)
    else:
        ar = g.normal(size=shape) * 100
        if ar.size > 3:
            ar.flat[1], ar.flat[2], ar.flat[3] = np.nan, np.inf, -0.0
        if dt.kind == "c":
            ar = ar + 1j * g.random(shape)
    ar = np.asarray(ar)
    h = a["how"]
    if h != "f8":
        ar = ar.astype(dt)
    if h == "f":
        ar = np.asfortranarray(ar)
    elif h == "swap":
        ar = ar.astype(ar.dtype.newbyteorder())
    elif h == "stride" and ar.ndim:
        b = np.zeros(ar.shape[:-1] + (2 * ar.shape[-1],), ar.dtype)
        b[..., ::2] = ar
        ar = b[..., ::2]
    elif h == "neg" and ar.ndim:
        ar = ar[::-1]
    return ar


def flatbytes(ar, dt):
    """the stored form: values in C order"""
    with np.errstate(all="ignore"):
        v = np.ascontiguousarray(ar).astype(np.dtype(dt))
    return v.tobytes()


class Pieces(_io.RawIOBase):
    """a raw stream that delivers what it likes"""

    def __init__(self, data, sim):
        self.data, self.sim = data, sim

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data))
        if n > 1:
            k = self.sim.choose(4, "piece", .2)
            n = {0: n, 1: 1, 2: min(n, 7), 3: (n + 1) // 2}[k]
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        self.sim.count("pieces")
        return n


def run(p, sim):
    from raytools import io
    if p["family"].startswith("text"):
        return text(p, sim)
    dt = np.dtype(p["dt"])
    paths = [os.path.join(sim.scratch, n) for n in ("a.bin", "b b.dat")]
    content = {0: b"", 1: b""}
    known = {0: True, 1: True}
    faults = ["file.open", "file.write", "file.close"]

    def struck():
        return [k for k in sim.counts if k.startswith("fault.")]

    def write(j, w):
        ar = make(w["a"], dt, w["size"])
        keep = ar.copy()
        f = w["f"]
        path = paths[f]
        if w["missing"]:
            path = os.path.join(sim.scratch, "no", "such")
        new = flatbytes(ar, dt)
        base = content[f] if w["mode"] == "ab" else b""
        limit = None
        if p["limit"] is not None:
            limit = int(p["limit"] * 1.3 * (len(base) + len(new)))
        full = limit is not None and limit < len(base) + len(new) and new
        n0 = len(struck())
        i0 = sim.injected
        exc = None
        if p["file"] is not None:
            sim.fault_left = 1
            files.arm(sim, faults, p["file"])
        try:
            with I.disk_limit(limit):
                io.np2bytefile(ar, path, dtype=p["dt"], mode=w["mode"])
        except (Violation, HarnessError):
            raise
        except Exception as ex:
            exc = ex
        files.disarm(sim)
        hit = sim.injected > i0
        sim.event("write", j, len(new), type(exc).__name__)
        sim.count("writes")
        sim.nontrivial = True
        if not deep_eq(np.ascontiguousarray(ar), np.ascontiguousarray(keep)):
            raise Violation("the array written was changed")
        if exc is not None:
            sim.count("writes_failed")
            if not hit and not full and not w["missing"]:
                raise Violation("write failed although nothing went wrong: "
                                f"{type(exc).__name__}({exc})")
            if not w["missing"]:
                known[f] = False
            return
        if hit:
            raise Violation(f"write returned although it was not completed: "
                            f"{struck()}")
        if w["missing"]:
            raise Violation("write returned although the directory does not "
                            "exist")
        if full:
            raise Violation(f"write returned although the disk is full after "
                            f"{limit} bytes")
        if w["mode"] == "wb" or known[f]:
            content[f] = base + new if w["mode"] == "ab" else new
            known[f] = True
            with files.REAL_OPEN(path, "rb") as fh:
                got = fh.read()
            if got != content[f]:
                raise Violation(f"wrong file content: {len(got)} bytes, "
                                f"{len(content[f])} written")

    if p["family"] == "threads":
        for w in p["writes"]:
            w["mode"], w["missing"] = "wb", False
        sim.sched.enable_preempt()
        res = {}

        def work(j, w):
            ar = make(w["a"], dt, w["size"])
            path = os.path.join(sim.scratch, f"t{j}")
            io.np2bytefile(ar, path, dtype=p["dt"])
            with open(path, "rb") as f:
                res[j] = (io.bytefile2np(f, ar.shape, p["dt"]), ar)
        th = [threading.Thread(target=work, args=x)
              for x in enumerate(p["writes"])]
        for t in th:
            t.start()
        for t in th:
            t.join()
        sim.nontrivial = True
        for j, (got, ar) in res.items():
            if got.tobytes() != flatbytes(ar, dt) or got.shape != ar.shape:
                raise Violation(f"a file written by one thread reads back "
                                f"wrong: {short(got)}")
        if len(res) != len(p["writes"]):
            raise Violation("a thread failed")
        return
    for j, w in enumerate(p["writes"]):
        write(j, w)
    for f in (0, 1):
        if not known[f] or not os.path.exists(paths[f]):
            continue
        data = content[f]
        if p["tear"]:
            t = p["tear"]
            data = data + b"\x07" * t if t > 0 else data[:t]
            with files.REAL_OPEN(paths[f], "wb") as fh:
                fh.write(data)
        off = min(p["offset"], len(data))
        read(p, sim, io, dt, paths[f], data, off, content[f])


def read(p, sim, io, dt, path, data, off, orig):
    part = data[off:]
    n = max(0, len(orig) - off) // dt.itemsize
    c = next((k for k in (3, 2, 1) if n % k == 0), 1)
    shape = {"exact": (n // c, c), "infer": (-1, c), "infer0": (-1,),
             "more": (n + 1,), "less": (max(0, n - 1),)}[p["shape"]]
    inf = -1 in shape
    unit = dt.itemsize * (c if p["shape"] == "infer" else 1)
    ok = len(part) % unit == 0 if inf else \
        len(part) == int(np.prod(shape)) * dt.itemsize
    kind = p["reader"]
    opened = []
    hits = sim.injected
    exc = got = None
    if kind == "bytes":
        call = lambda: io.bytes2np(part, shape, p["dt"])
    else:
        if kind in ("buffered", "raw"):
            if p["file"] is not None:
                sim.fault_left = 1
                files.arm(sim, ["file.read"], p["file"])
            fh = open(path, "rb", *([0] if kind == "raw" else []))
            fh.seek(off)
        elif kind == "bytesio":
            fh = _io.BytesIO(data)
            fh.seek(off)
        elif kind == "pipe":
            r, w = os.pipe()
            pid = core.fork()
            if pid == 0:
                os.close(r)
                try:
                    core.write_all(w, part)
                finally:
                    os._exit(0)
            os.close(w)
            fh = os.fdopen(r, "rb", 0)
            opened.append(pid)
        else:
            fh = Pieces(part, sim)
            if kind == "bufpieces":
                fh = _io.BufferedReader(fh, 32)
        call = lambda: io.bytefile2np(fh, shape, p["dt"])
    try:
        got = call()
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        exc = ex
    files.disarm(sim)
    hit = sim.injected > hits
    if kind != "bytes":
        fh.close()
    for pid in opened:
        os.waitpid(pid, 0)
    sim.event("read", kind, str(shape), type(exc).__name__)
    sim.count("reads." + kind)
    sim.nontrivial = True
    if exc is not None:
        if ok and not hit:
            raise Violation(f"read failed although the data fits: {kind} "
                            f"{shape} {len(part)} bytes: "
                            f"{type(exc).__name__}({exc})")
        return
    if hit:
        raise Violation("read returned although the file could not be read")
    if not ok:
        raise Violation(f"read returned an array of shape {got.shape} from "
                        f"{len(part)} bytes for shape {shape} of {dt}")
    if inf:
        shape = (len(part) // unit,) + shape[1:]
    if got.shape != tuple(shape) or got.dtype != dt or \
            got.tobytes() != part:
        raise Violation(f"wrong array read with {kind}: shape {got.shape} "
                        f"{got.dtype} instead of {shape} {dt}")


def text(p, sim):
    import pathlib
    from raytools import io
    t = p["text"]
    path = os.path.join(sim.scratch, "x y.txt")
    g = np.random.Generator(np.random.PCG64(t["seed"]))
    ar = g.normal(size=(t["rows"], t["cols"])) * 10.0 ** g.integers(
        -8, 8, (t["rows"], 1))
    kw = {}
    if t["delim"]:
        kw["delimiter"] = t["delim"]
    if t["skip"]:
        kw["skiprows"] = t["skip"]
    lines = ["head er x"] * t["skip"] + [(t["delim"] or " ").join(
        repr(float(x)) for x in r) for r in ar]
    k = t["kind"]
    if k == "junk":
        lines.insert(t["skip"] + t["rows"] // 2, "not a number")
    elif k == "ragged":
        lines.append((t["delim"] or " ").join(["1"] * (t["cols"] + 1)))
        lines.append((t["delim"] or " ").join(["1"] * t["cols"]))
    if k == "dir":
        os.mkdir(path)
    elif k == "binary":
        with open(path, "wb") as f:
            f.write(g.bytes(500) + b"\xff\xfe")
    elif k == "empty":
        with open(path, "w") as f:
            f.write("")
    elif k != "missing":
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
    arg = path
    want = {"junk": ValueError, "binary": ValueError, "ragged": ValueError,
            "missing": FileNotFoundError, "dir": FileNotFoundError,
            "type": TypeError}.get(k)
    if k == "type":
        arg = {"int": 3, "none": None, "list": [path],
               "path": pathlib.Path(path), "file": _io.StringIO("1 2"),
               "array": np.arange(3.)}[t["arg"]]
    if p["file"] is not None:
        files.arm(sim, ["file.open", "file.read"], p["file"])
    exc = got = None
    try:
        got = io.load_txt(arg, **kw)
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        exc = ex
    files.disarm(sim)
    sim.nontrivial = True
    sim.event("text", k, type(exc).__name__)
    sim.count("text." + k)
    hit = sim.injected > 0
    if exc is not None:
        if hit:
            return
        if want is None:
            raise Violation(f"text not loaded: {k}: {type(exc).__name__}"
                            f"({exc})")
        if not isinstance(exc, want):
            raise Violation(f"not the documented exception for {k}: "
                            f"{type(exc).__name__} instead of "
                            f"{want.__name__}")
        return
    if hit:
        raise Violation("text returned although the file could not be read")
    if want is not None:
        raise Violation(f"text returned {short(got)} for {k}")
    if k == "empty":
        if np.size(got):
            raise Violation(f"values from an empty file: {short(got)}")
        return
    if np.size(got) != ar.size or \
            not np.array_equal(np.reshape(got, ar.shape), ar):
        raise Violation(f"wrong text values: {short(got)}")
