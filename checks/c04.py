"""C04 a write that returns left a complete and correct image"""
import os
import numpy as np
from sim import core, rgbe
from checks.common import *
from checks import images as I
from sim import files

PROP = "C04"
FAMILIES = ["ok-lum", "ok-rgb", "fault-lum", "fault-rgb", "disk", "stdout",
            "ok-big", "fault-stdout", "file", "hist", "conc"]
RULE = ("single writes, writes in threads and histories of 2 to 4 writes of one process to the "
        "same destination: seeded arrays (1..24 pixels a side, larger in one family; luminance "
        "or colour; random, "
        "log-uniform, constant, zero, gradient, sparse, huge values; float32/"
        "64, strided, Fortran and big-endian arrays), header lists and "
        "destinations (new, existing, missing directory, directory, standard "
        "output, full device, file size limit), helpers that cannot start, "
        "fail or die before, during or after their output, failing opens, "
        "writes and closes, partial pipe and file transfers; non-trivial: an image was written and decoded or a fault "
        "took effect; distinct by recorded history")
REAL, STUB = IO_REAL, IO_STUB
ASSUME = ["RGBE precision: 1/120 of the pixel's largest channel",
          "header lines have no line breaks and are not FORMAT= lines",
          "values are finite and not negative",
          "a helper that succeeds (status 0) delivered all of its output"]
QUICK_S = 35

DT = ["f8", "f8", "f4", ">f8", "strided", "fortran", "f2"]


def gen(rng, fam, tier):
    if fam == "hist":
        d = rng.choice(["new", "new", "stdout"])

        def one():
            f = rng.choice(["ok-lum", "ok-rgb", "ok-lum", "ok-rgb", "fault",
                            "file", "disk"])
            s = gen(rng, f, tier)
            if f != "disk":
                s["dest"] = d
            elif "limit" not in s["dest"]:
                s["dest"] = "limit"
            return s
        return dict(steps=I.gen_steps(rng, one))
    if fam == "conc":
        steps = [gen(rng, rng.choice(["ok-lum", "ok-rgb"]), tier)
                 for _ in range(rng.choice([2, 2, 3]))]
        if rng.random() < .5:
            for s in steps:
                for k in ("w", "h"):
                    s["im"][k] = steps[0]["im"][k]
        for k, s in enumerate(steps):
            s.update(dest=rng.choice(["new", "new", "existing"]),
                     out=f"out{k}.hdr")
        return dict(steps=steps, conc=True,
                    p_stay=rng.choice([.3, .6, .9]))
    kind = fam.split("-")[0]
    chan = fam.split("-")[-1]
    if chan not in ("lum", "rgb"):
        chan = rng.choice(["lum", "rgb"])
    big = 24 if fam != "ok-big" else rng.choice([60, 150, 300])
    p = dict(im=I.gen_image(rng, big=big), chan=chan,
             header=None if rng.random() < .3 else
             rng.sample(I.HEAD, rng.randrange(0, 5)),
             clean=rng.random() < .25, dt=rng.choice(DT),
             func=rng.choice(["array2hdr", "array2hdr", "carray2hdr"]),
             dest=rng.choice(["new", "new", "existing", "sub/dir.a/x"]),
             cap=I.gen_cap(rng) if rng.random() < .7 else 65536,
             plan=I.gen_plan(rng, .6 if kind == "fault" else 0), limit=None)
    if p["im"]["kind"] == "huge" and p["dt"] == "f2":
        p["dt"] = "f4"
    if big > 24:
        p["im"]["w"] = rng.choice([big, big - 1, 8, 3])
        p["im"]["h"] = rng.choice([big, big // 2, 1])
        p["cap"] = rng.choice([64, 4096, 65536])
    if "stdout" in fam:
        p["dest"] = "stdout"
    if kind == "file":
        p["file"] = rng.choice([0, .3, .8])
        p["dest"] = rng.choice(["new", "existing", "stdout"])
    if kind == "disk":
        p["dest"] = rng.choice(["missing/x.hdr", "dir", "full", "limit",
                                "limit", "limit", "stdout-full",
                                "stdout-limit", "existing-limit"])
        p["limit"] = rng.randrange(1000) / 1000
    if p["header"] is not None and rng.random() < .4:
        h = [p["header"], I.nest(rng)]
        rng.shuffle(h)
        p["header"] = h[0] + h[1]
    return p


def shrink(p):
    if "steps" in p:
        yield from I.shrink_steps(p, shrink)
        return
    yield from I.shrink_common(p)
    for k, v in (("dt", "f8"), ("clean", False), ("header", None)):
        if p[k] != v:
            yield dict(p, **{k: v})


def array(p):
    rgb = I.make_rgb(p["im"], gray=p["chan"] == "lum")
    ar = rgbe.to_xy(rgb)
    if p["chan"] == "lum":
        ar = ar[0]
    dt = p["dt"]
    if dt == "strided":
        b = np.zeros(tuple(2 * s for s in ar.shape))
        sl = (slice(None, None, 2),) * ar.ndim
        b[sl] = ar
        ar = b[sl]
    elif dt == "fortran":
        ar = np.asfortranarray(ar)
    else:
        if dt == "f2":
            ar = np.minimum(ar, 6e4)
        ar = np.ascontiguousarray(ar).astype(dt)
    return ar


def run(p, sim):
    if "steps" not in p:
        return one(p, sim)
    if p.get("conc"):
        sim.sched.p_stay = p["p_stay"]
        return run_threads(sim, [lambda s=s: one(s, sim) for s in p["steps"]])
    for s in p["steps"]:
        stdout_bytes(reset=True)
        one(s, sim)
        I.stamp(os.path.join(sim.scratch, "out.hdr"), s["t"])


def one(p, sim):
    from raytools import io
    I.setup(p, sim)
    before = dict(sim.counts)
    ar = array(p)
    f = io.array2hdr if p["chan"] == "lum" else getattr(io, p["func"])
    # what the file must show
    a3 = np.broadcast_to(ar.astype("f4").astype("f8"),
                         (3,) + ar.shape[-2:])
    want = np.transpose(a3, (2, 1, 0))[::-1]
    header = None if p["header"] is None else list(p["header"])
    hcopy = None if header is None else list(header)
    acopy = ar.copy()
    dest = p["dest"]
    old = b"old content " * 3000
    limit = None
    must_fail = None
    imgf = os.path.join(sim.scratch, p.get("out", "out.hdr"))
    if "limit" in dest:
        size = len(rgbe.encode(want.copy(), [str(x) for x in header or ()])[0])
        limit = int(p["limit"] * size * .5)
        must_fail = f"files can hold only {limit} of about {size} bytes"
    if dest.startswith("existing"):
        with open(imgf, "wb") as fh:
            fh.write(old)
    elif dest == "sub/dir.a/x":
        imgf = os.path.join(sim.scratch, dest)
        os.makedirs(os.path.dirname(imgf))
    elif dest == "missing/x.hdr":
        imgf = os.path.join(sim.scratch, dest)
        must_fail = "the directory does not exist"
    elif dest == "dir":
        imgf = sim.scratch
        must_fail = "the destination is a directory"
    elif dest == "full":
        imgf = "/dev/full"
        must_fail = "the device is full"
    elif dest.startswith("stdout"):
        imgf = None
    saved = None
    if dest == "stdout-full":
        must_fail = "standard output is full"
        saved = os.dup(1)
        fd = os.open("/dev/full", os.O_WRONLY)
        os.dup2(fd, 1)
        os.close(fd)
    exc = ret = None
    if "file" in p:
        files.arm(sim, ["file.open", "file.write", "file.close"], p["file"])
    try:
        with I.disk_limit(limit):
            ret = f(ar, imgf, header, clean=p["clean"])
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        exc = ex
    finally:
        if saved is not None:
            os.dup2(saved, 1)
            os.close(saved)
    files.disarm(sim)
    sim.event("result", type(exc).__name__, str(p["dest"]))
    fault = I.new_faults(sim, before)
    I.quiet(sim)
    sim.nontrivial = True
    sim.count("dest." + dest.split("/")[0])
    if exc is not None:
        if not fault and not must_fail:
            raise Violation("write failed although nothing went wrong: "
                            f"{type(exc).__name__}({exc})")
    else:
        if fault:
            raise Violation(f"write returned although a helper did not "
                            f"succeed: {fault[0]}")
        if must_fail:
            raise Violation(f"write returned although {must_fail}")
        if ret != imgf:
            raise Violation(f"returned {ret!r} instead of the path")
        what = "image written to " + ("standard output" if imgf is None
                                      else "a file")
        if imgf is None:
            lines, got = I.decode(stdout_bytes(), what)
        else:
            lines, got = I.decode_file(imgf, what)
        if rgbe.exposure(lines) != 1:
            raise Violation(f"{what}: has an exposure {lines}")
        I.pixel_err(got, want, what)
        if header:
            if p["clean"]:
                text = "".join(l.strip() for l in lines)
                view = [h for h in header if h.startswith("VIEW=")][-1:]
                miss = [h for h in header if "=" in h and
                        not h.startswith(("VIEW=", "long=")) and
                        h.strip() not in text] + \
                    [h for h in view if h not in lines]
            else:
                miss = [h for h in header if h not in lines]
            if miss:
                raise Violation(f"{what}: header line lost: {miss[0]!r}")
    if header != hcopy or not deep_eq(np.ascontiguousarray(ar),
                                      np.ascontiguousarray(acopy)):
        raise Violation("the arguments of the write were changed")
