"""C05 a read returns the stored pixels or raises"""
import os
import numpy as np
from sim import core, rgbe
from checks.common import *
from checks import images as I

PROP = "C05"
FAMILIES = ["ok", "torn", "fault", "stream", "torn-tail", "fault-stream",
            "bad", "ok-big", "torn-stream", "gss", "hist", "hist-b", "conc"]
FAULTS = I.FAULTS + ("short", "short")
RULE = ("single reads, reads in threads and histories of 2 to 4 reads of one process of a file "
        "replaced in between: seeded images (1..24 pixels a side, larger in one family; flat and "
        "run-length encoded, exposure, view and other header lines, several "
        "magics), read as luminance, colour or weighted channels, with or "
        "without header, by path or open stream; files torn at any byte, "
        "missing, directories or not images; readers that cannot start, fail, "
        "die or deliver too little; partial pipe transfers; non-trivial: "
        "values were compared or a tear/fault took effect; distinct by "
        "recorded history")
REAL, STUB = IO_REAL, IO_STUB
ASSUME = ["images use the standard -Y +X scan order",
          "luminance weights 0.2651 0.6701 0.0648 to 0.1 %"]
ASSUME.append("streams are open files (pvalue must be able to seek for "
              "colour)")
QUICK_S = 35


def gen(rng, fam, tier):
    if fam.startswith("hist"):
        name = rng.choice(["img.hdr", "a b.hdr"])

        def one():
            s = gen(rng, rng.choice(["ok", "ok", "ok", "ok", "stream", "torn",
                                     "fault", "bad", "gss"]), tier)
            s["name"] = name
            return s
        return dict(steps=I.gen_steps(rng, one))
    if fam == "conc":
        steps = [gen(rng, rng.choice(["ok", "ok", "gss", "stream"]), tier)
                 for _ in range(rng.choice([2, 2, 3]))]
        same = rng.random() < .4
        for k, s in enumerate(steps):
            if same:
                s["name"] = steps[0]["name"]
            s.update(conc=1, name=f"t{k}/{s['name']}", cut=None)
            s["plan"]["p"] = 0
        return dict(steps=steps, conc=True,
                    p_stay=rng.choice([.3, .6, .9]))
    p = dict(im=I.gen_image(rng, big=24), rle=rng.random() < .6,
             func=rng.choice(["array", "carray", "vlambda", "header",
                              "cheader"]),
             header=[] if rng.random() < .3 else
             rng.sample(I.HEAD, rng.randrange(0, 5)) +
             rng.choice([[], [], ["EXPOSURE=2.5"],
                         ["EXPOSURE= 1.5e-02", "EXPOSURE=8"]]),
             cap=I.gen_cap(rng) if rng.random() < .7 else 65536,
             name=rng.choice(["img.hdr", "img.hdr", "a b.hdr", "x.y/im.pic",
                              "noext", "\u00fc.hdr"]),
             plan=I.gen_plan(rng, rng.choice([1, 1, .4]) if "fault" in
                             fam else 0, FAULTS),
             cut=None, stream="stream" in fam, bad=None,
             vlt=rng.choice(["list", "tuple", "array"]),
             vl=[rng.choice([0, .265, 1, 179.5]) for _ in range(3)]
             if rng.random() < .6 else rng.choice([
                 [.265, .67, .065], [.26507413, .67011463, .06481124],
                 [.27, .67, .06], [.2126, .7152, .0722], [1 / 3] * 3,
                 [0, 0, 0], [-.5, 1, .25], [.265 * 179, .67 * 179, 11.6]]))
    if fam == "ok-big":
        p["im"]["w"] = rng.choice([127, 128, 129, 200, 300])
        p["im"]["h"] = rng.choice([1, 60, 130])
        p["cap"] = rng.choice([64, 4096, 65536])
    if "torn" in fam:
        p["cut"] = rng.choice([1, 2, 3, 4, 5, 8, 13, 40]) if \
            "tail" in fam else rng.randrange(1, 100001) / 100000
    if fam == "bad":
        p["bad"] = rng.choice(["missing", "dir", "empty", "text", "zeros",
                               "headeronly", "noformat", "binary",
                               "unreadable"])
    if fam == "gss":
        p["im"]["h"] = p["im"]["w"] = rng.choice([6, 12, 20])
        p["im"]["kind"] = "rand"
        p["func"] = "gss"
        p["plan"]["p"] = rng.choice([0, .5])
        p["cut"] = rng.choice([None, None, 3, .4])
    if p["stream"] and p["func"] in ("header", "cheader"):
        p["func"] = p["func"].replace("header", "array")
    return p


def shrink(p):
    if "steps" in p:
        yield from I.shrink_steps(p, shrink)
        return
    yield from I.shrink_common(p)
    if p["name"] != "img.hdr" and not p.get("conc"):
        yield dict(p, name="img.hdr")


def run(p, sim):
    if "steps" not in p:
        return one(p, sim)
    if p.get("conc"):
        sim.sched.p_stay = p["p_stay"]
        return run_threads(sim, [lambda s=s: one(s, sim) for s in p["steps"]])
    for s in p["steps"]:
        one(s, sim)


def one(p, sim):
    from raytools import io
    before = dict(sim.counts)
    path = os.path.join(sim.scratch, p["name"])
    I.clear(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data, want = I.write_hdr(path, p["im"], p["header"], p["rle"])
    want = want / rgbe.exposure(p["header"])
    torn = None
    if p["cut"]:
        k = p["cut"] if p["cut"] >= 1 else int(round(p["cut"] * len(data)))
        k = min(max(1, k), len(data))
        with open(path, "r+b") as f:
            f.truncate(len(data) - k)
        torn = f"the file lacks its last {k} of {len(data)} bytes"
        sim.count("torn_files")
    if p["bad"]:
        torn = f"the file is {p['bad']}"
        os.unlink(path)
        b = p["bad"]
        h, w = p["im"]["h"], p["im"]["w"]
        if b == "dir":
            os.mkdir(path)
        elif b == "unreadable":
            os.symlink(path, path)
        elif b != "missing":
            with open(path, "wb") as f:
                f.write({"empty": b"", "text": b"hello world\n" * 40,
                         "zeros": b"\0" * 500, "binary": bytes(range(256)),
                         "headeronly": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n"
                         b"\n-Y %d +X %d\n" % (h, w),
                         "noformat": b"-Y %d +X %d\n" % (h, w) +
                         b"ab\n" * (h * w * 2)}[b])
    I.stamp(path, p.get("t", 0))
    I.setup(p, sim)
    fn = p["func"]
    exc = got = head = gss = None
    stdin = None
    try:
        if p["stream"]:
            if p["bad"] in ("missing", "dir", "unreadable"):
                raise Skip("no stream to open")
            stdin = open(path, "rb")
        a = ("", stdin) if p["stream"] else (path,)
        if fn == "array":
            got = io.hdr2array(*a)
        elif fn == "carray":
            got = io.hdr2carray(*a)
        elif fn == "vlambda":
            vl = {"list": list, "tuple": tuple, "array": np.array}[
                p.get("vlt", "list")](p["vl"])
            got = io.hdr2array(*a, vlambda=vl)
            if list(vl) != p["vl"]:
                raise Violation(f"the weights were changed: {list(vl)} "
                                f"instead of {p['vl']}")
        elif fn == "header":
            got, head = io.hdr2array(path, header=True)
        elif fn == "cheader":
            got, head = io.hdr2carray(path, header=True)
        else:
            from raytools.evaluate.hvsgsm import GSS
            from raytools.mapper import ViewMapper
            gss = GSS(ViewMapper(viewangle=180))
            gss.lum = path
            got = gss.lum / gss.scale
    except (Violation, HarnessError, Skip):
        raise
    except Exception as ex:
        exc = ex
    finally:
        if stdin is not None:
            stdin.close()
    fault = I.new_faults(sim, before)
    I.quiet(sim)
    sim.nontrivial = True
    sim.event("result", type(exc).__name__, fn)
    sim.count("read." + fn)
    if exc is not None:
        if not fault and not torn:
            raise Violation("read failed although the image is intact: "
                            f"{type(exc).__name__}({exc})")
        if gss is not None and gss.lum is not None:
            raise Violation("failed read left values behind")
        return
    if torn:
        raise Violation(f"read returned values although {torn}: "
                        f"{short(np.asarray(got).shape)}")
    # a header tool that quietly stops early says nothing about the pixels
    quiet = fault == ["fault.helper.short"] and fn in ("header", "cheader")
    if quiet:
        head = None
    if fault and not quiet:
        raise Violation(f"read returned values although the reader did not "
                        f"succeed: {fault[0]}")
    xyz = rgbe.to_xy(want)
    at = 1e-37
    if fn in ("carray", "cheader"):
        exp, rt = xyz, 1e-5
    elif fn == "vlambda":
        exp, rt = np.einsum("ijk,i->jk", xyz, np.array(p["vl"])), 1e-4
        if min(p["vl"]) < 0:
            at = 1e-4 * np.einsum("ijk,i->jk", xyz, np.abs(p["vl"]))
    else:
        exp, rt = np.einsum("ijk,i->jk", xyz, rgbe.LUM), 1e-3
    got = np.asarray(got)
    if got.shape != exp.shape:
        raise Violation(f"read returned shape {got.shape}, the image is "
                        f"{exp.shape}")
    near = np.isclose(got, exp, rtol=rt, atol=at)
    if not near.all():
        bad = np.argwhere(~near)
        raise Violation(f"read returned wrong values: {len(bad)} of "
                        f"{got.size}, first {bad[0].tolist()}: "
                        f"{got[tuple(bad[0])]!r} instead of "
                        f"{exp[tuple(bad[0])]!r}")
    if head is not None:
        miss = [h for h in p["header"] if h.strip() not in
                [x.strip() for x in head]]
        if miss:
            raise Violation(f"header line lost in read: {miss[0]!r}")
