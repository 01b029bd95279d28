"""C25 image commands as filters: the complete image or a failing status"""
import os
import sys
import numpy as np
from sim import core, files, rgbe
from sim.fresh import Fresh, draw, fault
from checks.common import *
from checks import images as I
from checks import ops as O
from checks import c13, c14

PROP = "C25"
FAMILIES = ["file", "stdin", "chain", "torn", "fault", "sink", "chain-fault",
            "call", "clean", "chain-b", "io", "torn-b", "sink-b", "smooth",
            "smooth-fault", "fault-b",
            "fault-c"]
RULE = ("seeded smoothing of tables, and chains of one to three image commands (project, align, "
        "solid2ang, cleanheader with seeded options), the first reading an "
        "image file, a redirected file or a pipe, each next one what the one "
        "before left on standard output; input torn at any byte, helpers and "
        "file operations that fail, memory running out or an interrupt inside"
        " a call, standard output closed, full or limited at any size; "
        "non-trivial: more than one command, standard input or a fault; "
        "distinct by case and recorded history")
REAL, STUB = IO_REAL + ["click, clasp", "real descriptors 0 and 1"], IO_STUB
ASSUME = ["a later command starts when the one before has ended (every command"
          " reads all of its input before it acts)"]
QUICK_S = 30
MORE = I.HEAD[2:] + ["... and more", "ref/a.hdr:", "\tb.hdr:", "x= 2"]
BEFORE = b"written before\n"
CMDS = ["project", "align", "solid2ang", "cleanheader"]


def gen_stage(rng, size):
    cmd = rng.choice(CMDS)
    o = {}
    if cmd == "project":
        o = dict(uv2ang=rng.random() < .5, useview=rng.random() < .7)
    elif cmd == "align":
        if rng.random() < .8:
            o["rotate"] = rng.choice([90., 10., 180., 33.])
        if rng.random() < .4:
            o["center"] = [rng.randrange(size) for _ in range(2)]
        o["rotate_first"] = rng.random() < .7
        o["nearest"] = rng.random() < .3
    elif cmd == "solid2ang":
        o = dict(reverse=rng.random() < .5, nearest=rng.random() < .3)
        if rng.random() < .2:
            o["viewangle"] = rng.choice([180., 120., 90.])
    return dict(cmd=cmd, opt=o)


def gen(rng, fam, tier):
    b, _, sub = fam.partition("-")
    im = c13.gen_images(rng, 1, 16)[0]
    n = rng.choice([2, 2, 3]) if b == "chain" else \
        rng.choice([1, 1, 2]) if b in ("torn", "sink", "call") else 1
    st = [gen_stage(rng, im["w"]) for _ in range(n)]
    if b == "clean":
        st = [dict(cmd="cleanheader", opt={})]
        im["w"] = rng.choice([1, 2, 3, 9, 20, 33])
        im["h"] = rng.choice([1, 2, 5, 17])
        im["kind"] = rng.choice(["rand", "log", "zero", "huge", "bytes"])
    elif rng.random() < .06:
        im["w"] = im["h"] = rng.choice([46, 64, 90])
    if b == "smooth":
        st = [dict(cmd="smooth", opt=dict(
            x=rng.randrange(2), y=rng.choice([[], [1], [2], [1, 2], [2, 0]]),
            n=rng.choice([1, 2, 5, 40, 700]), sigma=rng.choice([None, .5, 3.]),
            sf=rng.choice([1., 1., 2.])))]
        im["w"] = rng.choice([5, 20, 60, 300])      # rows
        if sub:
            fam = rng.choice(["sink", "call", "io"])
            b = fam
    if rng.random() < .3:
        im["head"] = [x for x in im["head"] if x[0] != "V"] + \
            [rng.choice(c13.VIEWS[2:])]
    for x in rng.sample(MORE, rng.randrange(5)):
        im["head"].insert(rng.randrange(len(im["head"]) + 1), x)
    if rng.random() < .15:
        # what chains of other programs leave
        for k in range(rng.choice([2, 3, 4, 6])):
            im["head"] += ["\t" * k + f"f{k}.hdr:"] + [
                "\t" * (k + 1) + f"step{k}={rng.randrange(99)}"] * \
                rng.choice([0, 1, 1])
    elif rng.random() < .25:
        im["head"] += I.nest(rng)
    return dict(im=im, stages=st, at=rng.randrange(n),
                src=rng.choice(["stdin", "pipe"]) if b in ("stdin", "torn")
                else rng.choice(["file", "file", "stdin", "pipe"]),
                cut=rng.choice([rng.random(), 1 - rng.random() / 50])
                if b == "torn" else None,
                sink=rng.choice(["closed", "full", "limit"])
                if b == "sink" else None, keep=rng.random(),
                call=draw(rng, 60, only=["io.py", "cli.py"])
                if b == "call" else None,
                ff=rng.sample(["file.open", "file.read", "file.write",
                               "file.close"], rng.choice([1, 2, 4]))
                if b == "io" else [], pf=rng.choice([.05, .2, .5]),
                plan=I.gen_plan(rng, rng.choice([.2, .3, .4, .6])
                                if "fault" in fam else 0),
                before=rng.random() < .3,
                nfault=rng.choice([1, 1, 2]), cap=I.gen_cap(rng))


def shrink(p):
    st = p["stages"]
    for k in range(len(st)):
        if len(st) > 1:
            yield dict(p, stages=st[:k] + st[k + 1:],
                       at=min(p["at"], len(st) - 2))
        if st[k]["opt"]:
            yield dict(p, stages=st[:k] + [dict(st[k], opt={})] + st[k + 1:])
    im = p["im"]
    for v in (dict(head=[]), dict(w=4, h=4), dict(kind="rand")):
        if any(im[a] != b for a, b in v.items()) and im["w"] > 3:
            yield dict(p, im=dict(im, **v))
    if p["before"]:
        yield dict(p, before=False)
    if p["src"] != "file":
        yield dict(p, src="file" if p["cut"] is None else "stdin")
    yield from I.shrink_common({k: v for k, v in p.items() if k != "im"})


def table(im):
    g = np.random.Generator(np.random.PCG64(im["seed"]))
    a = np.hstack((g.permutation(im["w"])[:, None] / 7, g.random((im["w"], 2))))
    return a, "".join("\t".join(f"{x:.6g}" for x in r) + "\n"
                      for r in a).encode()


def smoothed(stage, data, ref):
    """what the command prints with nothing in its way"""
    f = os.path.join(ref, "x.hdr")
    with open(f, "wb") as fh:
        fh.write(data)
    w = os.open(os.path.join(ref, "out"), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
    sys.stdout.flush()
    os.dup2(w, 1)
    code, exc = O.cli(smooth_argv(stage, f))
    sys.stdout.flush()
    if code or exc:
        raise exc or ValueError(f"status {code}")
    with open(os.path.join(ref, "out"), "rb") as fh:
        return fh.read()


def smooth_argv(stage, f):
    o = stage["opt"]
    a = ["smooth", f]
    if o:
        a += ["-x", str(o["x"]), "-x_out", str(o["n"]), "-sf", str(o["sf"])]
        if o["y"]:
            a += ["-y", " ".join(map(str, o["y"]))]
        if o["sigma"]:
            a += ["-sigma", str(o["sigma"])]
    return a


def check_table(p, stage, data, want, out):
    if out != want[1]:
        raise Violation(f"smooth printed {len(out)} bytes {out[:80]!r}, alone "
                        f"{len(want[1])} bytes {want[1][:80]!r}")
    o = dict(dict(x=0, y=[], n=1000, sigma=None), **stage["opt"])
    a = np.loadtxt(data.decode().splitlines(), ndmin=2)
    t = np.array([[float(x) for x in r.split()]
                  for r in out.decode().splitlines()])
    x = np.linspace(a[:, o["x"]].min(), a[:, o["x"]].max(), o["n"])
    if t.shape != (o["n"], 1 + max(1, len(o["y"]))) or not \
            np.allclose(t[:, 0], x, rtol=1e-9):
        raise Violation(f"smooth printed a table of {t.shape} for {o}")
    for c, y in zip(t.T[1:], o["y"]):
        if c.min() < a[:, y].min() - 1e-9 or c.max() > a[:, y].max() + 1e-9 \
                or not np.isfinite(c).all():
            raise Violation(f"a smoothed column leaves the range of its "
                            f"input: {o}")


def alone(stage, data, ref):
    """what the command's function writes to a file -> bytes"""
    f = os.path.join(ref, "x.hdr")      # (names c14.head leaves out)
    with open(f, "wb") as fh:
        fh.write(data)
    full = os.path.join(ref, "y.hdr")
    if stage["cmd"] == "cleanheader":
        from raytools import io
        a, header = io.hdr2carray(f, header=True)
        io.carray2hdr(a, full, header, clean=True)
    else:
        full = c14.function(stage)(f, outf=full, **c14.kwargs(stage))
    with open(full, "rb") as fh:
        return fh.read()


def feed(how, data, sim):
    """make data standard input"""
    if how == "pipe":
        r, w = os.pipe()
        os.set_blocking(w, False)
        if data and os.write(w, data) != len(data):
            raise HarnessError("image does not fit a pipe")
        os.close(w)
    else:
        name = os.path.join(os.path.dirname(sim.scratch), ".stdin")
        with files.REAL_OPEN(name, "wb") as f:
            f.write(data)
        r = os.open(name, os.O_RDONLY)
        os.unlink(name)
    os.dup2(r, 0)
    os.close(r)
    sys.stdin = os.fdopen(0, "r", closefd=False)


def unfeed():
    r = os.open("/dev/null", os.O_RDONLY)
    os.dup2(r, 0)
    os.close(r)
    sys.stdin = os.fdopen(0, "r", closefd=False)


def complete(data):
    try:
        rgbe.decode(data)
        return True
    except rgbe.BadImage:
        return False


def run(p, sim):
    fresh = Fresh()
    d = os.path.join(sim.scratch, "d")
    ref = os.path.join(sim.scratch, "ref")
    os.mkdir(d)
    os.mkdir(ref)
    path = os.path.join(d, "im.hdr")
    text = p["stages"][0]["cmd"] == "smooth"
    if text:
        _, data = table(p["im"])
        with open(path, "wb") as f:
            f.write(data)
    else:
        data, _ = I.write_hdr(path, p["im"], p["im"]["head"])
    if p["cut"] is not None:
        data = data[:int(len(data) * p["cut"])]
        os.truncate(path, len(data))
    sim.opts["pipe_cap"] = p["cap"]
    n = len(p["stages"])
    sim.nontrivial = n > 1 or p["src"] != "file" or p["cut"] is not None
    for k, st in enumerate(p["stages"]):
        last = k == n - 1
        whole = text or complete(data)
        want = fresh(smoothed if text else alone, st, data, ref)
        src = p["src"] if k == 0 else "stdin" if p["nfault"] == 1 else "pipe"
        out = one(p, sim, k, st, src, path, data, whole, want, last)
        sim.count("commands")
        if out is None:
            break
        if text:
            check_table(p, st, data, want, out)
            break
        check(st, data, want, out, f"standard output of {st['cmd']}")
        data = out
    sim.nontrivial = sim.nontrivial or sim.injected > 0
    fresh.close()


def one(p, sim, k, st, src, path, data, whole, want, last):
    stdout_bytes(reset=True)
    if p["before"]:
        os.write(1, BEFORE)     # by an earlier command of the same script
    sink = p["sink"] if last else None
    limit = None
    if sink:
        sim.count("fault.stdout." + sink)
        size = len(want[1]) if want[0] == "ok" else len(data)
        limit = int(size * p["keep"] * .98) + len(BEFORE) * p["before"]
    img = path if src == "file" else "-"
    argv = smooth_argv(st, img) if st["cmd"] == "smooth" else \
        ["cleanheader", img] if st["cmd"] == "cleanheader" else \
        c14.argv(dict(nopt=None, opt=st["opt"], cmd=st["cmd"], stdout=st[
        "cmd"] != "cleanheader"), [img])
    if src != "file":
        feed(src, data, sim)
    keep = os.dup(1)
    if sink in ("closed", "full"):
        if sink == "closed":
            r, w = os.pipe()
            os.close(r)
        else:
            w = os.open("/dev/full", os.O_WRONLY)
        os.dup2(w, 1)
        os.close(w)
    inj = sim.injected
    if k == p["at"]:
        I.setup(p, sim)
        if p["ff"]:
            files.arm(sim, p["ff"], p["pf"])
    try:
        with I.disk_limit(limit if sink == "limit" else None):
            with fault(sim, ["imagetools", "io.py", "cli.py", "mapper",
                             "translate"], p["call"] if k == p["at"] else
                       None):
                code, exc = O.cli(argv)
    finally:
        files.disarm(sim)
        I.quiet(sim)
        os.dup2(keep, 1)
        os.close(keep)
        if src != "file":
            unfeed()
    sim.sched.drain()
    ok = code == 0 and exc is None
    sim.event("command", k, st["cmd"], src, code, type(exc).__name__)
    where = f"{st['cmd']} ({k + 1} of {len(p['stages'])}, from {src})"
    if whole and want[0] != "ok":
        raise Violation(f"a complete image is refused: {where} {want[1:]}")
    cause = sim.injected > inj or not whole or sink
    if not ok:
        if not cause:
            raise Violation(f"a command failed without cause: {where} status "
                            f"{code} {exc!r} {stderr_text()[-300:]}")
        sim.count("commands_failed")
        return None
    if not whole:
        raise Violation(f"a command succeeded on an incomplete image: {where} "
                        f"{len(data)} bytes")
    if want[0] != "ok":
        raise Violation(f"a command succeeded where the function alone raises:"
                        f" {where} {want[1:]}")
    if sink:
        raise Violation(f"a command succeeded although standard output took "
                        f"nothing or only a part: {where} "
                        f"{sink} {limit if sink == 'limit' else ''}")
    out = stdout_bytes()
    if p["before"]:
        if not out.startswith(BEFORE):
            raise Violation(f"what was on standard output before is lost: "
                            f"{where} {out[:40]!r}")
        out = out[len(BEFORE):]
    return out


def check(st, data, want, out, what):
    c14.same(out, want[1], what)
    lines, px = I.decode(out, what)
    had, pin = rgbe.decode(data)
    if st["cmd"] == "cleanheader":
        I.pixel_err(px, pin, what)
    text = " ".join(" ".join(lines).split())
    for x in had[1:]:
        x = x.strip()
        key, _, val = x.partition("=" if "=" in x else " ")
        if key in ("pvalue", "FORMAT", "VIEW") or x.endswith(":") or \
                len(x) > 100:
            continue        # (replaced, purged or wrapped)
        if " ".join(val.split()) not in text:
            raise Violation(f"{what} has lost the header line {x!r}: {lines}")
