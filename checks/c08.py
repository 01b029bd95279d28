"""C08 no descriptors, processes or temporary files are left behind"""
import gc
import os
import re
import numpy as np
from sim import core, files, popen
from sim import fresh
from checks.common import *
from checks import images as I
from checks import ops as O

PROP = "C08"
FAMILIES = ["call", "fault", "cli", "cli-fault", "file", "stdin",
            "stdin-fault", "pool-fault", "fault-b", "intr", "cli-intr",
            "stdin-intr"]
RULE = ("seeded histories of 1 to 8 library calls and command line runs "
        "(images as files or on standard input; healthy, torn or missing "
        "files; helpers that cannot start, fail, die, flood or stall; failing "
        "opens, reads, writes, closes; full disks; workers that die or cannot "
        "be started; options that end a command early; memory running out or an "
        "interrupt at a drawn line or call); after each step every "
        "open descriptor, child process, helper pipe and file is listed and "
        "compared with the list before; non-trivial: a helper ran or a fault "
        "struck; distinct by case and recorded history")
REAL, STUB = IO_REAL + ["concurrent.futures"], IO_STUB + SCHED_STUB
ASSUME = ["descriptors held only by garbage count as closed once collected",
          "one descriptor per copy of standard input is leaked inside the "
          "clasp package, outside this repository"]
QUICK_S = 40
SLOW = ("gss", "gss_save")
WRITERS = ["cwrite", "uv2ang", "ang2uv", "rotate", "solid2ang"]
BYTES = ["np2file", "appendfile", "file2np", "load_txt", "is_hdr", "vf"]


def gen(rng, fam, tier):
    base = fam.split("-")[0]
    n = rng.choice([1, 2, 3, 5, 8])
    steps = []
    for _ in range(n):
        k = base if base in ("cli", "stdin", "pool") and rng.random() < .7 \
            else "op"
        if k == "op":
            s = O.gen_op(rng, O.OPS + BYTES if base != "file" else
                         BYTES * 3 + ["write", "cwrite", "stream", "uv2ang"])
            if s["op"] in SLOW and rng.random() < .7:
                s["op"] = "array"
        else:
            s = dict(op="cli", cmd=rng.choice(
                ["metric", "project", "align", "solid2ang", "cleanheader"]
                if k != "pool" else ["metric", "metric", "project", "align",
                                     "solid2ang"]),
                n=1 if k == "stdin" else rng.choice([1, 2, 3]),
                stdin=k == "stdin", extra=rng.choice(
                    ["", "", "", "", "-opts", "--debug", "--stdout",
                     "-badopt", "gss", "second"]),
                size=rng.randrange(4), a=rng.randrange(1000))
            if s["cmd"] == "cleanheader":
                s["n"] = 1
            if k == "pool":
                s["n"] = rng.choice([2, 3])
        s["src"] = rng.choice(["ok", "ok", "ok", "torn", "missing", "text",
                               "nonsquare", "dir"])
        s["limit"] = rng.choice([None, None, None, 0, 100, 700])
        if fam.endswith("intr") and rng.random() < .6:
            s["intr"] = fresh.draw(rng, only=["io.py", "imagetools"])
            if rng.random() < .6:
                s["src"] = "ok"
                if s["op"] != "cli":
                    s["op"] = rng.choice(WRITERS)
                    s["limit"] = None
        steps.append(s)
    im = I.gen_image(rng, square=True, big=10, kinds=["rand", "glare"])
    im["w"] = im["h"] = max(4, min(10, im["w"]))
    return dict(im=im, steps=steps, header=O.VIEW, cap=I.gen_cap(rng),
                plan=I.gen_plan(rng, rng.choice([.2, .5]) if "fault" in fam
                                else 0, I.FAULTS + ("short",)),
                nfault=rng.choice([1, 2, 4]), ncpu=rng.choice([1, 2, 3]),
                file=rng.choice([.1, .3]) if base == "file" else 0,
                pool=rng.choice(["proc.kill", "proc.start", None])
                if base == "pool" else None)


def shrink(p):
    yield from I.shrink_common(p)
    s = p["steps"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    for i, x in enumerate(s):
        for k, v in (("limit", None), ("intr", None), ("src", "ok"), ("n", 1), ("extra", "")):
            if k in x and x[k] != v:
                yield dict(p, steps=s[:i] + [dict(x, **{k: v})] + s[i + 1:])


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[int(f)] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return out


def listing(sim):
    out = set()
    top = os.path.dirname(sim.scratch)
    for base in (sim.scratch, os.path.join(top, "tmp")):
        for r, ds, fs in os.walk(base):
            for f in fs + ds:
                out.add(os.path.relpath(os.path.join(r, f), top))
    return out


def children():
    try:
        r = os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT)
    except ChildProcessError:
        return None
    return "a child that ended" if r is not None else "a running child"


def bytesop(s, path, out):
    from raytools import io, imagetools
    o, a = s["op"], s["a"]
    if o in ("np2file", "appendfile"):
        io.np2bytefile(np.arange(a * 3.), out,
                       mode="wb" if o == "np2file" else "ab")
    elif o == "file2np":
        with open(path, "rb") as f:
            io.bytefile2np(f, (-1, 1 + a % 3), "u1")
    elif o == "load_txt":
        io.load_txt(path)
    elif o == "is_hdr":
        io.is_hdr(path)
    elif o == "vf":
        imagetools.vf_to_vm(path)


def stop(sim, s):
    """memory runs out, or an interrupt comes, at a drawn place of the call"""
    return fresh.fault(sim, ["io.py", "imagetools", "mapper", "translate",
                             "evaluate", "cli"], s.get("intr"))


def run(p, sim):
    d = os.path.join(sim.scratch, "d")
    os.mkdir(d)
    I.setup(p, sim)
    sim.opts["ncpu"] = p["ncpu"]
    src = {}

    def image(k, how):
        if how == "nonsquare" and k:
            how = "ok"
        f = os.path.join(d, f"{how}{k}.hdr")
        if (k, how) not in src:
            src[k, how] = f
            im = dict(p["im"], seed=p["im"]["seed"] + k)
            if how == "nonsquare":
                im["w"] += 2
            if how == "dir":
                os.mkdir(f)
                return f
            if how != "missing":
                I.write_hdr(f, im, p["header"])
            if how == "torn":
                os.truncate(f, os.path.getsize(f) * (3 + k) // 7)
            elif how == "text":
                with open(f, "w") as fh:
                    fh.write("1 2 3\n4 5 6\n")
        return f
    for k in range(3):
        for how in ("ok", "torn", "text", "nonsquare", "dir"):
            image(k, how)
    # warm up lazy imports and caches
    core.isolated(lambda: None)
    stdout_bytes()
    sim.nontrivial = False
    before, files0 = fds(), listing(sim)
    for j, s in enumerate(p["steps"]):
        out = os.path.join(d, f"o{j}.hdr")
        allowed = {os.path.relpath(out, os.path.dirname(sim.scratch))}
        path = image(0, s["src"])
        if p["file"]:
            files.arm(sim, ["file.open", "file.read", "file.write",
                            "file.close"], p["file"])
        if p["pool"]:
            sim.faults[p["pool"]] = .1
        rx = None
        err = None
        if s["op"] == "cli":
            err, rx = runcli(p, sim, s, [path] + [image(k, "ok") for k in
                                                  range(1, s["n"])])
        else:
            try:
                with I.disk_limit(s["limit"]), stop(sim, s):
                    if s["op"] in BYTES:
                        bytesop(s, path, out)
                    else:
                        O.do(s, path, out)
            except (Violation, HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as ex:
                err = type(ex).__name__
        files.disarm(sim)
        sim.faults = {}
        sim.sched.drain()
        gc.collect()
        sim.count("step." + s["op"] + ("." + s["cmd"] if "cmd" in s else ""))
        if err:
            sim.count("steps_failed")
        sim.event("step", s["op"], s.get("cmd"), err)
        where = f"after step {j} {s['op']} {s.get('cmd', '')} " \
            f"({err or 'ok'})"
        pipes, procs = popen.leaks(sim)
        if pipes:
            raise Violation(f"helper pipe left open: {len(pipes)} {where}")
        if procs:
            raise Violation(f"helper process not reaped: {procs[0].argv} "
                            f"{where}")
        if sim.sched.leftovers():
            raise Violation(f"workers left behind: {sim.sched.leftovers()} "
                            f"{where}")
        c = children()
        if c:
            raise Violation(f"child process left behind: {c} {where}")
        now = fds()
        new = {k: v for k, v in now.items() if before.get(k) != v and
               "clasp_tmp" not in v and not v.startswith("/proc/")}
        if new:
            raise Violation(f"descriptor left open: {new} {where}")
        before = now
        fl = listing(sim)
        extra = [f for f in fl - files0 - allowed
                 if not (rx and re.fullmatch(rx, f))]
        if extra:
            raise Violation(f"file left behind: {sorted(extra)} {where}")
        gone = files0 - fl
        if gone:
            raise Violation(f"file removed: {sorted(gone)} {where}")
        files0 = fl
    sim.nontrivial = sim.counts.get("helper_runs", 0) > 0 or sim.injected > 0


OUT = {"project": r"_uv|_ang", "align": r"(_r\d\d)?", "solid2ang":
       r"_2vta|_2vts", "metric": "_rg", "cleanheader": "_none_"}


def runcli(p, sim, s, paths):
    argv = []
    extra = s["extra"]
    names = ["-"] if s["stdin"] else list(paths)
    if extra == "second":
        names = names[::-1] + ["-"] if not s["stdin"] else \
            [paths[0], "-", os.path.join(sim.scratch, "nothere")]
    argv = [s["cmd"], " ".join(names)]
    if s["cmd"] == "metric":
        argv += ["-metrics", "illum gss" if extra == "gss" else "illum dgp"]
        if extra == "gss" and s["a"] % 2:
            argv += ["--gssimage"]
        if s["a"] % 3 == 0:
            argv += ["--no-parallel"]
    elif s["cmd"] == "align":
        argv += ["-rotate", str(5 + s["a"] % 90)]
    elif s["cmd"] == "solid2ang" and s["a"] % 2:
        argv += ["--no-stdout"]
    elif s["cmd"] == "project" and s["a"] % 2:
        argv += ["--uv2ang"]
    if extra in ("-opts", "--debug", "-badopt"):
        argv += [extra]
    elif extra == "--stdout" and s["cmd"] not in ("metric", "cleanheader"):
        argv += [extra]
    data = b""
    if os.path.isfile(paths[0]):
        with files.REAL_OPEN(paths[0], "rb") as f:
            data = f.read()
    infile = os.path.join(os.path.dirname(sim.scratch), ".stdin")
    with files.REAL_OPEN(infile, "wb") as f:
        f.write(data)
    fd = os.open(infile, os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)
    sys.stdin = os.fdopen(0, "r", closefd=False)
    # (clasp itself leaves a copy of stdin behind that it could not complete)
    with I.disk_limit(None if "-" in names else s["limit"]), \
            stop(sim, s):
        code, ex = O.cli(argv)
    fd = os.open("/dev/null", os.O_RDONLY)
    os.dup2(fd, 0)
    os.close(fd)
    sys.stdin = os.fdopen(0, "r", closefd=False)
    os.unlink(infile)
    stdout_bytes(reset=True)
    sim.count("cli.source." + ("stdin" if "-" in names else "files"))
    suff = OUT[s["cmd"]]
    if extra == "gss" and s["cmd"] == "metric":
        suff = "_rg"
    elif s["cmd"] == "metric":
        suff = "_none_"
    stems = "|".join([r"clasp_tmp\w+"] + [
        "d/" + re.escape(os.path.basename(x)[:-4]) for x in paths])
    rx = rf"s/({stems})({suff})\.hdr"
    return (None if code == 0 and ex is None else f"exit {code}"), rx
