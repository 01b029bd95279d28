"""C14 batch image transforms write each image's own complete result"""
import os
import shutil
import numpy as np
from sim import core, files, rgbe
from sim.fresh import Fresh
from checks.common import *
from checks import images as I
from checks import ops as O
from checks import c13

PROP = "C14"
FAMILIES = ["project", "align", "solid2ang", "gss", "fault", "lib", "worker",
            "bad", "disk", "project-lib", "fault-lib", "stdout", "solid2ang-b",
            "file", "gss-fault", "align-b", "mixed", "lib-t", "mem-align", "mem", "mem-lib",
            "mem-align"]
RULE = ("seeded lists of 1 to 6 images (own sizes, pixels, views, headers, "
        "some in other folders under the same name; some missing, torn or not"
        " images; outputs that exist already, whole, torn or newer than the "
        "source; the same files processed again after some were replaced), "
        "transform options, caps, run through the command line tool or the library calls it makes, with "
        "every worker step scheduled by the simulator and with failing or "
        "dying helpers and workers, file errors, full disks and memory running "
        "out or interrupts at drawn sites; each output "
        "is compared with that of the image processed alone in a pristine "
        "process; non-trivial: two or more images or a fault; distinct by "
        "case and recorded history")
REAL, STUB = IO_REAL + ["concurrent.futures, tqdm, click, clasp"], \
    IO_STUB + SCHED_STUB
ASSUME = ["the images differ in name, file extension aside"]
QUICK_S = 40


def gen(rng, fam, tier):
    b, _, sub = fam.partition("-")
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    cmd = b if b in ("project", "align", "solid2ang", "gss") else \
        rng.choice(["project", "project", "align", "solid2ang", "solid2ang",
                    "gss"])
    if b == "mem":
        cmd = sub if sub in ("align",) else rng.choice(
            ["project", "align", "solid2ang"])
        n = min(n, 2)
    if b == "stdout":
        n, cmd = 1, rng.choice(["project", "align", "solid2ang"])
    if b == "disk":
        n = min(n, 3)
        cmd = rng.choice(["project", "align", "solid2ang"])
    lib = sub in ("lib", "t") or b == "lib" or b != "stdout" and \
        rng.random() < .2
    if cmd == "gss":
        n = min(n, 4)
    ims = c13.gen_images(rng, n, 6 if cmd == "gss" else 14)
    outdir = lib and cmd == "gss" and rng.random() < .5
    for i, im in enumerate(ims):
        if cmd != "gss":
            im["kind"] = rng.choice(["rand", "rand", "grad", "log", "sparse",
                                     "glare"])
            if b == "disk":
                im["w"] = im["h"] = rng.choice([34, 38, 44])
                im["kind"] = "rand"
        im["name"] = rng.choice([im["name"]] * 3 + ["1", "1.x", "1.y", "1.x.y"])
        if outdir and im["name"] == "same":
            im["name"] = f"im{i}"
        while any(im["name"] == x["name"] and (outdir or im["dir"] == x["dir"])
                  for x in ims[:i]):
            im["name"] = f"im{i}_{im['name']}"
        if rng.random() < .4:
            im["head"].insert(rng.randrange(len(im["head"]) + 1),
                              rng.choice(["SOFTWARE= RADIANCE 5.4a 2020-09-06 LBNL", "a line",
                                          "EXTRA=1", "x=", "long=" +
                                          "v" * 300, "... x", "b.hdr:"]))
        if rng.random() < .25:
            im["head"] += I.nest(rng)
        im["stale"] = rng.random() < .3 and rng.choice(["junk", "torn",
                                                        "other"])
    opt = {}
    if cmd == "project":
        opt["uv2ang"] = rng.random() < .5
        opt["useview"] = rng.random() < .7
        if opt["uv2ang"] and rng.random() < .3:
            for im in ims:
                im["wide"] = rng.random() < .5
    elif cmd == "align":
        r = rng.random()
        if r < .8:
            opt["rotate"] = rng.choice([90., 10., 180., 33., 7., 270.])
        if r > .5:
            m = min(im["w"] for im in ims)
            opt["center"] = [rng.randrange(m) for _ in
                             range(rng.choice([2, 2, 4]))]
        opt["rotate_first"] = rng.random() < .7
        opt["nearest"] = rng.random() < .3
    elif cmd == "solid2ang":
        opt["reverse"] = rng.random() < .5
        opt["nearest"] = rng.random() < .3
        if rng.random() < .3:
            opt["viewangle"] = rng.choice([180., 120., 90.])
    else:
        opt = rng.choice([{}, {}, dict(psf=False, adaptmove=False,
                                       directmove=False)])
        if lib:
            opt = dict(opt)
            opt["outdir"] = outdir
            if rng.random() < .4:
                opt["suffix"] = rng.choice(["_x.hdr", ".gss.hdr"])
    if b == "bad" or b == "mixed" and rng.random() < .2:
        for im in rng.sample(ims, rng.choice([1, 1, min(2, n)])):
            im["how"] = rng.choice(["torn", "torn", "missing", "text", "head",
                                    "empty"])
    order = list(range(n))
    rng.shuffle(order)
    workers = rng.choice([True, True, "t", False])
    if sub == "t":
        workers = "t"
    flt = b in ("fault", "mixed") or sub == "fault" or \
        b == "stdout" and rng.random() < .3
    redo = []
    if b not in ("bad", "disk", "file"):
        # the same files are processed again after some were replaced
        for i in range(n):
            if rng.random() < .5:
                c = dict(i=i, seed=rng.randrange(1 << 30), w=ims[i]["w"],
                         t=rng.choice([0, 0, 0, 1, -1]) * 10 ** 9)
                if rng.random() < .3 and not opt.get("center"):
                    c["w"] = max(3, ims[i]["w"] + rng.choice([-1, 1, 2]))
                redo.append(c)
    alloc = None
    if b == "mem":
        alloc = c13.gen_memory(rng, .1)
        for f in alloc:
            if f and rng.random() < .5:
                f["exc"] = "memory"
        if workers == "t":
            workers = True
    return dict(ims=ims, order=order, cmd=cmd, opt=opt, lib=lib, redo=redo,
                alloc=alloc,
                form=rng.choice(["args", "args", "list"]),
                workers=workers if cmd != "gss" else True,
                stdout=b == "stdout",
                runs=rng.choice([1, 1, 2]),
                cap=I.gen_cap(rng), gcap=rng.choice([None, 1, 2, 3]),
                nopt=rng.choice([None, None, None, 1, 2, 3, 5, 0]),
                env=rng.choice([None, None, "2", "junk"]),
                ncpu=rng.choice([1, 2, 3, 4]),
                plan=I.gen_plan(rng, rng.choice([.1, .3]) if flt else 0),
                nfault=rng.choice([1, 1, 2]),
                disk=rng.choice([2500, 3500, 4500, 6000, 8000])
                if b == "disk" else None,
                ff=rng.sample(["file.open", "file.read", "file.write",
                               "file.close"], rng.choice([1, 2, 4]))
                if b == "file" else [],
                pf=rng.choice([.02, .1, .3]),
                wf=rng.choice([{"proc.kill": rng.choice([.01, .05, .2])},
                               {"proc.start": .3}])
                if b == "worker" else {},
                p_stay=rng.choice([.2, .5, .8, .95]))


def shrink(p):
    n = len(p["ims"])
    for i in range(len(p["order"])):
        if len(p["order"]) > 1:
            yield dict(p, order=p["order"][:i] + p["order"][i + 1:])
    for i in range(n):
        im = p["ims"][i]
        for v in (dict(head=[]), dict(dir="", name=f"z{i}"),
                  dict(w=4, h=4), dict(stale=False), dict(kind="rand")):
            if any(im[k] != x for k, x in v.items()) and im["w"] >= 4 and \
                    (p["disk"] is None or "w" not in v):
                yield dict(p, ims=p["ims"][:i] + [dict(im, **v)] +
                           p["ims"][i + 1:])
    for i in range(len(p["redo"])):
        yield dict(p, redo=p["redo"][:i] + p["redo"][i + 1:])
    for k in p["opt"]:
        if k not in ("rotate", "center", "outdir"):
            yield dict(p, opt={a: b for a, b in p["opt"].items() if a != k})
    for k, v in (("nopt", None), ("env", None), ("runs", 1), ("ff", []),
                 ("wf", {}), ("plan", None), ("form", "args"), ("workers", False)):
        if p[k] != v:
            yield dict(p, **{k: v})
    yield from I.shrink_common(p)


def function(p):
    from raytools import imagetools
    if p["cmd"] == "project":
        return imagetools.hdr_uv2ang if p["opt"].get("uv2ang") else \
            imagetools.hdr_ang2uv
    return dict(align=imagetools.hdr_rotate,
                solid2ang=imagetools.hdr_solid2ang)[p["cmd"]]


def kwargs(p):
    o = dict(p["opt"])
    if p["cmd"] == "project":
        o.pop("uv2ang", None)
        o.setdefault("useview", True)
    elif p["cmd"] == "align":
        o.setdefault("rotate_first", True)
        o.setdefault("nearest", False)
        o.setdefault("rotate", 0.)
        o.setdefault("center", None)
    return o


def alone(p, i, ref):
    """image i processed alone in a pristine process
    -> (output name relative to the tree, bytes)"""
    im = p["ims"][i]
    rel = os.path.join(im["dir"], im["name"] + ".hdr")
    f = os.path.join(ref, rel)
    if p["cmd"] == "gss":
        from raytools.evaluate.hvsgsm import GSS
        o = dict(p["opt"])
        o.pop("outdir", None)
        out = rel[:-4] + o.pop("suffix", "_rg.hdr")
        if p["opt"].get("outdir"):
            out = os.path.join("out", os.path.basename(out))
        g = GSS(f, **o)
        g.lum = f
        full = os.path.join(ref, f"{i}.tmp")
        g.compute(save=full)
    else:
        full = function(p)(f, **kwargs(p))
        out = os.path.relpath(full, ref)
    with open(full, "rb") as fh:
        return out, fh.read()


def argv(p, imgs, sim=None):
    a = [] if p["nopt"] is None else ["-n", str(p["nopt"])]
    o = p["opt"]
    names = " ".join(imgs)
    if p.get("form") == "list":     # the images are listed in a file
        names = "@" + os.path.join(sim.scratch, "images.txt")
        with open(names[1:], "w") as f:
            f.write("\n".join(imgs) + "\n")
    if p["cmd"] == "gss":
        return a + ["metric", names, "-metrics", "gssnb" if o else "gss",
                    "--gssimage"]
    a += [p["cmd"], names]
    if p["cmd"] == "project":
        if "uv2ang" in o:
            a.append("--uv2ang" if o["uv2ang"] else "--ang2uv")
        if "useview" in o:
            a.append("--useview" if o["useview"] else "--no-useview")
    elif p["cmd"] == "align":
        if "rotate" in o:
            a += ["-rotate", str(o["rotate"])]
        if o.get("center"):
            a += ["-center", " ".join(map(str, o["center"]))]
        if not o.get("rotate_first", True):
            a.append("--center-first")
    else:
        if o.get("reverse"):
            a.append("--reverse")
        if "viewangle" in o:
            a += ["-viewangle", str(o["viewangle"])]
    if o.get("nearest"):
        a.append("--nearest")
    if p["stdout"]:
        a.append("--stdout")
    elif p["cmd"] == "solid2ang":
        a.append("--no-stdout")
    return a


def reported():
    """names a command reports as written, None without such a report"""
    t = stderr_text()
    k = "Wrote the Following image files:\n"
    if k in t:
        return t.split(k)[-1].splitlines()
    if "Wrote: " in t:
        return t.split("Wrote: ")[-1].splitlines()
    return None


def call_lib(p, sim, imgs, d):
    """-> reported names (None for gss)"""
    from raytools.utility import pool_call
    from raytools.evaluate.hvsgsm import gss_compute
    if p["cmd"] == "gss":
        o = dict(p["opt"])
        o["outdir"] = os.path.join(d, "out") if o.get("outdir") else None
        gss_compute(list(imgs), save=True, cap=p["gcap"], **o)
        return None
    if p["workers"] == "t":
        sim.sched.enable_preempt()
    return pool_call(function(p), list(imgs), cap=p["gcap"], expandarg=False,
                     workers=p["workers"], **kwargs(p))


def tree(d):
    return {os.path.relpath(os.path.join(b, f), d)
            for b, _, fs in os.walk(d) for f in fs}


def head(lines):
    """without times and the name the input went by"""
    return [x for x in lines if not x.startswith(("CAPDATE=", "GMT="))
            and x.strip() not in ("<stdin>:", "x.hdr:", "im.hdr:")]


def same(data, want, what):
    """a complete image equal to that of the image processed alone"""
    l, a = I.decode(data, what)
    wl, b = rgbe.decode(want)
    if a.shape != b.shape:
        raise Violation(f"{what} is {a.shape[1::-1]} pixels, alone "
                        f"{b.shape[1::-1]}")
    if not np.array_equal(a, b):
        y, x, c = np.argwhere(a != b)[0]
        raise Violation(f"{what}: {int((a != b).any(-1).sum())} pixels differ "
                        f"from the image processed alone, first at row {y} "
                        f"column {x} channel {c}: {a[y, x, c]!r} instead of "
                        f"{b[y, x, c]!r}")
    if head(l) != head(wl):
        raise Violation(f"{what} has the header {head(l)}, alone {head(wl)}")
    return l


def run(p, sim):
    sim.sched.p_stay = p["p_stay"]
    fresh = Fresh()
    sim.opts["pipe_cap"] = p["cap"]
    sim.opts["ncpu"] = p["ncpu"]
    if p["env"] is not None:
        os.environ["RAYTOOLS_PROC_CAP"] = p["env"]
    d = os.path.join(sim.scratch, "d")
    ref = os.path.join(sim.scratch, "ref")
    os.mkdir(d)
    pp = dict(p, ims=[dict(im, w=2 * im["w"]) if im.get("wide") else im
                      for im in p["ims"]])
    paths = c13.write_images(pp, d)
    shutil.copytree(d, ref)
    bad = [p["ims"][i]["how"] for i in p["order"] if
           p["ims"][i]["how"] != "ok"]
    want = [fresh(alone, p, i, ref) for i in p["order"]]
    for w in want:
        im = p["ims"][p["order"][want.index(w)]]
        if w[0] == "ok" and im["stale"]:
            f = os.path.join(d, w[1][0])
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as fh:
                fh.write(dict(junk=w[1][1] + b"old" * 200,
                              torn=w[1][1][:-1 - im["seed"] % 40],
                              other=rgbe.encode(I.make_rgb(dict(
                                  im, seed=7, kind="rand")), im["head"])[0]
                              )[im["stale"]])
            t = 2 * 10 ** 18 * (im["seed"] % 3)
            if t:
                os.utime(f, ns=(t, t))
    names = [w[1][0] for w in want if w[0] == "ok"]
    if len(set(names)) < len(names):
        raise Violation(f"images of different names share an output: {names}")
    before = tree(d)
    for k in range(p["runs"]):
        if k and p["redo"]:
            ref += "2"
            p = redo(p, d, ref, paths)
            want = [fresh(alone, p, i, ref) for i in p["order"]]
            sim.count("replaced_sources", len(p["redo"]))
        src = {}
        for f in paths:
            if os.path.exists(f):
                with open(f, "rb") as fh:
                    src[f] = fh.read()
        one(p, sim, d, [paths[i] for i in p["order"]], want, bad, k)
        for f, data in src.items():
            with open(f, "rb") as fh:
                if fh.read() != data:
                    raise Violation(f"the source image {f} was changed")
    new = tree(d) - before - {w[1][0] for w in want if w[0] == "ok"}
    if new and not sim.injected and p["disk"] is None:
        raise Violation(f"unexpected files were written: {sorted(new)}")
    sim.nontrivial = len(p["order"]) > 1 or sim.injected > 0 or bool(bad) or \
        p["disk"] is not None
    fresh.close()


def redo(p, d, ref, paths):
    """replace some of the source images"""
    ims = [dict(im) for im in p["ims"]]
    for c in p["redo"]:
        ims[c["i"]].update(seed=c["seed"], w=c["w"], h=c["w"])
    wide = [dict(im, w=2 * im["w"]) if im.get("wide") else im for im in ims]
    os.mkdir(ref)
    c13.write_images(dict(p, ims=wide), ref)
    for c in p["redo"]:
        f = paths[c["i"]]
        if os.path.exists(f):
            t = os.stat(f).st_mtime_ns + c["t"]
            shutil.copyfile(os.path.join(ref, os.path.relpath(f, d)), f)
            os.utime(f, ns=(t, t))
    return dict(p, ims=ims)


def one(p, sim, d, imgs, want, bad, k):
    stdout_bytes(reset=True)
    av = None if p["lib"] else argv(p, imgs, sim)
    if k == 0:
        I.setup(p, sim)
        sim.faults = dict(p["wf"])
        if p["ff"]:
            files.arm(sim, p["ff"], p["pf"])
            sim.fault_left = p["nfault"]
    inj = sim.injected
    mem = c13.memory(p if k == 0 else {}, sim)
    names = exc = None
    code = 0
    if p["lib"]:
        with I.disk_limit(p["disk"] if k == 0 else None), mem:
            try:
                names = call_lib(p, sim, imgs, d)
            except (Violation, HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as ex:
                exc = ex
    else:
        os.truncate(os.path.join(os.path.dirname(sim.scratch), ".stderr"), 0)
        with I.disk_limit(p["disk"] if k == 0 else None), mem:
            code, exc = O.cli(av)
    sim.sched.preempt_on = False
    sim.faults = {}
    files.disarm(sim)
    I.quiet(sim)
    sim.sched.drain()
    if not p["lib"]:
        names = reported()
    ok = code == 0 and exc is None
    sim.event("done", k, code, type(exc).__name__,
              [os.path.relpath(x, d) for x in names or []])
    failing = [w for w in want if w[0] != "ok"]
    for w, i in zip(want, p["order"]):
        if w[0] != "ok" and p["ims"][i]["how"] == "ok":
            raise Violation(f"a complete image is refused: {w[1:]}")
    if not ok:
        if not bad and not failing and sim.injected == inj and \
                (p["disk"] is None or k):
            raise Violation(f"the call failed without cause: status {code} "
                            f"{exc!r} {stderr_text()[-300:]}")
        sim.count("runs_failed")
    elif bad or failing:
        raise Violation("the call succeeded although " +
                        (f"an image is {bad[0]}" if bad else
                         f"one image alone raises {failing[0][1:]}"))
    if p["stdout"]:
        data = stdout_bytes()
        if ok:
            check_one(p, p["order"][0], data, want[0][1][1], "standard output")
            sim.count("images")
        return
    if names is None:
        if not ok:
            return
        if p["cmd"] != "gss":
            raise Violation("the command ended with status 0 and reported no "
                            "output name")
        names = [os.path.join(d, w[1][0]) for w in want]
    expect = [os.path.join(d, w[1][0]) if w[0] == "ok" else None for w in want]
    if ok and list(names) != expect:
        raise Violation(f"the reported names are {names}, the outputs are "
                        f"{expect}")
    for x in names:
        if x not in expect:
            raise Violation(f"{x!r} is reported as written")
        j = expect.index(x)
        try:
            with open(x, "rb") as fh:
                data = fh.read()
        except OSError as ex:
            raise Violation(f"output {j} is reported as written: {ex}")
        check_one(p, p["order"][j], data, want[j][1][1],
                  f"output {j} of {len(imgs)} ({os.path.relpath(x, d)})")
        sim.count("images")


def check_one(p, i, data, want, what):
    l = same(data, want, what)
    if p["cmd"] == "gss":
        return
    for x in p["ims"][i]["head"]:
        x = x.strip()
        if x.startswith(("ID=", "SOFTWARE=", "a line", "EXTRA=", "N")) \
                and not any(x in y for y in l):
            raise Violation(f"{what} has lost the header line {x!r}: {l}")
