"""C13 the metric table: one correct row per image, in the order given"""
import contextlib
import os
import numpy as np
from sim import core
from sim.fresh import Fresh, draw, fault
from checks.common import *
from checks import images as I
from checks import ops as O

PROP = "C13"
FAMILIES = ["metric", "gss", "fault", "worker", "bad", "score", "metric-b",
            "gss-bad", "score-fault", "worker-b", "mixed", "metric-c",
            "alloc"]
RULE = ("seeded lists of 1 to 7 images (own sizes, pixels, views, luminance "
        "coefficients, some in other folders under the same name, some given "
        "twice; some missing, torn, not images or not square), metric lists, "
        "options, caps and --no-parallel, run through the command line tool "
        "or gss_compute with every worker step scheduled by the simulator and"
        " with failing or dying helpers and workers and memory running "
        "out inside a call, some run again after files were replaced; each row is compared "
        "with that image evaluated alone in a pristine process; non-trivial: "
        "two or more images or a fault; distinct by case and recorded history")
REAL, STUB = IO_REAL + ["concurrent.futures, tqdm, click, clasp"], \
    IO_STUB + SCHED_STUB
ASSUME = ["printed numbers are compared to the printed precision (1e-5)",
          "irradiance is printed as three columns under one name"]
QUICK_S = 40
METRICS = ["illum", "avglum", "gcr", "ugp", "dgp", "tasklum", "backlum",
           "dgp_t1", "log_gc", "dgp_t2", "ugr", "threshold", "pwsl2",
           "view_area", "backlum_true", "srcillum", "srcarea", "maxlum"]
VIEWS = ["VIEW= -vta -vp 0 0 0 -vd 0 1 0 -vu 0 0 1 -vh 180 -vv 180",
         "VIEW= -vta -vp 0 0 0 -vd 0 1 0 -vu 0 0 1 -vh 180 -vv 180",
         "VIEW= -vta -vp 1 2 3 -vd 1 0 0 -vu 0 0 1 -vh 180 -vv 180",
         "VIEW= -vta -vp 0 0 0 -vd .5 -.5 .1 -vu 0 0 1 -vh 90 -vv 90",
         "VIEW= -vta -vp 0 0 0 -vd 0 0 1 -vu 0 1 0 -vh 120 -vv 120"]
LUM = ["LuminanceRGB=.2 .7 .1", "LuminanceRGB=.265 .670 .065",
       "LuminanceRGB=1 0 0"]


def gen_images(rng, n, big=10):
    ims = []
    for i in range(n):
        im = I.gen_image(rng, True, big, ["rand", "glare", "glare", "grad"])
        im["w"] = im["h"] = max(3, im["w"])
        if ims and rng.random() < .3:
            im["w"] = im["h"] = ims[0]["w"]
        head = []
        r = rng.random()
        if r < .75:
            head.append(rng.choice(VIEWS))
        if r < .1:
            head.append(rng.choice(VIEWS))
        if rng.random() < .25:
            head.append(rng.choice(LUM))
        if rng.random() < .4:
            head.append(f"ID={i}")
        im["head"] = head
        im["dir"] = rng.choice(["", "", "a", "b"])
        im["name"] = rng.choice([f"im{i}", f"im{i}", "same", f"{i}.x"])
        im["how"] = "ok"
        ims.append(im)
    used = set()
    for i, im in enumerate(ims):
        while (im["dir"], im["name"]) in used:
            im["name"] = f"im{i}_{len(used)}"
        used.add((im["dir"], im["name"]))
    return ims


def gen(rng, fam, tier):
    b = fam.split("-")[0]
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    gss = b in ("gss", "score") or \
        b in ("worker", "fault", "bad", "alloc") and \
        rng.random() < .2
    if b == "mixed":
        gss = rng.random() < .5
    if gss:
        n = min(n, 4)
    ims = gen_images(rng, n, 7 if gss else 12)
    if b in ("bad",) or fam == "gss-bad":
        for im in rng.sample(ims, rng.choice([1, 1, min(2, n)])):
            im["how"] = rng.choice(["torn", "torn", "missing", "text", "head",
                                    "empty"] + ["nonsquare"] * gss)
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < .2:
        order.append(rng.choice(order))
    ms = rng.sample(METRICS, rng.choice([1, 1, 2, 3, 5]))
    if rng.random() < .1:
        ms.insert(rng.randrange(len(ms) + 1), "irradiance")
    if gss and b != "score":
        g = rng.choice([["gss"], ["gssnb"], ["gss", "gssnb"]])
        if rng.random() < .5:
            ms = g
        else:
            for x in g:
                ms.insert(rng.randrange(len(ms) + 1), x)
    alloc = None
    if b == "alloc":
        alloc = gen_memory(rng)
    opt = {}
    for k, v in (("peakn", [True, False]), ("peakt", [100., 1e4]),
                 ("peaka", [1e-3, .1]), ("peakr", [2., 10.]),
                 ("threshold", [5., 300., 7.5]), ("scale", [1., 100.]),
                 ("lumrgb", [[.2, .7, .1], [0., 1., 0.]]),
                 ("blursun", [True]), ("lowlight", [True])):
        if rng.random() < .15:
            opt[k] = rng.choice(v)
    again = None
    if b not in ("fault", "worker", "alloc", "bad") and rng.random() < .25:
        again = [dict(i=i, seed=rng.randrange(1 << 30),
                      t=rng.choice([0, 0, 1, -1]) * 10 ** 9)
                 for i in range(n) if rng.random() < .6]
    return dict(ims=ims, order=order, metrics=ms, opt=opt, alloc=alloc,
                again=again,
                illums=[rng.choice([None, 100., 5000.]) for _ in order]
                if rng.random() < .5 else None,
                gkw=rng.choice([{}, {}, dict(psf=False), dict(age=65),
                                dict(adaptmove=False, directmove=False)]),
                save=rng.random() < (.3 if gss else 0),
                cap=I.gen_cap(rng),
                gcap=rng.choice([None, 1, 2, 3]),
                nopt=rng.choice([None, None, None, 1, 2, 3, 5, 0]),
                env=rng.choice([None, None, "2", "junk"]),
                form=rng.choice(["args", "args", "list", "conf", "metfile"]),
                nopar=rng.random() < .3, ncpu=rng.choice([1, 2, 3, 4]),
                plan=I.gen_plan(rng, rng.choice([.1, .3]) if "fault" in fam
                                else 0),
                nfault=rng.choice([1, 1, 2]),
                wf=rng.choice([{"proc.kill": rng.choice([.01, .05, .2])},
                               {"proc.start": .3}])
                if b == "worker" else {},
                p_stay=rng.choice([.2, .5, .8, .95]))


def shrink(p):
    n = len(p["ims"])
    for i in range(len(p["order"])):
        if len(p["order"]) > 1:
            yield dict(p, order=p["order"][:i] + p["order"][i + 1:],
                       illums=p["illums"] and p["illums"][:i] +
                       p["illums"][i + 1:])
    for i in range(len(p["metrics"])):
        if len(p["metrics"]) > 1:
            yield dict(p, metrics=p["metrics"][:i] + p["metrics"][i + 1:])
    for k in p["opt"]:
        yield dict(p, opt={a: b for a, b in p["opt"].items() if a != k})
    for i in range(n):
        im = p["ims"][i]
        for v in (dict(head=[]), dict(dir="", name=f"z{i}"),
                  dict(w=4, h=4)):
            if any(im[k] != x for k, x in v.items()) and im["w"] >= 4:
                yield dict(p, ims=p["ims"][:i] + [dict(im, **v)] +
                           p["ims"][i + 1:])
    for k, v in (("again", None), ("nopt", None), ("env", None), ("nopar", False),
                 ("illums", None), ("gkw", {}), ("save", False),
                 ("form", "args")):
        if p[k] != v:
            yield dict(p, **{k: v})
    yield from I.shrink_common(p)


def write_images(p, d):
    paths = []
    for im in p["ims"]:
        f = os.path.join(d, im["dir"], im["name"] + ".hdr")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        how = im["how"]
        x = dict(im, w=im["w"] + 2) if how == "nonsquare" else im
        if how != "missing":
            I.write_hdr(f, x, im["head"])
        if how == "torn":
            os.truncate(f, os.path.getsize(f) - 1 - im["seed"] %
                        (im["w"] * im["h"]))
        elif how == "head":
            os.truncate(f, 5 + im["seed"] % 10)
        elif how == "empty":
            os.truncate(f, 0)
        elif how == "text":
            with open(f, "w") as fh:
                fh.write("1 2 3\n4 5 6\n")
        paths.append(f)
    return paths


def alone(path, metrics, opt, blur):
    """the metrics of one image in a pristine process -> {name: values}"""
    from raytools import imagetools
    from raytools.evaluate.hvsgsm import GSS
    out = {}
    for m in metrics:
        if m in ("gss", "gssnb"):
            kw = {} if m == "gss" else dict(psf=False, adaptmove=False,
                                            directmove=False)
            out[m] = [score(path, None, kw)]
    ms = [m for m in metrics if m not in out]
    if ms:
        r = [float(x) for x in imagetools.imgmetric(path, ms, **opt)]
        for m in ms:
            k = 3 if m == "irradiance" else 1
            out[m], r = r[:k], r[k:]
    return out


def score(path, illum, kw):
    from raytools.evaluate.hvsgsm import GSS
    g = GSS(path, **kw)
    g.lum = path
    return float(g.compute(ev_eye=illum))


def near(a, b, tol):
    return (a != a and b != b) or a == b or abs(a - b) <= tol * abs(b)


def run(p, sim):
    sim.sched.p_stay = p["p_stay"]
    fresh = Fresh()
    I.setup(p, sim)
    sim.opts["ncpu"] = p["ncpu"]
    if p["env"] is not None:
        os.environ["RAYTOOLS_PROC_CAP"] = p["env"]
    d = os.path.join(sim.scratch, "d")
    os.mkdir(d)
    paths = write_images(p, d)
    imgs = [paths[i] for i in p["order"]]
    bad = [p["ims"][i]["how"] for i in p["order"] if
           p["ims"][i]["how"] != "ok"]
    table = run_score if p["family"].startswith("score") else run_table
    table(p, sim, fresh, imgs, bad)
    if p.get("again") is not None:
        # once more, after some of the files were replaced
        for c in p["again"]:
            im = p["ims"][c["i"]]
            f = paths[c["i"]]
            if im["how"] == "ok":
                t = os.stat(f).st_mtime_ns + c["t"]
                I.write_hdr(f, dict(im, seed=c["seed"]), im["head"])
                os.utime(f, ns=(t, t))
        fresh.memo.clear()
        sim.count("tables_repeated")
        table(p, sim, fresh, imgs, bad)
    sim.nontrivial = len(imgs) > 1 or sim.injected > 0 or bool(bad)
    fresh.close()


def gen_memory(rng, none=.25):
    """faults of the caller and of workers"""
    return [None if rng.random() < none else
            draw(rng, rng.choice([4, 40, 200]),
                 only=["io.py", "imagetools"]) for _ in range(4)]


@contextlib.contextmanager
def memory(p, sim):
    """memory runs out at some call in the caller or in a worker"""
    ks = p.get("alloc")
    if not ks:
        yield
        return
    files = ["imagetools", "evaluate/", "io.py", "mapper", "translate"]
    sim.worker_alloc = (files, ks[1:])
    try:
        with fault(sim, files, ks[0]):
            yield
    finally:
        sim.worker_alloc = None


def run_score(p, sim, fresh, imgs, bad):
    from raytools.evaluate import hvsgsm
    sim.faults = p["wf"]
    kw = dict(p["gkw"])
    if p["gcap"]:
        kw["cap"] = p["gcap"]
    if p["illums"]:
        kw["illums"] = p["illums"]
    got = exc = None
    try:
        with memory(p, sim):
            got = hvsgsm.gss_compute(list(imgs), save=p["save"], **kw)
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        exc = ex
    sim.faults = {}
    I.quiet(sim)
    sim.sched.drain()
    sim.event("scores", type(exc).__name__, short(got))
    if exc is not None:
        if not bad and not sim.injected:
            raise Violation(f"gss_compute failed: {exc!r}")
        sim.count("runs_failed")
        return
    if bad:
        raise Violation(f"gss_compute returned {short(got)} although an image "
                        f"is {bad[0]}")
    if len(got) != len(imgs):
        raise Violation(f"{len(got)} scores for {len(imgs)} images")
    for j, (g, f) in enumerate(zip(got, imgs)):
        w = fresh(score, f, p["illums"][j] if p["illums"] else None, p["gkw"])
        if w[0] != "ok":
            raise Violation(f"image {j} is scored {g!r} although alone it "
                            f"raises {w[1:]}")
        if not near(float(g), w[1], 1e-9):
            raise Violation(f"image {j} of {len(imgs)} is scored {g!r}, alone "
                            f"{w[1]!r}")
        sim.count("rows")


def run_table(p, sim, fresh, imgs, bad):
    argv = [] if p["nopt"] is None else ["-n", str(p["nopt"])]
    form = p.get("form", "args")
    arg = " ".join(imgs)
    if form == "list":          # the images are listed in a file
        arg = "@" + os.path.join(sim.scratch, "images.txt")
        with open(arg[1:], "w") as f:
            f.write("\n".join(imgs) + "\n")
    ms = " ".join(p["metrics"])
    if form == "metfile":
        with open(os.path.join(sim.scratch, "metrics.txt"), "w") as f:
            f.write(ms + "\n")
        ms = "@" + f.name
    opts, conf = ["-metrics", ms], {"metrics": ms}
    opt = dict(peakn=True, peaka=6.7967e-05, peakt=1e5, peakr=4.,
               threshold=2000., scale=179., lumrgb=None, blursun=False,
               lowlight=False)
    opt.update(p["opt"])
    for k, v in p["opt"].items():
        x = " ".join(map(str, v)) if isinstance(v, list) else str(v)
        conf[k] = x
        opts += [("--" if v else "--no-") + k] if isinstance(v, bool) else \
            ["-" + k, x]
    if p["nopar"]:
        opts.append("--no-parallel")
        conf["parallel"] = "False"
    if p["save"]:
        opts.append("--gssimage")
        conf["gssimage"] = "True"
    if form == "conf":          # the options are set in a file
        cf = os.path.join(sim.scratch, "options.cfg")
        with open(cf, "w") as f:
            f.write("[raytools_metric]\n" + "".join(
                f"{k} = {x}\n" for k, x in conf.items()))
        argv += ["-c", cf]
        opts = []
    argv += ["metric", arg] + opts
    sim.count("form." + form)
    stdout_bytes(reset=True)
    sim.faults = p["wf"]
    with memory(p, sim):
        code, ex = O.cli(argv)
    sim.faults = {}
    I.quiet(sim)
    sim.sched.drain()
    text = stdout_bytes().decode("utf-8", "replace")
    sim.event("table", code, type(ex).__name__, len(text))
    lines = text.splitlines()
    ok = code == 0 and ex is None
    if not ok:
        if not bad and not sim.injected:
            raise Violation(f"metric failed without cause: status {code} "
                            f"{ex!r} {stderr_text()[-300:]}")
        row = [x for x in lines if x.startswith("image\t") or
               any(x.startswith(f + "\t") for f in imgs)]
        if row:
            raise Violation(f"a failing command (status {code}) printed "
                            f"{len(row)} lines of a table: {row[0]!r}")
        sim.count("runs_failed")
        return
    if bad:
        raise Violation(f"the command ended with status 0 although an image "
                        f"is {bad[0]}; it printed {short(text)}")
    if not lines:
        raise Violation("the command ended with status 0 without a table")
    names = lines[0].split("\t")
    if names[0] != "image" or sorted(names[1:]) != sorted(p["metrics"]):
        raise Violation(f"the header names {names}, the metrics are "
                        f"{p['metrics']}")
    if len(lines) - 1 != len(imgs):
        raise Violation(f"{len(lines) - 1} rows for {len(imgs)} images")
    got = [x.split("\t")[0] for x in lines[1:]]
    if got != imgs:
        raise Violation(f"the rows are for {got}, the images are {imgs}")
    for j, (x, f) in enumerate(zip(lines[1:], imgs)):
        w = fresh(alone, f, p["metrics"], opt, None)
        if w[0] != "ok":
            raise Violation(f"a row {x!r} although alone the image raises "
                            f"{w[1:]}")
        cols = x.split("\t")[1:]
        want = [(m, v) for m in names[1:] for v in w[1][m]]
        if len(cols) != len(want):
            raise Violation(f"row {j} has {len(cols)} values instead of "
                            f"{len(want)}: {x!r}")
        for c, (m, v) in zip(cols, want):
            try:
                c = float(c)
            except ValueError:
                raise Violation(f"row {j}: {m} is printed as {c!r}")
            if not near(c, v, 1.1e-5):
                raise Violation(f"row {j} of {len(imgs)}: {m} is {c!r}, alone "
                                f"the image gives {v!r}")
        sim.count("rows")
