"""C09 a reused glare-sensation object scores like a fresh one"""
import os
import shutil
import numpy as np
from sim import core, rgbe
from sim.fresh import Fresh, draw, fault
from checks.common import *
from checks import images as I

PROP = "C09"
FAMILIES = ["set", "hist", "fault", "hist-b", "alloc", "multi", "batch", "fault-b"]
RULE = ("a seeded history on one to three glare-sensation objects: loading "
        "images of several sizes (also missing, torn, not square, black, not "
        "an image), scoring with and without a given illuminance and response "
        "image, changing view (mapper, image header, none; also failing), "
        "changing age, focal length, pigmentation and kernel width, building "
        "new objects, and batch scoring, replacing "
        "image files, with helper process faults, full "
        "disks and MemoryError or an interrupt at a drawn call or line of "
        "loads, view changes, scorings and new objects; every score and "
        "response image is compared with a fresh object in a pristine process;"
        " non-trivial: a score was compared after at least one earlier load; "
        "distinct by recorded history")
REAL = IO_REAL + ["raytools.evaluate.hvsgsm"]
STUB = IO_STUB
ASSUME = ["a view mapper in use by an object is not itself reassigned behind "
          "its back", "scores agree to 1e-9 relative"]
QUICK_S = 40
VIEWS = [dict(d=[0, 1, 0], va=180), dict(d=[0, 1, 0], va=120),
         dict(d=[1, 0, 0], va=180), dict(d=[.3, -.5, .4], va=90),
         dict(d=[0, 0, -1], va=180), dict(d=[0, 1, 0], va=150)]
KINDS = ["rand", "glare", "glare", "grad", "log"]


def gen_step(rng, fam, nobj):
    k = rng.choice(["load"] * 6 + ["score"] * 5 + ["save", "ev", "view",
                   "view", "viewimg", "viewnone", "set", "bad", "badview",
                   "new", "newpath", "rewrite"])
    if fam == "set":        # settings are changed between scores
        k = rng.choice(["set", "set", "set", "score", "load", "view"])
    s = dict(k=k, o=rng.randrange(nobj), i=rng.randrange(6))
    if k in ("view", "new"):
        s["v"] = rng.randrange(len(VIEWS))
    if k == "set":
        s["a"], s["val"] = rng.choice([("age", 70), ("age", 25), ("f", 20.),
                                       ("pigmentation", .16), ("fwidth", 6),
                                       ("fwidth", 10), ("fwidth", 9),
                                       ("fwidth", 9.5), ("fwidth", 11)])
    if k == "rewrite":
        s.update(seed=rng.randrange(1 << 30), im=rng.randrange(6),
                 t=rng.choice([0, 0, 0, 1, -1]) * 10 ** 9)
    if k in ("bad", "badview"):
        s["how"] = rng.choice(["missing", "torn", "oblong", "text", "zero",
                               "empty", "header"])
    if k == "save":
        s["disk"] = rng.choice([None, None, 0, 60, "dir"])
    if fam == "alloc" and k in ("load", "view", "viewimg", "viewnone", "new",
                                "score", "save", "ev"):
        if rng.random() < .8:
            s["alloc"] = draw(rng, 20, (12, 60, 200))
    if fam == "batch":
        s.update(k=rng.choice(["batch", "batch", "load", "score"]) if
                 k != "rewrite" else k,
                 n=rng.choice([1, 2, 3, 5]), cap=rng.choice([None, 1, 2]),
                 save=rng.random() < .4, il=rng.random() < .3,
                 order=rng.randrange(100))
    return s


def gen(rng, fam, tier):
    b = fam.split("-")[0]
    nobj = rng.choice([2, 3]) if b == "multi" else 1
    n = rng.choice([4, 8, 12, 18]) if b != "batch" else rng.choice([1, 2, 3])
    sizes = rng.sample([4, 5, 6, 7, 9, 12], 2)
    if b == "set" or rng.random() < .25:    # kernels of several pixels
        sizes[0] = rng.choice([20, 24, 37, 48])
    ims = []
    for i in range(6):
        r = sizes[0] if rng.random() < .65 else sizes[1]
        ims.append(dict(w=r, h=r, kind=rng.choice(KINDS),
                        seed=rng.randrange(1 << 30),
                        v=rng.choice([None, None, 0, 1, 3, 5])))
    steps = []
    for _ in range(n):
        steps.append(gen_step(rng, fam, nobj))
        if steps[-1]["k"] != "score" and rng.random() < .5:
            steps.append(dict(k="score", o=steps[-1]["o"], i=0))
    p = dict(steps=steps, ims=ims, nobj=nobj,
             kw=rng.choice([{}, {}, dict(age=65), dict(psf=False),
                            dict(adaptmove=False, directmove=False),
                            dict(raw=True), dict(fwidth=5, scale=1)]),
             cap=I.gen_cap(rng), p_stay=rng.choice([.3, .6, .9]),
             ncpu=rng.choice([1, 2, 4]))
    if b == "fault":
        p["plan"] = I.gen_plan(rng, p=rng.choice([.1, .3]))
        p["nfault"] = rng.choice([1, 2, 4])
    return p


def shrink(p):
    s = p["steps"]
    for k in (len(s) // 2, len(s) - 1):
        if 0 < k < len(s):
            yield dict(p, steps=s[:k])
            yield dict(p, steps=s[-k:])
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    yield dict(p, kw={})
    for i, x in enumerate(p["ims"]):
        if x["w"] != 4:
            yield dict(p, ims=p["ims"][:i] + [dict(x, w=4, h=4)] +
                       p["ims"][i + 1:])


def view_line(v):
    return ("VIEW= -vta -vv {0} -vh {0} -vd {1} {2} {3} -vp 0 0 0 -vu 0 0 1"
            .format(v["va"], *v["d"]))


def mapper(v):
    from raytools.mapper import ViewMapper
    return ViewMapper(v["d"], v["va"])


def fresh_score(path, v, kw, ev=None, out=None):
    """score by a newly made object; with out also the response image"""
    from raytools.evaluate.hvsgsm import GSS
    g = GSS(None, **{k: x for k, x in kw.items()})
    g.vm = mapper(v)
    g.lum = path
    s = g.compute(save=out, ev_eye=ev)
    px = None
    if out:
        with open(out, "rb") as f:
            px = rgbe.decode(f.read())[0]
        os.unlink(out)
    return float(s), px


class Model:
    def __init__(self, g, kw, views):
        self.g, self.kw = g, dict(kw)
        self.views = views          # views that may be in force
        self.img = None             # image in force (None: none)
        self.maybe = False          # the image in force may also be none
        self.loads = 0


def run(p, sim):
    from raytools.evaluate.hvsgsm import GSS, gss_compute
    sc = sim.scratch
    fresh = Fresh()
    paths = []
    for i, im in enumerate(p["ims"]):
        f = os.path.join(sc, f"i{i}.hdr")
        I.write_hdr(f, im, ["SOFTWARE= x"] + ([view_line(VIEWS[im["v"]])] if
                                              im["v"] is not None else []))
        paths.append(f)
    bad = {k: os.path.join(sc, k + ".hdr") for k in
           ("missing", "torn", "oblong", "text", "zero", "empty", "header")}
    b = open(paths[0], "rb").read()
    open(bad["torn"], "wb").write(b[:-7])
    open(bad["header"], "wb").write(b[:18])
    open(bad["text"], "w").write("this is not an image\n" * 5)
    open(bad["empty"], "w").close()
    I.write_hdr(bad["oblong"], dict(w=6, h=5, kind="rand", seed=3), [])
    r = p["ims"][0]["w"]
    I.write_hdr(bad["zero"], dict(w=r, h=r, kind="zero", seed=3), [])
    copies = []                 # what each path holds now
    for f in paths:
        copies.append(f + ".0")
        shutil.copyfile(f, copies[-1])
    I.setup(p, sim)
    sim.opts["ncpu"] = p["ncpu"]
    sim.sched.p_stay = p["p_stay"]
    DEF = dict(d=[0, 1, 0], va=180)

    def new(kw, v=None):
        return Model(GSS(None if v is None else mapper(v), **kw), kw,
                     [v or DEF])
    objs = [new(p["kw"]) for _ in range(p["nobj"])]
    n = 0
    compared = 0

    def faulty(s):
        return fault(sim, ["mapper", "translate", "io.py", "imagetools",
                           "hvsgsm"], s.get("alloc"))

    def expect(m, ev=None, save=False):
        """possible scores of the object's state"""
        out = []
        if m.img is not None:
            for v in m.views:
                out.append(fresh(fresh_score, m.img, v, m.kw, ev,
                                 os.path.join(sc, ".f.hdr") if save else
                                 None))
        return out

    for j, s in enumerate(p["steps"]):
        k = s["k"]
        m = objs[s["o"] % len(objs)]
        g = m.g
        what = f"step {j} {s}"
        sim.count("step." + k)
        inj = sim.injected
        if k in ("load", "bad"):
            f = paths[s["i"]] if k == "load" else bad[s["how"]]
            with faulty(s):
                try:
                    g.lum = f
                    ex = None
                except (Violation, HarnessError):
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    ex = e
            if ex is None:
                if k == "bad" and s["how"] not in ("zero",):
                    raise Violation(f"loading a {s['how']} image does not "
                                    f"raise: {what}")
                m.img = copies[s["i"]] if k == "load" else f
                m.maybe, m.loads = False, m.loads + 1
            else:
                if k == "load" and sim.injected == inj:
                    raise Violation(f"loading a good image raises {ex!r}: "
                                    f"{what}")
                m.maybe = True
                sim.event("failed load", type(ex).__name__)
        elif k in ("view", "viewimg", "viewnone", "badview"):
            if k == "view":
                v, arg = VIEWS[s["v"]], mapper(VIEWS[s["v"]])
            elif k == "viewnone":
                v, arg = DEF, None
            elif k == "viewimg":
                im = p["ims"][s["i"]]
                v = DEF if im["v"] is None else VIEWS[im["v"]]
                arg = paths[s["i"]]
            else:
                v, arg = DEF, bad[s["how"]]
                i0 = p["ims"][0]["v"]
                if s["how"] == "torn" and i0 is not None:
                    v = VIEWS[i0]       # its header is complete
            with faulty(s):
                try:
                    g.vm = arg
                    ex = None
                except (Violation, HarnessError):
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    ex = e
            if ex is None:
                if k == "badview" and s["how"] in ("missing", "header",
                                                   "empty", "text"):
                    raise Violation(f"a view change from a {s['how']} file "
                                    f"does not raise: {what}")
                m.views = [v]
            else:
                if k != "badview" and sim.injected == inj and \
                        not unscorable(m, fresh, v):
                    raise Violation(f"a good view change raises {ex!r}: "
                                    f"{what}")
                m.maybe = True
                if v not in m.views:
                    m.views = m.views + [v]
                sim.event("failed view", type(ex).__name__)
        elif k == "rewrite":
            # the file is replaced; objects keep what they loaded from it
            i = s["i"]
            im = dict(p["ims"][i], seed=s["seed"])
            if s["im"] < 2:         # another image's size
                im.update(w=p["ims"][s["im"]]["w"], h=p["ims"][s["im"]]["w"])
            t = os.stat(paths[i]).st_mtime_ns + s["t"]
            copies[i] = paths[i] + f".{j + 1}"
            I.write_hdr(paths[i], im, ["SOFTWARE= x"] + (
                [view_line(VIEWS[im["v"]])] if im["v"] is not None else []))
            os.utime(paths[i], ns=(t, t))
            shutil.copyfile(paths[i], copies[i])
        elif k == "set":
            setattr(g, s["a"], s["val"])
            m.kw[s["a"]] = s["val"]
        elif k in ("new", "newpath"):
            with faulty(s):
                try:
                    if k == "new":
                        x = new(p["kw"], VIEWS[s["v"]])
                    else:
                        im = p["ims"][s["i"]]
                        x = Model(GSS(paths[s["i"]], **p["kw"]), p["kw"],
                                  [DEF if im["v"] is None else
                                   VIEWS[im["v"]]])
                        x.img = copies[s["i"]]
                        x.loads = 1
                    objs[s["o"] % len(objs)] = x
                except (Violation, HarnessError):
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    if sim.injected == inj:
                        raise Violation(f"a new object raises {e!r}: {what}")
        elif k in ("score", "save", "ev"):
            ev = 500. + s["i"] if k == "ev" else None
            out = None
            lim = None
            if k == "save":
                out = os.path.join(sc, f"o{n}.hdr")
                n += 1
                if s["disk"] == "dir":
                    out = os.path.join(sc, "nodir", "x.hdr")
                else:
                    lim = s["disk"]
            try:
                with I.disk_limit(lim), faulty(s):
                    got, ex = float(g.compute(save=out, ev_eye=ev)), None
            except (Violation, HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as e:
                got, ex = None, e
            want = expect(m, ev, save=out is not None and ex is None)
            if ex is not None:
                if s.get("alloc") is not None and sim.injected != inj:
                    continue
                if out is not None and (lim is not None or
                                        s["disk"] == "dir" or
                                        sim.injected != inj):
                    continue
                if m.img is None or m.maybe or \
                        any(w[0] == "exc" for w in want):
                    if m.maybe and g.lum is not None and want and \
                            all(w[0] == "ok" for w in want):
                        raise Violation(f"an image is in force after a failed"
                                        f" load but scoring it raises {ex!r}:"
                                        f" {what}")
                    continue
                raise Violation(f"scoring a loaded image raises {ex!r}: "
                                f"{what}")
            sim.event("score", round(got, 6) if got == got else "nan")
            if m.img is None:
                raise Violation(f"a score without an image: {got!r} at {what}")
            oks = [w[1] for w in want if w[0] == "ok"]
            if not oks:
                raise Violation(f"an object that was used before scores "
                                f"{got!r} where a fresh one raises: {what}")
            hit = [i for i, w in enumerate(want) if w[0] == "ok" and
                   close(got, w[1][0])]
            if not hit:
                raise Violation(
                    f"a reused object scores {got!r}, a fresh one "
                    f"{[w[0] for w in oks]!r}: {what} (loads before: "
                    f"{m.loads}, image {os.path.basename(m.img)})")
            m.views = [m.views[i] for i in hit]
            m.maybe = False
            compared += m.loads > 0
            if out is not None:
                px = I.decode_file(out, "response image")[0]
                if not any(w[0] == "ok" and np.array_equal(px, w[1][1])
                           for w in want):
                    raise Violation(f"the response image of a reused object "
                                    f"differs from a fresh one's: {what}")
        elif k == "batch":
            order = np.random.Generator(np.random.PCG64(s["order"]))
            fs = [paths[i] for i in order.integers(0, 6, s["n"])]
            il = [400. + 10 * i for i in range(len(fs))] if s["il"] else None
            if s["save"]:
                fs = list(dict.fromkeys(fs))
            od = os.path.join(sc, f"out{j}")
            il = il and il[:len(fs)]
            got = gss_compute(fs, il, save=s["save"], outdir=od,
                              cap=s["cap"], **p["kw"])
            if len(got) != len(fs):
                raise Violation(f"{len(got)} scores for {len(fs)} images")
            for a, f in enumerate(fs):
                im = p["ims"][paths.index(f)]
                v = DEF if im["v"] is None else VIEWS[im["v"]]
                w = fresh(fresh_score, copies[paths.index(f)], v, p["kw"], il and il[a],
                          os.path.join(sc, ".f.hdr") if s["save"] else None)
                if w[0] != "ok" or not close(got[a], w[1][0]):
                    raise Violation(f"batch score {a} is {got[a]!r}, a fresh "
                                    f"object gives {w!r}")
                if s["save"]:
                    o = os.path.join(od, os.path.basename(f).rsplit(".", 1)[0]
                                     + "_rg.hdr")
                    px = I.decode_file(o, "response image")[0]
                    if not np.array_equal(px, w[1][1]):
                        raise Violation("a batch response image differs from "
                                        "a fresh object's")
            compared += 1
            sim.event("batch", [round(float(x), 6) for x in got])
        # an object that has an image scores it; one without raises
    sim.nontrivial = compared > 0
    sim.count("compared", compared)
    I.quiet(sim)
    # the last word: every object loads and scores once more
    for m in objs:
        m.g.vm = mapper(VIEWS[1])
        m.views = [VIEWS[1]]
        m.g.lum = paths[1]
        m.img = copies[1]
        got = m.g.compute()
        w = expect(m)[0]
        if w[0] != "ok" or not close(float(got), w[1][0]):
            raise Violation(f"a reused object scores {got!r}, a fresh one "
                            f"{w!r}, at the end of the history")
    fresh.close()


def unscorable(m, fresh, v):
    """the image in force cannot be used with view v by a fresh object"""
    if m.img is None:
        return False
    return fresh(fresh_score, m.img, v, m.kw, None, None)[0] == "exc"
