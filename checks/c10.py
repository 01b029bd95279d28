"""C10 metric values do not depend on order, repetition, threads, neighbours"""
import gc
import os
import shutil
import numpy as np
from sim import core
from sim.fresh import Fresh, draw, fault
from checks.common import *
from checks import images as I

PROP = "C10"
FAMILIES = ["hist", "threads", "multi", "threads-c", "img", "threads-b",
            "hist-b", "threads-d", "imgthreads", "threads-e", "hist-fault",
            "multi-fault"]
RULE = ("a seeded history of metric requests (single properties, lists in any "
        "order with repeats, defaults, dependency arrays, peak "
        "normalisation, position indices) on one to four metric objects "
        "sharing ray arrays and view mappers, with objects dropped and "
        "rebuilt, or from two to four threads with line-level preemption, or "
        "through the image metric function; in two families memory runs out "
        "or an interrupt comes at a drawn line or call of some requests; each "
        "value is compared with a "
        "fresh object's in a pristine process and the inputs with copies; "
        "non-trivial: at least two values compared; distinct by recorded "
        "history")
REAL = ["raytools.evaluate, raytools.mapper, raytools.translate, "
        "raytools.imagetools", "functools.lru_cache, numpy, threading"]
STUB = ["lock, thread start (every switch is a seeded choice)",
        "subprocess.Popen and its pipes"]
ASSUME = ["the caller does not itself change the arrays, view mapper or "
          "settings while an object uses them", "values agree to 1e-9 "
          "relative"]
QUICK_S = 40
FILES = ["evaluate", "mapper", "translate", "imagetools"]
BASE = ["illum", "avglum", "loggcr", "gcr", "pwgcr", "logpwgcr", "density",
        "avgraylum", "pwavglum", "maxlum"]
METRIC = BASE + ["ugp", "dgp", "tasklum", "backlum", "dgp_t1", "log_gc",
                 "dgp_t2", "ugr", "threshold", "pwsl2", "view_area",
                 "backlum_true", "srcillum", "srcarea"]
COLOR = METRIC + ["irradiance"]
ARRAYS = ["ctheta", "radians", "pos_idx", "pweight", "pweighted_area"]
MARRAYS = ARRAYS + ["src_mask", "task_mask", "sources", "background",
                    "source_pos_idx"]
NAMES = dict(base=BASE, metric=METRIC, color=COLOR)


def gen_rays(rng):
    return dict(n=rng.choice([1, 2, 5, 20, 60, 120, 150, 300]),
                seed=rng.randrange(1 << 30),
                kind=rng.choice(["glare", "glare", "plain", "edge", "edge",
                                 "dark", "wide"]),
                norm=rng.random() < .7, color=False)


def gen_obj(rng, nr, nv, cls=None):
    cls = cls or rng.choice(["base", "metric", "metric", "metric", "color"])
    kw = {}
    if rng.random() < .4:
        kw["scale"] = rng.choice([1., 179., 100])
    if rng.random() < .5:
        kw["guth"] = rng.random() < .5
    if rng.random() < .5:
        kw["omega_as_view_area"] = rng.random() < .6
    if rng.random() < .2:
        kw["warn"] = True
    if cls != "base":
        if rng.random() < .6:
            kw["threshold"] = rng.choice([2000., 5., 3, 500, 1e5])
        if rng.random() < .3:
            kw["tradius"] = rng.choice([10., 60.])
        if rng.random() < .3:
            kw["lowlight"] = True
    if rng.random() < .3:
        kw["metricset"] = rng.sample(NAMES[cls], rng.choice([1, 2, 4]))
    if cls == "color" and rng.random() < .4:
        kw["vlambda"] = rng.choice([[.2, .7, .1], [1, 0, 0]])
    return dict(cls=cls, rays=rng.randrange(nr), view=rng.randrange(nv),
                kw=kw)


def gen_step(rng, objs, nt):
    o = rng.randrange(len(objs))
    cls = objs[o]["cls"]
    k = rng.choice(["get"] * 6 + ["call"] * 4 + ["default", "array", "array",
                   "rebuild", "peak", "position"])
    s = dict(k=k, o=o, t=rng.randrange(nt))
    if k == "get":
        s["m"] = rng.choice(NAMES[cls])
    elif k == "call":
        n = rng.choice([1, 2, 3, 5, 8])
        s["m"] = [rng.choice(NAMES[cls]) for _ in range(n)]
    elif k == "array":
        s["m"] = rng.choice(ARRAYS if cls == "base" else MARRAYS)
    elif k == "peak":
        s["kw"] = rng.choice([{}, dict(returnparts=True),
                              dict(keepzeros=True),
                              dict(findsecondary=True),
                              dict(blursun=False, peakc=1.5)])
    elif k == "position":
        s["g"] = rng.random() < .5
    return s


def gen(rng, fam, tier):
    b = fam.split("-")[0]
    if b in ("img", "imgthreads"):
        ims = [dict(I.gen_image(rng, True, 8, ["glare", "rand", "grad"]),
                    v=rng.randrange(3)) for _ in range(rng.choice([1, 2, 3]))]
        calls = []
        for _ in range(rng.choice([2, 3, 5])):
            color = rng.random() < .3
            calls.append(dict(i=rng.randrange(len(ims)),
                              m=[rng.choice(COLOR if color else METRIC) for _
                                 in range(rng.choice([1, 2, 4]))],
                              kw=rng.choice([{}, dict(peakn=True),
                                             dict(threshold=5.),
                                             dict(lowlight=True),
                                             dict(peakn=True, peakt=100)]),
                              t=rng.randrange(2)))
            if b == "img" and len(calls) > 1 and rng.random() < .3:
                calls[-1].update(new=rng.randrange(1, 1 << 30),
                                 dt=rng.choice([0, 0, 0, 1, -1]) * 10 ** 9)
        return dict(ims=ims, calls=calls, p_stay=rng.choice([.3, .7, .95]))
    nr = rng.choice([1, 1, 2, 3])
    nv = rng.choice([1, 1, 2])
    nt = rng.choice([2, 2, 3, 4]) if b == "threads" else 1
    no = {"hist": 1, "threads": nt, "multi": rng.choice([2, 3, 4])}[b]
    cls = rng.choice([None, None, "metric", "color"])
    objs = [gen_obj(rng, nr, nv, cls) for _ in range(no)]
    if b in ("threads", "multi") and rng.random() < .5:
        for o in objs[1:]:      # same class and settings, other rays
            o.update(cls=objs[0]["cls"], kw=objs[0]["kw"])
    steps = [gen_step(rng, objs, 1) for _ in range(rng.choice([3, 6, 10]) *
                                                   (1 if nt == 1 else 2))]
    if nt > 1:
        if rng.random() < .75:  # the same requests at the same time
            names = set(NAMES[objs[0]["cls"]])
            for o in objs:
                names &= set(NAMES[o["cls"]])
            ms = rng.sample(sorted(names), rng.choice([1, 2, 3]))
            steps = []
            for m in ms * rng.choice([1, 2]):
                k = rng.choice(["get", "call", "position", "peak", "get"])
                for o in range(no):
                    if steps and rng.random() < .6:
                        steps.append(dict(k="rebuild", o=o))
                    steps.append(dict(k=k, o=o, m=[m] if k == "call" else m,
                                      g=rng.random() < .5, kw={}))
        for s in steps:         # every thread has its own object
            s["t"] = s["o"]
    if fam.endswith("-fault"):  # memory runs out, or an interrupt
        for s in steps:
            if rng.random() < .5:
                s["fault"] = draw(rng, 12, (4, 25, 90))
    rays = [gen_rays(rng) for _ in range(nr)]
    views = [dict(d=rng.choice([[0, 1, 0], [0, 1, 0], [1, 0, 0], [.5, .5, -.2],
                                [0, 0, 1], [0, 0, -1]]),
                  va=rng.choice([180, 180, 180, 90, 60, 360]))
             for _ in range(nv)]
    return dict(rays=rays, views=views, objs=objs, steps=steps, nt=nt,
                p_stay=rng.choice([.2, .5, .8, .95]))


def shrink(p):
    if "calls" in p:
        s = p["calls"]
        for i in range(len(s)):
            if len(s) > 1:
                yield dict(p, calls=s[:i] + s[i + 1:])
        return
    s = p["steps"]
    for k in (len(s) // 2, len(s) - 1):
        if 0 < k < len(s):
            yield dict(p, steps=s[:k])
            yield dict(p, steps=s[-k:])
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
        if s[i].get("fault") is not None:
            yield dict(p, steps=s[:i] + [dict(s[i], fault=None)] + s[i + 1:])
    for i, x in enumerate(s):
        if x["k"] == "call" and len(x["m"]) > 1:
            for j in range(len(x["m"])):
                yield dict(p, steps=s[:i] + [dict(x, m=x["m"][:j] +
                                                  x["m"][j + 1:])] +
                           s[i + 1:])
    for i, r in enumerate(p["rays"]):
        for n in (2, 5, 20):
            if r["n"] > n:
                yield dict(p, rays=p["rays"][:i] + [dict(r, n=n)] +
                           p["rays"][i + 1:])
    for i, o in enumerate(p["objs"]):
        if o["kw"]:
            yield dict(p, objs=p["objs"][:i] + [dict(o, kw={})] +
                       p["objs"][i + 1:])


def mapper(v):
    from raytools.mapper import ViewMapper
    return ViewMapper(v["d"], v["va"])


def rays(r, v, color=False):
    g = np.random.Generator(np.random.PCG64(r["seed"]))
    n = r["n"]
    d = np.array(v["d"], float)
    d = d / np.linalg.norm(d)
    k = r["kind"]
    va = min(v["va"], 180) * np.pi / 360
    x = g.normal(size=(n, 3))
    x /= np.linalg.norm(x, axis=1)[:, None]
    lum = g.random(n) * 10 + .1
    om = np.full(n, 2 * np.pi / n) * (.5 + g.random(n))
    if k != "wide":
        ang = np.arccos(np.clip(x @ d, -1, 1))
        t = x - (x @ d)[:, None] * d
        t /= np.linalg.norm(t, axis=1)[:, None] + 1e-12
        new = ang / np.pi * va * 1.02
        x = np.cos(new)[:, None] * d + np.sin(new)[:, None] * t
    if k == "dark":
        lum *= 0
    if k in ("glare", "wide", "edge") and n > 1:
        j = g.integers(0, n, max(1, n // 15))
        lum[j] = 10 ** g.uniform(2, 6, len(j))
        om[j] = 10 ** g.uniform(-5, -2, len(j))
        if k == "edge":
            t = x[j] - (x[j] @ d)[:, None] * d
            t /= np.linalg.norm(t, axis=1)[:, None] + 1e-12
            a = va + g.uniform(-.002, .01, len(j))[:, None]
            x[j] = np.cos(a) * d + np.sin(a) * t
    if not r["norm"]:
        x *= g.uniform(.5, 2, (n, 1))
    if color:
        lum = lum[:, None] * (g.random((1, 3)) + .2)
    return x, om, lum


def build(o, vol, vm):
    from raytools.evaluate import MetricSet
    from raytools.evaluate.basemetricset import BaseMetricSet
    from raytools.evaluate.colormetricset import ColorMetricSet
    c = dict(base=BaseMetricSet, metric=MetricSet, color=ColorMetricSet)
    return c[o["cls"]](*vol, vm, **o["kw"])


def request(ob, s, vol, vm):
    """value(s) of one step on one object"""
    k = s["k"]
    with np.errstate(all="ignore"):
        if k in ("get", "array"):
            return getattr(ob, s["m"])
        if k == "call":
            return ob(list(s["m"]))
        if k == "default":
            return ob()
        if k == "peak":
            from raytools.imagetools import normalize_peak
            return normalize_peak(*vol, **s["kw"])
        if k == "position":
            from raytools.evaluate.positionindex import PositionIndex
            return PositionIndex(s["g"]).positions(vm, vol[0])


def safely(fn, *a):
    try:
        return ("ok", fn(*a))
    except (Violation, HarnessError):
        raise
    except (Exception, KeyboardInterrupt) as ex:
        return ("exc", type(ex).__name__, str(ex)[:200])


def fresh_value(r, v, o, s):
    """the step on a new object in a pristine process; a list of metrics is
    evaluated one at a time, each by its own object"""
    def new():
        vol = rays(r, v, o["cls"] == "color")
        vm = mapper(v)
        return build(o, vol, vm), vol, vm
    if s["k"] == "call" or s["k"] == "default":
        ms = s["m"] if s["k"] == "call" else \
            list(new()[0].defaultmetrics)
        out = []
        for m in ms:
            ob, vol, vm = new()
            with np.errstate(all="ignore"):
                out.append(np.atleast_1d(getattr(ob, m)))
        return np.concatenate(out) if out else np.array([])
    ob, vol, vm = new()
    return request(ob, s, vol, vm)


def fresh_many(r, v, o, steps):
    """several steps in one pristine process, each with new objects"""
    return [safely(fresh_value, r, v, o, s) for s in steps]


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return close(a, b)


def state(vm):
    out = {k: np.array(v) for k, v in vars(vm).items()
           if isinstance(v, (int, float, str, np.ndarray, tuple, list))}
    if getattr(vm, "_ivm", None) is not None:
        out["ivm"] = state(vm._ivm)
    return out


def flat(d, p=""):
    for k, v in sorted(d.items()):
        if isinstance(v, dict):
            yield from flat(v, p + k + ".")
        else:
            yield p + k, v


def unchanged(a, b, what):
    a, b = dict(flat(a)), dict(flat(b))
    for k in a:
        if k not in b or not deep_eq(a[k], b[k]):
            raise Violation(f"the view object was changed: {k} is {b.get(k)} "
                            f"instead of {a[k]} after {what}")


def run(p, sim):
    sim.sched.p_stay = p["p_stay"]
    fresh = Fresh()
    if "calls" in p:
        return run_img(p, sim, fresh)
    views = [mapper(v) for v in p["views"]]
    vols = {}

    def vol_of(o):
        key = (o["rays"], o["view"], o["cls"] == "color")
        if key not in vols:
            vols[key] = rays(p["rays"][o["rays"]], p["views"][o["view"]],
                             key[2])
        return vols[key]
    for o in p["objs"]:
        vol_of(o)
    keep = {k: [np.copy(a) for a in v] for k, v in vols.items()}
    vstate = [state(v) for v in views]
    first = [safely(build, o, vol_of(o), views[o["view"]]) for o in p["objs"]]
    objs = [f[1] if f[0] == "ok" else None for f in first]
    results = []

    def inputs(what):
        for k, v in vols.items():
            for a, b, n in zip(v, keep[k], ("vec", "omega", "lum")):
                if not deep_eq(a, b):
                    raise Violation(f"the input array {n} was changed by "
                                    f"{what}")
        for a, v in zip(vstate, views):
            unchanged(a, state(v), what)

    def step(j, s, concurrent):
        oi = s["o"]
        o = p["objs"][oi]
        if s["k"] == "rebuild":
            objs[oi] = None
            if not concurrent:
                gc.collect()
            with fault(sim, FILES, s.get("fault")):
                r = safely(build, o, vol_of(o), views[o["view"]])
            objs[oi] = r[1] if r[0] == "ok" else None
            return
        if objs[oi] is None:
            return
        inj = sim.injected
        with fault(sim, FILES, s.get("fault")):
            got = safely(request, objs[oi], s, vol_of(o), views[o["view"]])
        if sim.injected != inj:
            sim.event("fault", s["k"], s.get("m"), got[0])
            inputs(f"step {j} {s}, which failed")
            if got[0] == "exc":
                sim.count("failed")
                return
        if got[0] == "ok" and isinstance(got[1], np.ndarray):
            got = ("ok", np.copy(got[1]))
        results.append((j, s, o, got))
        if not concurrent:
            inputs(f"step {j} {s}")
    if p["nt"] == 1:
        for j, s in enumerate(p["steps"]):
            step(j, s, False)
    else:
        def thread(t):
            for j, s in enumerate(p["steps"]):
                if s["t"] == t:
                    step(j, s, True)
        run_threads(sim, [lambda t=t: thread(t) for t in range(p["nt"])])
        inputs("the threads")
    n = 0
    many = {}
    if p["family"] not in ("hist-b", "multi"):
        for j, s, o, got in results:
            many.setdefault(repr(o), (o, {}))[1][
                repr((s["k"], s.get("m"), s.get("kw"), s.get("g")))] = s
        for ko, (o, d) in many.items():
            ks = sorted(d)
            w = fresh(fresh_many, p["rays"][o["rays"]],
                      p["views"][o["view"]], o, [d[k] for k in ks])
            many[ko] = dict(zip(ks, w[1])) if w[0] == "ok" else {}
    for j, s, o, got in results:
        sim.event(j, s["k"], s.get("m"), short(got, 60) if got[0] != "ok" or
                  s["k"] != "get" else repr(np.round(np.asarray(got[1], float),
                                                     9)))
        want = many.get(repr(o), {}).get(
            repr((s["k"], s.get("m"), s.get("kw"), s.get("g")))) or \
            fresh(fresh_value, p["rays"][o["rays"]], p["views"][o["view"]],
                  o, s)
        if got[0] != want[0] or (got[0] == "ok" and not same(got[1],
                                                             want[1])) or \
                (got[0] == "exc" and got[1] != want[1]):
            raise Violation(
                f"a metric value differs from a fresh evaluation: "
                f"{s['k']} {s.get('m')} gives {short(got[1:])}, alone "
                f"{short(want[1:])} (step {j} of {len(p['steps'])}, "
                f"{p['nt']} threads, {len(objs)} objects)")
        n += got[0] == "ok"
        sim.count("values")
    sim.nontrivial = n > 1
    fresh.close()


def imgvalue(path, ms, kw):
    from raytools.imagetools import imgmetric
    return np.array(imgmetric(path, ms, **kw))


def run_img(p, sim, fresh):
    from raytools.imagetools import imgmetric
    V = ["VIEW= -vta -vp 0 0 0 -vd 0 1 0 -vu 0 0 1 -vh 180 -vv 180",
         "VIEW= -vta -vp 0 0 0 -vd 1 1 0 -vu 0 0 1 -vh 90 -vv 90",
         "luminancergb= 0.2 0.7 0.1"]
    paths = []
    for i, im in enumerate(p["ims"]):
        f = os.path.join(sim.scratch, f"i{i}.hdr")
        I.write_hdr(f, im, [V[im["v"]]])
        paths.append(f)
    results = []

    copies = []                 # what each path held at the time
    for f in paths:
        copies.append(f + ".copy")
        shutil.copyfile(f, f + ".copy")

    def one(j, c):
        if c.get("new"):
            im = dict(p["ims"][c["i"]], seed=c["new"])
            t = os.stat(paths[c["i"]]).st_mtime_ns + c["dt"]
            copies[c["i"]] = os.path.join(sim.scratch, f"copy{j}.hdr")
            for f in (paths[c["i"]], copies[c["i"]]):
                I.write_hdr(f, im, [V[im["v"]]])
                os.utime(f, ns=(t, t))
            sim.count("replaced_images")
        got = safely(imgvalue, paths[c["i"]], list(c["m"]), dict(c["kw"]))
        results.append((j, c, got, copies[c["i"]]))
    nt = 2 if p["family"] == "imgthreads" else 1
    if nt == 1:
        for j, c in enumerate(p["calls"]):
            one(j, c)
    else:
        def thread(t):
            for j, c in enumerate(p["calls"]):
                if c["t"] == t:
                    one(j, c)
        run_threads(sim, [lambda t=t: thread(t) for t in range(nt)])
    for j, c, got, copy in results:
        sim.event(j, c["m"], short(got, 200))
        want = []
        for m in c["m"]:
            # one at a time; a colour metric makes the whole set colour
            extra = ["irradiance"] if "irradiance" in c["m"] and \
                m != "irradiance" else []
            w = fresh(imgvalue, copy, [m] + extra, c["kw"])
            if w[0] != "ok":
                want = w
                break
            want.append(w[1][:-3] if extra else w[1])
        if isinstance(want, list):
            want = ("ok", np.concatenate(want))
        if got[0] != want[0] or (got[0] == "ok" and not
                                 same(got[1], want[1])):
            raise Violation(f"image metrics {c['m']} {c['kw']} give "
                            f"{short(got[1:])}, each alone {short(want[1:])}")
        sim.count("values", len(c["m"]))
    sim.nontrivial = len(results) > 1
    fresh.close()
