"""C11 shared or reconfigured mappers act like fresh ones; inputs intact"""
import copy
import os
import pickle
import numpy as np
from sim import core
from sim.fresh import Fresh
from checks.common import *
from checks import images as I

PROP = "C11"
FAMILIES = ["hist", "threads", "multi", "threads-b", "trans", "threads-c",
            "image", "hist-b", "threads-d"]
RULE = ("a seeded history of coordinate transforms, mapper methods, "
        "reassignments of direction or aspect, module level transforms and "
        "image-array transforms on one to three mappers of all classes with "
        "shared argument arrays, alone or from two to four threads with "
        "line-level preemption; results are compared with newly built mappers"
        " in a pristine process and every argument array with a copy, and "
        "returned arrays are overwritten by the caller; non-trivial: at least "
        "two results compared; distinct by recorded history")
REAL = ["raytools.mapper, raytools.translate, raytools.imagetools", "numpy, "
        "scipy, threading"]
STUB = ["lock, thread start (every switch is a seeded choice)"]
ASSUME = ["no thread reassigns a mapper while others use it", "results agree "
          "to 1e-9", "the aspect is reassigned only for the plain Mapper (the "
          "others take none)"]
QUICK_S = 40
DIRS = [[0, 1, 0], [1, 0, 0], [0, 0, 1], [0, 0, -1], [.3, -.5, .4],
        [-2, 1, .5], [0, -1, 0], [.1, .2, .9999], [1e-3, 0, 1]]


def gen_map(rng, k=None):
    return dict(k=k or rng.choice(["view", "view", "view360", "mapper",
                                   "solid", "persp"]),
                d=rng.choice(DIRS), va=rng.choice([180, 180, 90, 45, 170]),
                w=rng.choice([1, 2, .5]), h=rng.choice([1, 1.5]),
                aspect=rng.choice([None, None, 2, .5]))


def make(m):
    from raytools.mapper.mapper import Mapper
    from raytools.mapper.viewmapper import ViewMapper
    from raytools.mapper.solidviewmapper import SolidViewMapper
    from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper
    k = m["k"]
    if k == "view":
        return ViewMapper(m["d"], m["va"])
    if k == "view360":
        return ViewMapper(m["d"], 360)
    if k == "solid":
        return SolidViewMapper(m["d"], m["va"])
    if k == "persp":
        return PerspectiveViewMapper(m["d"], min(m["va"], 170), 60)
    return Mapper(m["d"], sf=(m["w"], m["h"]), bbox=((0, 0),
                                                    (m["w"], m["h"])),
                  aspect=m["aspect"], origin=(1, 2, 3))


# argument kinds; each is made once and shared by every call that uses it
def arg(a):
    g = np.random.Generator(np.random.PCG64(a["seed"]))
    n, k = a["n"], a["k"]
    if k in ("xyz", "xyz1"):
        x = g.normal(size=(n, 3))
        x /= np.linalg.norm(x, axis=1)[:, None]
        if a.get("special"):
            x[0] = (0, 0, 1)
            x[-1] = (0, -1, 0)
        return x[0] if k == "xyz1" else x
    if k == "uv":
        return g.random((n, 2))
    if k == "uv2":
        return g.random((n, 2)) * (2, 1)
    if k == "bins":
        return g.integers(0, 36, n)
    if k == "ang":
        return g.uniform(-1, 3, (n, 2))
    if k == "aa":
        return g.uniform(-80, 80, (n, 2))
    if k == "c":
        return g.uniform(0, 2, n)
    if k == "pxy":
        return g.uniform(0, 6, (n, 2))
    if k == "img":
        return g.random((6, 6))
    if k == "img3":
        return g.random((3, 6, 6))
    if k == "imgw":
        return g.random((12, 6))
    if k == "imgw3":
        return g.random((3, 12, 6))
    if k == "w":
        return g.random(n) + .01
    if k == "idx":
        return g.integers(0, 30, n)
    if k == "idx4":
        return g.integers(0, 256, (n, 4))
    if k == "sorted":
        return np.sort(g.random(n + 3))
    if k == "unsorted":
        return g.random(n + 3)
    raise core.HarnessError(k)


# mapper methods: name -> (classes or None, argument kinds, call)
ANG = ("view", "view360", "solid", "persp")
M = {
    "view2world": (None, ["xyz"], lambda v, x: v.view2world(x)),
    "world2view": (None, ["xyz"], lambda v, x: v.world2view(x)),
    "xyz2uv": (None, ["xyz"], lambda v, x: v.xyz2uv(x)),
    "uv2xyz": (None, ["uv"], lambda v, x: v.uv2xyz(x)),
    "uv2xyz_o": (None, ["uv"], lambda v, x: v.uv2xyz(x, True)),
    "xyz2vxy": (None, ["xyz"], lambda v, x: v.xyz2vxy(x)),
    "vxy2xyz": (None, ["uv"], lambda v, x: v.vxy2xyz(x)),
    "vxy2xyz_o": (None, ["uv"], lambda v, x: v.vxy2xyz(x, True)),
    "pixels": (None, [], lambda v: v.pixels(5)),
    "pixels9": (None, [], lambda v: v.pixels(9)),
    "pixelrays": (None, [], lambda v: v.pixelrays(6)),
    "pixelrays4": (None, [], lambda v: v.pixelrays(4)),
    "ray2pixel": (None, ["xyz"], lambda v, x: v.ray2pixel(x, 6)),
    "ray2pixelf": (None, ["xyz"], lambda v, x: v.ray2pixel(x, 6, False)),
    "pixel2ray": (None, ["pxy"], lambda v, x: v.pixel2ray(x, 6)),
    "pixel2omega": (None, ["pxy"], lambda v, x: v.pixel2omega(x, 6)),
    "in_view": (None, ["xyz"], lambda v, x: v.in_view(x)),
    "in_viewm": (None, ["xyz"], lambda v, x: v.in_view(x, False)),
    "in_viewt": (ANG, ["xyz"], lambda v, x: v.in_view(x, False, .1)),
    "ctheta": (ANG, ["xyz"], lambda v, x: v.ctheta(x)),
    "ctheta1": (ANG, ["xyz1"], lambda v, x: v.ctheta(x)),
    "radians": (ANG, ["xyz"], lambda v, x: v.radians(x)),
    "degrees": (ANG, ["xyz"], lambda v, x: v.degrees(x)),
    "header": (None, [], lambda v: v.header()),
    "headerpt": (ANG, [], lambda v: v.header((1, 2, 3), "vte")),
    "framesize": (None, [], lambda v: v.framesize(7)),
    "dxyz": (None, [], lambda v: np.copy(v.dxyz)),
    "props": (None, [], lambda v: (v.aspect, v.area, np.copy(v.bbox))),
    "ivm": (ANG, ["xyz"], lambda v, x: v.ivm and v.ivm.xyz2uv(x)),
    "idx2uv": (None, ["idx"], lambda v, x: v.idx2uv(x, (5, 6), False)),
    "uv2idx": (None, ["uv"], lambda v, x: v.uv2idx(x, (5, 6))),
    "init_img": (ANG, [], lambda v: v.init_img(5)),
    "init_imgf": (ANG, [], lambda v: v.init_img(5, (1, 2, 3), 3)),
    "init_imgu": (ANG, [], lambda v: v.init_img(5, viewproj="uv")),
    "init_imge": (("view",), [], lambda v: v.init_img(5, viewproj="vte")),
    "init_imgm": (ANG, [], lambda v: v.init_img(4, indices=False)),
    "init_imgp": (("mapper",), [], lambda v: v.init_img(4)),
    "add_vecs": (None, ["xyz", "img"], lambda v, x, i:
                 v.add_vecs_to_img(np.copy(i), x)),
    "add_vecs3": (ANG, ["xyz", "img3"], lambda v, x, i:
                  v.add_vecs_to_img(np.copy(i), x, (1, None, 3), 1)),
    "add_vecsu": (ANG, ["xyz", "imgw"], lambda v, x, i:
                  v.add_vecs_to_img(np.copy(i), x, 2, 0, False)),
    "solid_xyz2vxy": (("view", "solid"), ["xyz"],
                      lambda v, x: v.solid_xyz2vxy(x)),
    "solid_vxy2xyz": (("view", "solid"), ["uv"],
                      lambda v, x: v.solid_vxy2xyz(x)),
    "solid_pixelrays": (("view",), [], lambda v: v.solid_pixelrays(5)),
    "solid_ray2pixel": (("view",), ["xyz"],
                        lambda v, x: v.solid_ray2pixel(x, 6)),
    "transform_to": (("view", "solid", "persp"), ["img"], lambda v, i:
                     v.transform_to(i, other(v))),
    "transform_to3": (("view", "solid"), ["img3"], lambda v, i:
                      v.transform_to(i, other(v), True)),
}


def other(v):
    from raytools.mapper import ViewMapper
    return ViewMapper(np.copy(v.dxyz), 150)


def _t():
    from raytools import translate
    return translate


def _it():
    from raytools import imagetools
    return imagetools


T = {
    "norm": (["xyz"], lambda x: _t().norm(x)),
    "norm1": (["xyz1"], lambda x: _t().norm1(x)),
    "uv2xy": (["uv2"], lambda x: _t().uv2xy(x)),
    "uv2xyz": (["uv2"], lambda x: _t().uv2xyz(x)),
    "xyz2uv": (["xyz"], lambda x: _t().xyz2uv(x)),
    "xyz2uvn": (["xyz"], lambda x: _t().xyz2uv(x, True, flipu=True)),
    "xyz2skybin": (["xyz"], lambda x: _t().xyz2skybin(x, 6)),
    "xyz2skybint": (["xyz1"], lambda x: _t().xyz2skybin(x, 6, .1)),
    "skybin2xyz": (["bins"], lambda x: _t().skybin2xyz(x, 6)),
    "xyz2xy": (["xyz"], lambda x: _t().xyz2xy(x)),
    "xyz2xyf": (["xyz"], lambda x: _t().xyz2xy(x, flip=True)),
    "tpnorm": (["ang"], lambda x: _t().tpnorm(x)),
    "tp2xyz": (["ang"], lambda x: _t().tp2xyz(x)),
    "tp2xyzn": (["ang"], lambda x: _t().tp2xyz(x, False)),
    "xyz2tp": (["xyz"], lambda x: _t().xyz2tp(x)),
    "aa2xyz": (["aa"], lambda x: _t().aa2xyz(x)),
    "xyz2aa": (["xyz"], lambda x: _t().xyz2aa(x)),
    "chord2theta": (["c"], lambda x: _t().chord2theta(x)),
    "theta2chord": (["c"], lambda x: _t().theta2chord(x)),
    "ctheta": (["xyz1", "xyz"], lambda a, x: _t().ctheta(a, x)),
    "degrees": (["xyz1", "xyz"], lambda a, x: _t().degrees(a, x)),
    "uv2ij": (["uv2"], lambda x: _t().uv2ij(x, 6)),
    "uv2bin": (["uv"], lambda x: _t().uv2bin(x, 6)),
    "bin2uv": (["bins"], lambda x: _t().bin2uv(x, 6)),
    "rmtx_elem": ([], lambda: _t().rmtx_elem(33., 1)),
    "rotate_elem": (["xyz"], lambda x: _t().rotate_elem(x, 33.)),
    "rmtx_yp": (["xyz"], lambda x: _t().rmtx_yp(x)),
    "cull": (["xyz"], lambda x: _t().cull_vectors(x, .4)),
    "reflect": (["xyz", "xyz"], lambda x, y: _t().reflect(x, y)),
    "resample": (["img"], lambda x: _t().resample(x, (12, 12))),
    "resampled": (["img"], lambda x: _t().resample(x, (3, 3))),
    "wquant": (["c", "w"], lambda x, w: _t().weighted_quantile(x, w, .3)),
    "nugf": (["sorted", "sorted"], lambda x, y:
             _t().non_uniform_gaussian_filter(x, y, sigma=.1)),
    "nugfr": (["unsorted", "sorted"], lambda x, y:
              _t().non_uniform_gaussian_filter(x, y, y, .1)),
    "take": (["img"], lambda x: _t().simple_take(x, [0, 2], None)),
    "wmedian": (["c", "w"], lambda x, w: _t().weighted_median(x, w)),
    "nugfq": (["sorted", "sorted"], lambda x, y:
              _t().non_uniform_gaussian_filter(x, y, sigma=.1,
                                               amethod=[.2, .8])),
    "nugfm": (["sorted", "unsorted"], lambda x, y:
              _t().non_uniform_gaussian_filter(x, y[None], sigma=.1, bw=2,
                                               amethod="median")),
    "hpsf": (["c"], lambda x: _r().hpsf(x)),
    "inv_hpsf": (["w"], lambda x: _r().inv_hpsf(x)),
    "blur_sun": (["w", "c"], lambda x, y: _r().blur_sun(x, y)),
    "rgcf": (["uv"], lambda x: _r().rgcf_density(x)),
    "rgc": (["uv"], lambda x: _r().rgc_density(x)),
    "rgc_xy": (["aa"], lambda x: _r().rgcf_density_xy(x)),
    "posvec": (["xyz1", "xyz"], lambda v, x: _p().positions_vec(v, x)),
    "posveck": (["xyz1", "xyz"], lambda v, x: _p(False).positions_vec(v, x)),
    "rgbe2lum": (["idx4"], lambda x: _io().rgbe2lum(x)),
}
A = {
    "uv2ang": (["img"], lambda i: _it().array_uv2ang(i)),
    "uv2ang3": (["img3"], lambda i: _it().array_uv2ang(i)),
    "uv2angw": (["imgw"], lambda i: _it().array_uv2ang(i)),
    "uv2angw3": (["imgw3"], lambda i: _it().array_uv2ang(i)),
    "ang2uv": (["img"], lambda i: _it().array_ang2uv(i)),
    "ang2uv3": (["img3"], lambda i: _it().array_ang2uv(i)),
    "rot": (["img"], lambda i: _it().array_rotate(i, 30.)),
    "rot3": (["img3"], lambda i: _it().array_rotate(i, -70., nearest=True)),
    "rotc": (["img"], lambda i: _it().array_rotate(i, 30., (2, 3), False)),
    "rotc3": (["img3"], lambda i: _it().array_rotate(i, 0, (2, 3, 4, 4))),
    "s2a": (["img"], lambda i: _it().array_solid2ang(i)[0]),
    "s2ar": (["img3"], lambda i: _it().array_solid2ang(i, True, True,
                                                       returnvm=False)),
    "peak": (["xyz", "w", "c"], lambda x, w, c:
             _it().normalize_peak(x, w, c * 1000)),
    "rgb2rad": (["xyz"], lambda x: _io().rgb2rad(np.abs(x))),
    "rgb2lum": (["xyz"], lambda x: _io().rgb2lum(x)),
}


def _io():
    from raytools import io
    return io


def _r():
    from raytools.evaluate import retina
    return retina


def _p(guth=True):
    from raytools.evaluate.positionindex import PositionIndex
    return PositionIndex(guth)


def gen_step(rng, maps, fam, nargs):
    b = fam.split("-")[0]
    o = rng.randrange(len(maps))
    kind = maps[o]["k"]
    s = dict(o=o, a=[rng.randrange(nargs) for _ in range(3)],
             scribble=rng.random() < .4)
    r = rng.random()
    if b == "trans" and r < .8:
        s.update(k="t", f=rng.choice(sorted(T)))
    elif b == "image" and r < .8:
        s.update(k="a", f=rng.choice(sorted(A)))
    elif b != "threads" and r < .92 and rng.random() < .22:
        s.update(k=rng.choice(["dir", "dir", "dir", "aspect", "pickle",
                               "new"]),
                 d=rng.choice(DIRS), aspect=rng.choice([None, 1, 2, .5, 3]))
        if kind != "mapper" and s["k"] == "aspect":
            s["k"] = "dir"
    elif r < .1:
        s.update(k="t", f=rng.choice(sorted(T)))
    elif r < .15:
        s.update(k="a", f=rng.choice(sorted(A)))
    else:
        ok = [n for n, (c, _, _) in sorted(M.items()) if c is None or
              kind in c]
        s.update(k="m", f=rng.choice(ok))
    return s


def gen(rng, fam, tier):
    b = fam.split("-")[0]
    nm = rng.choice([2, 3]) if b == "multi" else rng.choice([1, 1, 2]) \
        if b == "threads" else 1
    maps = [gen_map(rng) for _ in range(nm)]
    if nm > 1 and rng.random() < .6:
        for m in maps[1:]:
            m["k"] = maps[0]["k"]
    n1 = rng.choice([1, 4, 9, 30])
    args = [dict(n=n1 if rng.random() < .7 else rng.choice([1, 4, 9, 30]),
                 seed=rng.randrange(1 << 30), special=rng.random() < .5)
            for _ in range(rng.choice([1, 2, 3]))]
    nt = rng.choice([2, 2, 3, 4]) if b == "threads" else 1
    steps = []
    if b == "threads":
        if rng.random() < .4:
            steps.append(dict(o=0, k="dir", d=rng.choice(DIRS), a=[0, 0, 0],
                              t=-1))
            if maps[0]["k"] == "mapper":
                steps[-1].update(k="aspect", aspect=2)
        base = [gen_step(rng, maps, fam, len(args)) for _ in
                range(rng.choice([1, 2, 3, 4]))]
        for t in range(nt):
            for s in base:
                if rng.random() < .75:
                    s = dict(s, a=[rng.randrange(len(args)) for _ in
                                   range(3)])
                    if rng.random() < .3:
                        s["o"] = rng.randrange(nm)
                        c = M[s["f"]][0] if s["k"] == "m" else None
                        if c is not None and maps[s["o"]]["k"] not in c:
                            s["o"] = base[0]["o"]
                            if maps[s["o"]]["k"] not in c:
                                continue
                else:
                    s = gen_step(rng, maps, fam, len(args))
                steps.append(dict(s, t=t, scribble=s["scribble"]))
    else:
        for _ in range(rng.choice([3, 6, 10, 16])):
            s = gen_step(rng, maps, fam, len(args))
            steps.append(s)
            if s["k"] == "m" and rng.random() < .3:
                steps.append(dict(s))
    return dict(maps=maps, args=args, steps=steps, nt=nt,
                p_stay=rng.choice([.2, .5, .8, .95]))


def shrink(p):
    s = p["steps"]
    for k in (len(s) // 2, len(s) - 1):
        if 0 < k < len(s):
            yield dict(p, steps=s[:k])
            yield dict(p, steps=s[-k:])
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    for i, a in enumerate(p["args"]):
        for n in (1, 4):
            if a["n"] > n:
                yield dict(p, args=p["args"][:i] + [dict(a, n=n)] +
                           p["args"][i + 1:])


def table(s):
    return (M if s["k"] == "m" else T if s["k"] == "t" else A)[s["f"]]


def call(vm, s, args):
    f = table(s)
    try:
        with np.errstate(all="ignore"):
            return ("ok", f[-1](vm, *args) if s["k"] == "m" else
                    f[-1](*args))
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        return ("exc", type(ex).__name__, str(ex)[:200])


def fresh_calls(reqs):
    out = []
    for m, s, specs in reqs:
        args = [arg(a) for a in specs]
        out.append(call(make(m) if s["k"] == "m" else None, s, args))
    return out


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and \
            all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str):
        return type(a) is type(b) and a == b
    return close(a, b, atol=1e-12)


def clone(x):
    if isinstance(x, np.ndarray):
        return np.copy(x)
    if isinstance(x, (tuple, list)):
        return type(x)(clone(y) for y in x)
    return x


def scribble(x, args):
    """the caller overwrites the arrays it was given"""
    if isinstance(x, (tuple, list)):
        for y in x:
            scribble(y, args)
    elif isinstance(x, np.ndarray) and x.size and x.flags.writeable and \
            x.dtype.kind in "fib" and not any(np.may_share_memory(x, a)
                                              for a in args):
        x[...] = 1 if x.dtype.kind == "b" else -777


def run(p, sim):
    sim.sched.p_stay = p["p_stay"]
    fresh = Fresh()
    maps = [dict(m) for m in p["maps"]]
    vms = [make(m) for m in maps]
    shared, keep = {}, {}
    for s in p["steps"]:            # the argument arrays, shared by all
        for j, kd in enumerate(kinds(s)):
            key = (s["a"][j], kd)
            if key not in shared:
                shared[key] = arg(dict(p["args"][s["a"][j]], k=kd))
                keep[key] = np.copy(shared[key])
    results = []

    def intact(what):
        for k, a in shared.items():
            if not deep_eq(a, keep[k]):
                raise Violation(f"an argument array ({k[1]}) was changed by "
                                f"{what}")

    def step(j, s, alone):
        o = s["o"]
        if s["k"] in ("dir", "aspect", "pickle", "new"):
            if s["k"] == "dir":
                vms[o].dxyz = s["d"]
                maps[o] = dict(maps[o], d=s["d"])
            elif s["k"] == "aspect":
                vms[o].aspect = s["aspect"]
                maps[o] = dict(maps[o], aspect=s["aspect"])
            elif s["k"] == "pickle":
                vms[o] = pickle.loads(pickle.dumps(vms[o])) if j % 2 else \
                    copy.deepcopy(vms[o])
            else:
                vms[o] = make(maps[o])
            return
        args = [shared[s["a"][i], kd] for i, kd in enumerate(kinds(s))]
        got = call(vms[o], s, args)
        results.append((j, s, maps[o], [dict(p["args"][s["a"][i]], k=kd) for
                                        i, kd in enumerate(kinds(s))],
                        clone(got)))
        if alone:
            intact(f"{s['f']} (step {j})")
        if s["scribble"] and got[0] == "ok":
            scribble(got[1], list(shared.values()))
    if p["nt"] == 1:
        for j, s in enumerate(p["steps"]):
            step(j, s, True)
    else:
        for j, s in enumerate(p["steps"]):
            if s["t"] == -1:
                step(j, s, True)

        def thread(t):
            for j, s in enumerate(p["steps"]):
                if s["t"] == t:
                    step(j, s, False)
        run_threads(sim, [lambda t=t: thread(t) for t in range(p["nt"])])
        intact("the threads")
    reqs, index = [], {}
    for j, s, m, specs, got in results:
        k = repr((m if s["k"] == "m" else 0, s["k"], s["f"], specs))
        if k not in index:
            index[k] = len(reqs)
            reqs.append((m, s, specs))
    want = []
    if reqs:
        if p["family"] in ("hist-b", "multi"):      # one process per call
            for r in reqs:
                w = fresh(fresh_calls, [r])
                want += w[1] if w[0] == "ok" else [w]
        else:
            w = fresh(fresh_calls, reqs)
            if w[0] != "ok":
                raise HarnessError(repr(w))
            want = w[1]
    n = 0
    for j, s, m, specs, got in results:
        w = want[index[repr((m if s["k"] == "m" else 0, s["k"], s["f"],
                             specs))]]
        sim.event(j, s["f"], got[0], short(got[1], 60))
        if got[0] != w[0] or (got[0] == "ok" and not same(got[1], w[1])) or \
                (got[0] == "exc" and got[1] != w[1]):
            raise Violation(
                f"{s['f']} of a used {m['k'] if s['k'] == 'm' else 'module'} "
                f"mapper differs from a fresh one: {short(got[1:])} instead "
                f"of {short(w[1:])} (step {j} of {len(p['steps'])}, "
                f"{p['nt']} threads, {m})")
        n += got[0] == "ok"
        sim.count("results")
        if got[0] == "exc":
            sim.count("raised")
    sim.nontrivial = n > 1
    fresh.close()


def kinds(s):
    if s["k"] not in "mta":
        return []
    f = table(s)
    return f[1] if s["k"] == "m" else f[0]
