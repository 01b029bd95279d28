"""C06 header, size and view are read truly or the read raises"""
import os
import numpy as np
from sim import core, rgbe
from checks.common import *
from checks import images as I
from sim import files

PROP = "C06"
FAMILIES = ["ok", "torn", "fault", "torn-line", "fault-b", "bad", "ok-b", "file",
            "vf", "hist", "hist-b", "conc"]
FAULTS = I.FAULTS + ("short", "fail", "kill")
RULE = ("single reads, reads in threads and histories of 2 to 4 reads of one process of a file "
        "replaced in between: seeded images with 0..12 header lines (views of several kinds and "
        "number formats, rvu lines, indented and duplicated views, key=value "
        "items, comments, non-ASCII text), any size, read with every header "
        "function; files torn at any byte of the header, missing, "
        "directories, not images; view files; failing and short file reads; getinfo failing at any point; non-trivial: "
        "a value was compared or a tear/fault took effect; distinct by case "
        "and recorded history")
REAL, STUB = IO_REAL, IO_STUB
ASSUME = ["the last view of a file is a VIEW= -vta line (or rvu -vta with no "
          "VIEW= line) with -vh", "header text does not contain 'cannot open'",
          "getinfo with status 0 delivered all of its output unless its last "
          "line is incomplete"]
QUICK_S = 35
ITEMS = ["software", "EXTRA", "foo", "Exposure", "nothere", "LuminanceRGB",
         "capdate"]
FUNCS = ["header", "items", "clean", "size", "view", "viewpt", "is_hdr",
         "gss", "view", "size", "imgmetric"]


def num(rng):
    v = rng.choice([0, 1, -1, .5, rng.uniform(-1, 1), 1e-3])
    return rng.choice(["%g", "%.6f", "%r", "%e"]) % v


def gen_view(rng):
    d = [rng.uniform(-1, 1) for _ in range(3)]
    if max(map(abs, d)) < .1:
        d = [0, 1, 0]
    v = dict(vh=rng.choice([180, 90, 180.0, 60.5, 33.25, 120, 179.999]),
             vd=rng.choice([None, [0, 1, 0], [0, -1, 0], [1, 0, 0], d, d,
                            [6.123234e-17, -1, 0], [x * 1e-3 for x in d],
                            [x * 2.5e6 for x in d]]),
             vp=rng.choice([None, [0, 0, 0], [rng.uniform(-99, 99)
                                              for _ in range(3)],
                            [1.25e7, -3e-9, 2]]))
    parts = []
    f = rng.choice(["%g", "%.8f", "%r", "%e", "%+g"])
    if v["vd"] is not None and not any(abs(float(f % float(x))) > 1e-8
                                       for x in v["vd"]):
        f = "%r"
    if v["vd"] is not None:
        v["vd"] = [float(f % float(x)) for x in v["vd"]]
        parts.append("-vd " + " ".join(f % float(x) for x in v["vd"]))
    if v["vp"] is not None:
        v["vp"] = [float(f % float(x)) for x in v["vp"]]
        parts.append("-vp " + " ".join(f % float(x) for x in v["vp"]))
    h = "%r" if rng.random() < .8 else f
    parts.append(f"-vh {h} -vv {h}" % (v["vh"], rng.choice([180, v["vh"]])))
    v["vh"] = float(h % v["vh"])
    if rng.random() < .5:
        parts.append("-vu 0 0 1")
    if rng.random() < .3:
        parts.append("-vo 0 -va 0 -vs 0 -vl 0")
    rng.shuffle(parts)
    v["text"] = "-vta " + " ".join(parts)
    return v


def gen(rng, fam, tier):
    if fam.startswith("hist"):
        name = rng.choice(["img.hdr", "a b.hdr"])

        def one():
            s = gen(rng, rng.choice(["ok", "ok", "ok", "ok", "torn", "fault",
                                     "bad", "file", "vf"]), tier)
            s["name"] = name
            return s
        return dict(steps=I.gen_steps(rng, one, same=()))
    if fam == "conc":
        steps = [gen(rng, rng.choice(["ok", "ok", "ok", "vf"]), tier)
                 for _ in range(rng.choice([2, 2, 3]))]
        same = rng.random() < .4
        for k, s in enumerate(steps):
            if same:
                s["name"] = steps[0]["name"]
            s.update(conc=1, name=f"t{k}/{s['name']}", cut=None, vfname=f"v{k}.vf")
        return dict(steps=steps, conc=True,
                    p_stay=rng.choice([.3, .6, .9]))
    lines, view = [], None
    how = rng.choice(["none", "view", "view", "view2", "rvu", "indent"])
    lines += rng.sample(I.HEAD[2:], rng.randrange(0, 6))
    if rng.random() < .3:
        lines += [rng.choice(["LuminanceRGB= .2 .7 .1", "EXPOSURE=2",
                              "LuminanceRGB= 0.26507413 0.67011463 0.06481124",
                              "foo=1=2", "Foo= 3"])]
    if how == "view2":
        lines.append("VIEW= " + gen_view(rng)["text"])
        if rng.random() < .5:
            lines.append("\tVIEW= " + gen_view(rng)["text"])
    rng.shuffle(lines)
    if how != "none":
        view = gen_view(rng)
        pre = {"rvu": "rvu ", "indent": "\tVIEW= "}.get(how, "VIEW= ")
        lines.insert(len(lines) if how == "view2" and rng.random() < .6 else
                     rng.randrange(len(lines) + 1) if how != "view2" else
                     len(lines), pre + view["text"])
        if how == "rvu":
            i = lines.index("rvu " + view["text"])
            if rng.random() < .3:
                lines[i] += " scene.oct"
    p = dict(im=I.gen_image(rng, big=300), rle=True, header=lines, view=view,
             func=rng.choice(FUNCS),
             items=rng.sample(ITEMS, rng.choice([1, 2, 4, 5, 5])),
             cap=I.gen_cap(rng) if rng.random() < .7 else 65536,
             name=rng.choice(["img.hdr", "a b.hdr", "x.y/im.pic", "noext",
                              "\u00fc.hdr", "10X_20Y.hdr", "a: -Y 3 +X 4"]),
             plan=I.gen_plan(rng, rng.choice([1, 1, .6]) if "fault" in fam
                             else 0, FAULTS),
             cut=None, bad=None, nl=rng.random() < .1)
    p["im"]["w"] = min(p["im"]["w"], 300)
    if p["func"] in ("gss", "imgmetric"):
        w = p["im"]["w"] = p["im"]["h"] = rng.choice([4, 7, 12])
        p["im"]["kind"] = "rand"
    if fam == "file":
        p["func"] = rng.choice(["is_hdr", "is_hdr", "gss", "vf"])
        p["im"]["w"] = p["im"]["h"] = rng.choice([4, 7, 12])
        p["im"]["kind"] = "rand"
        p["file"] = rng.choice([0, .4, .8])
    if fam == "vf":
        p["func"] = "vf"
    if p["func"] == "vf":
        p["vf"] = [gen_view(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        for v in p["vf"]:
            if v["vd"] is None:
                v["vd"] = [0, 1, 0]
                v["text"] += " -vd 0 1 0"
        p["vfnoise"] = rng.choice(["", "# text\n", "rvu -vtv -vh 3\n\n"])
        p["vfmissing"] = rng.random() < .15
        p["vfend"] = rng.choice(["", "\n"])
    if fam == "torn":
        p["cut"] = rng.random()
    elif fam == "torn-line":
        p["cut"] = rng.randrange(1, 40)
    if fam == "bad":
        p["bad"] = rng.choice(["missing", "dir", "empty", "text", "zeros",
                               "binary", "nores"])
    return p


def shrink(p):
    if "steps" in p:
        yield from I.shrink_steps(p, shrink)
        return
    yield from I.shrink_common(dict(p, header=[]))
    h = p["header"]
    for i in range(len(h)):
        yield dict(p, header=h[:i] + h[i + 1:], view=p["view"] if p["view"]
                   and p["view"]["text"] not in h[i] else
                   p["view"] if not p["view"] else None) \
            if not (p["view"] and p["view"]["text"] in h[i]) else dict(p)
    if p["name"] != "img.hdr" and not p.get("conc"):
        yield dict(p, name="img.hdr")


def items_of(lines):
    """last value of each key, as the documentation of the header says"""
    out = {}
    for l in lines:
        l = l.strip()
        if "=" in l:
            k, v = l.split("=", 1)
            out[k.lower()] = v.strip()
    return out


def run(p, sim):
    if "steps" not in p:
        return one(p, sim)
    if p.get("conc"):
        sim.sched.p_stay = p["p_stay"]
        return run_threads(sim, [lambda s=s: one(s, sim) for s in p["steps"]])
    for s in p["steps"]:
        one(s, sim)


def one(p, sim):
    from raytools import io, imagetools
    before = dict(sim.counts)
    path = os.path.join(sim.scratch, p["name"])
    I.clear(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data, _ = I.write_hdr(path, p["im"], p["header"], p["rle"])
    hdr, res, off = rgbe.split(data)
    fn = p["func"]
    torn = None
    if p["cut"]:
        c = p["cut"]
        k = int(c * off) if c < 1 else max(0, off - c)
        with open(path, "r+b") as f:
            f.truncate(k)
        torn = f"the file ends after {k} of {off} bytes of its header"
        sim.count("torn_files")
    if p["bad"]:
        torn = f"the file is {p['bad']}"
        os.unlink(path)
        b = p["bad"]
        if b == "dir":
            os.mkdir(path)
        elif b != "missing":
            with open(path, "wb") as f:
                f.write({"empty": b"", "text": b"hello world\n" * 40,
                         "zeros": b"\0" * 500, "binary": bytes(range(256)),
                         "nores": b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n"
                         }[b])
    I.stamp(path, p.get("t", 0))
    if fn == "vf":
        return view_file(p, sim)
    # what part of a torn file may still be read truly
    I.setup(p, sim)
    w, h = p["im"]["w"], p["im"]["h"]
    exc = got = None
    vm = None
    if "file" in p:
        files.arm(sim, ["file.open", "file.read"], p["file"])
    try:
        if fn == "header":
            got = io.hdr_header(path)
        elif fn == "items":
            got = io.hdr_header(path, items=list(p["items"]))
        elif fn == "clean":
            got = io.hdr_header(path, clean=True)
        elif fn == "size":
            got = imagetools.img_size(path)
        elif fn == "view":
            vm = got = imagetools.hdr2vm(path)
        elif fn == "viewpt":
            got = imagetools.hdr2vm(path, vpt=True)
            vm = got[0]
        elif fn == "is_hdr":
            got = io.is_hdr(path)
        elif fn == "gss":
            from raytools.evaluate.hvsgsm import GSS
            got = GSS(path)
            vm = got.vm
        else:
            got = imagetools.imgmetric(path, ["illum", "view_area"],
                                       peakn=False)
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        exc = ex
    files.disarm(sim)
    faults = I.new_faults(sim, before)
    I.quiet(sim)
    sim.nontrivial = True
    sim.event("result", type(exc).__name__, fn)
    sim.count("read." + fn)
    if exc is not None:
        if fn == "is_hdr" and p["bad"] not in ("missing", "dir") and \
                not faults:
            raise Violation(f"is_hdr raised {type(exc).__name__}({exc})")
        if not faults and not torn:
            raise Violation(f"{fn} failed although the header is intact: "
                            f"{type(exc).__name__}({exc})")
        return
    if fn == "is_hdr":
        if faults:
            raise Violation(f"is_hdr gave {got} although the file could not "
                            f"be read: {faults[0]}")
        with open(path, "rb") as f:
            true = f.read(10) == b"#?RADIANCE"
        if got is not true:
            raise Violation(f"is_hdr gave {got!r} instead of {true}")
        return
    if faults and "helper.short" not in faults[0]:
        raise Violation(f"{fn} returned {short(got)} although getinfo did "
                        f"not succeed: {faults[0]}")
    if torn:
        if p["bad"] == "nores" or (p["cut"] and k > off - len(res) - 2):
            # the header proper is complete, only the size line is torn
            if fn not in ("size", "gss", "imgmetric"):
                if p["bad"] or not (fn in ("view", "viewpt") and p["view"]):
                    return
        raise Violation(f"{fn} returned {short(got)} although {torn}")
    if faults:       # status 0 but less output
        if fn == "size" and got == (w, h):
            return
        if fn in ("header", "items", "clean", "view", "viewpt", "gss",
                  "imgmetric"):
            return
    lines = hdr[1:]
    if fn == "header":
        exp = [l.strip() for l in lines]
        if got and got[0].rstrip() == path + ":":
            got = got[1:]
        if [x.strip() for x in got] != exp:
            raise Violation(f"wrong header: {short(got)} instead of "
                            f"{short(exp)}")
    elif fn == "items":
        it = items_of(lines)
        keys = [k.lower() for k in p["items"]]
        exp = [it.get(k, "") for k in keys]
        if len(got) != len(exp):
            raise Violation(f"{len(got)} header items for {len(exp)} names")
        nf = sum(l.strip().lower().startswith("foo") for l in lines)
        for g, e, k in zip(got, exp, keys):
            if k == "foo" and nf > 1:
                continue
            if g != e:
                raise Violation(f"wrong header item {k}: {g!r} instead of "
                                f"{e!r}")
    elif fn == "clean":
        text = "".join(got)
        v = [l for l in lines if l.strip().startswith("VIEW=")]
        if v and (got.count(v[-1].strip()) != 1 or
                  sum("VIEW=" in g for g in got) != 1):
            raise Violation(f"cleaned header lacks the last view: {got}")
        for l in lines:
            if "=" in l and not l.strip().startswith(("VIEW=", "FORMAT",
                                                      "long=")) and \
                    l.strip() not in text:
                raise Violation(f"cleaned header lacks {l!r}")
    elif fn == "size":
        if tuple(got) != (w, h):
            raise Violation(f"wrong size {got} instead of {(w, h)}")
    elif fn in ("view", "viewpt", "gss"):
        V = p["view"]
        if V is None:
            if fn == "gss":
                if abs(vm.viewangle - 180) > 1e-9:
                    raise Violation(f"default view is {vm.viewangle}")
            elif vm is not None or (fn == "viewpt" and got[1] is not None):
                raise Violation(f"view reported for an image without: "
                                f"{short(got)}")
            return
        if vm is None:
            raise Violation("the image's view was not found")
        ang = V["vh"] * w / h
        d = np.array(V["vd"] if V["vd"] is not None else [0, 1, 0], float)
        d /= np.linalg.norm(d)
        if not np.allclose(np.ravel(vm.dxyz)[:3], d, atol=1e-6):
            raise Violation(f"wrong view direction {vm.dxyz} instead of {d}")
        exp = vangle(ang)
        if abs(vm.viewangle - exp) > 1e-6 * exp:
            raise Violation(f"wrong view angle {vm.viewangle} instead of "
                            f"{exp}")
        if fn == "viewpt" and not np.allclose(got[1], V["vp"] or [0, 0, 0]):
            raise Violation(f"wrong view point {got[1]} instead of {V['vp']}")
    elif fn == "imgmetric":
        V = p["view"]
        ang = V["vh"] * w / h if V else 180
        exp = 2 * np.pi * (1 - np.cos(np.radians(min(ang, 180)) / 2))
        if not abs(got[-1] - exp) < .45 * exp:
            raise Violation(f"view area {got[-1]} does not match the view "
                            f"angle {ang} ({exp})")


def view_file(p, sim):
    from raytools import imagetools
    before = dict(sim.counts)
    path = os.path.join(sim.scratch, p.get("vfname", "view.vf"))
    I.clear(path)
    if not p["vfmissing"]:
        text = p["vfnoise"] + p["vfnoise"].join(
            "rvu " + v["text"] + "\n" for v in p["vf"])
        with open(path, "w") as f:
            f.write(text[:-1] + p["vfend"] if p["vf"] else text)
        I.stamp(path, p.get("t", 0))
    I.setup(p, sim)
    if "file" in p:
        files.arm(sim, ["file.open", "file.read"], p["file"])
    exc = vm = None
    try:
        vm = imagetools.vf_to_vm(path)
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        exc = ex
    files.disarm(sim)
    sim.nontrivial = True
    sim.event("vf", type(exc).__name__)
    sim.count("read.vf")
    fault = I.new_faults(sim, before)
    bad = p["vfmissing"] or not p["vf"]
    if exc is not None:
        if not fault and not bad:
            raise Violation(f"the view file could not be read: "
                            f"{type(exc).__name__}({exc})")
        return
    if fault or bad:
        raise Violation(f"a view was reported although the file "
                        f"{fault or 'holds none'}")
    V = p["vf"][-1]
    d = np.array(V["vd"], float)
    d /= np.linalg.norm(d)
    if not np.allclose(np.ravel(vm.dxyz)[:3], d, atol=1e-6):
        raise Violation(f"wrong view direction {vm.dxyz} instead of {d}")
    exp = vangle(V["vh"])
    if abs(vm.viewangle - exp) > 1e-6 * exp:
        raise Violation(f"wrong view angle {vm.viewangle} instead of {exp}")


def vangle(a):
    """viewangle of a ViewMapper made with a"""
    from raytools.mapper import ViewMapper
    return core.isolated(lambda: float(ViewMapper((0, 1, 0), a).viewangle))[1]
