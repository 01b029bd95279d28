"""C12 library calls leave process-wide settings as they were"""
import importlib
import os
import random
import warnings
import numpy as np
from sim import core, files
from checks.common import *
from checks import images as I
from checks import ops as O
from checks import c10, c11

PROP = "C12"
FAMILIES = ["calls", "alloc", "fault", "threads", "cli", "raypath", "alloc-b",
            "pool", "threads-b", "calls-b", "alloc-c", "threads-c"]
RULE = ("a seeded process state (numpy error handling, warning filters, "
        "working directory, environment, search path, random state) and a "
        "seeded history of calls over the whole package (image input and "
        "output, transforms, mappers, metrics, glare sensation, binary and "
        "text files, batch calls, command line runs, search path "
        "registration), good and bad arguments, with failing or dying "
        "helpers, failing file operations, full disks, an allocation failing or "
        "an interrupt at any array operation, failing or dying workers, or from two to "
        "four threads with line-level preemption; the state is compared "
        "before and after each call; non-trivial: at least one call returned "
        "and the state was compared; distinct by recorded history")
REAL = IO_REAL + ["numpy error state, warnings, os.environ, random state, "
                  "concurrent.futures"]
STUB = IO_STUB + SCHED_STUB
ASSUME = ["the processor cap variable may change only through its setters "
          "and -n", "empty entries of RAYPATH are not counted as entries"]
QUICK_S = 40
CAP = "RAYTOOLS_PROC_CAP"
ERR = ["ignore", "warn", "raise", "print"]
TXT = ["np2file", "file2np", "load_txt", "load_bad", "is_hdr", "vf",
       "clean", "bytes"]
JIT = ["pixels", "idx2uv", "view_idx2uv", "pixelrays", "solid_pixels"]


def gen_step(rng, fam):
    b = fam.split("-")[0]
    r = rng.random()
    if b == "raypath" and r < .7:
        return dict(k="raypath", base=rng.choice(
            [None, None, "d/x.py", "/opt/else/__init__.py", "import"]),
            sub=rng.choice(["cal", "cal", None, "other"]),
            pre=rng.choice(["keep", "keep", "unset", "plain", "dups", "dot",
                            "own", "empty"]), a=rng.randrange(100))
    if b == "cli" and r < .7:
        return dict(k="cli", cmd=rng.choice(
            ["metric", "project", "align", "solid2ang", "cleanheader",
             "smooth"]), more=rng.choice([0, 0, 1, 2]),
            n=rng.choice([None, None, 1, 2]), extra=rng.choice(
            ["", "", "", "-opts", "--debug", "-badopt"]),
            a=rng.randrange(1000), src=rng.choice(["ok", "ok", "torn",
                                                   "missing"]))
    if b == "pool" and r < .75:
        return dict(k="pool", mode=rng.choice(["none", "thread", "proc",
                                               "proc"]),
                    n=rng.choice([1, 2, 4]), bad=rng.random() < .3,
                    pbar=rng.random() < .3, cap=rng.choice([None, 1, 2]))
    k = rng.choice(["gssb"] + ["trans"] * 4 + ["map"] * 4 + ["arr"] * 2 + ["metric"] * 4 +
                   ["io"] * 5 + ["txt"] * 2 + ["jitter"] * 2 + ["nproc"])
    if b in ("threads",) and k in ("nproc",):
        k = "trans"
    s = dict(k=k, a=rng.randrange(1 << 20), n=rng.choice([1, 4, 9]),
             bad=rng.random() < .2)
    if k == "trans":
        s["f"] = rng.choice(sorted(c11.T))
    elif k == "arr":
        s["f"] = rng.choice(sorted(c11.A))
    elif k == "map":
        s["m"] = c11.gen_map(rng)
        kind = s["m"]["k"]
        s["f"] = rng.choice([n for n, (c, _, _) in sorted(c11.M.items())
                             if c is None or kind in c])
    elif k == "metric":
        s["rays"], s["o"] = c10.gen_rays(rng), c10.gen_obj(rng, 1, 1)
        s["rays"]["n"] = rng.choice([1, 5, 60, 150])
        s["v"] = dict(d=[0, 1, 0], va=rng.choice([180, 180, 90, 360]))
        s["s"] = c10.gen_step(rng, [s["o"]], 1)
    elif k == "io":
        s["op"] = O.gen_op(rng)
        if b == "alloc":
            if rng.random() < .5:
                s["op"]["op"] = "gss"
        elif s["op"]["op"].startswith("gss") and rng.random() < .6:
            s["op"]["op"] = "array"
        s["src"] = rng.choice(["ok", "ok", "ok", "torn", "missing", "text"])
        s["limit"] = rng.choice([None, None, None, None, 0, 100]) \
            if b != "threads" else None
    elif k == "gssb":
        s["f"] = rng.choice(["process", "process", "compute"])
        s["save"] = rng.random() < .7
        s["dir"] = rng.choice([None, "have", "have", "rel", "rel", "none",
                               "block", "blockrel"])
        s["ims"] = [rng.choice(["ok", "ok", "torn", "missing"])
                    for _ in range(rng.choice([1, 1, 2]))]
        s["ill"] = rng.random() < .3
        if b == "threads":
            s["f"] = "process"
    elif k == "txt":
        s["f"] = rng.choice(TXT)
    elif k == "jitter":
        s["f"] = rng.choice(JIT)
        s["j"] = rng.choice([0, .5, 1])
    elif k == "nproc":
        s["v"] = rng.choice([1, 3, 0, -1, None, "x", "unset", "get", "get"])
    return s


def gen(rng, fam, tier):
    b = fam.split("-")[0]
    nt = rng.choice([2, 2, 3, 4]) if b == "threads" else 1
    steps = [gen_step(rng, fam) for _ in range(rng.choice([2, 4, 7]))]
    if b == "threads":
        base = steps[:rng.choice([1, 2, 3])]
        steps = []
        for t in range(nt):
            for s in base:
                if rng.random() < .25:
                    s = gen_step(rng, fam)
                steps.append(dict(s, t=t))
    for s in steps:
        s["frac"] = rng.random() if b == "alloc" else None
    im = I.gen_image(rng, square=True, big=10, kinds=["rand", "glare"])
    im["w"] = im["h"] = max(4, min(9, im["w"]))
    return dict(im=im, steps=steps, nt=nt, header=O.VIEW, cap=I.gen_cap(rng),
                plan=I.gen_plan(rng, rng.choice([.2, .5]) if b == "fault" or
                                b == "cli" and rng.random() < .4 else 0,
                                I.FAULTS),
                nfault=rng.choice([1, 2, 4]),
                file=rng.choice([0, .1, .3]) if b == "fault" else 0,
                wfault=rng.choice([None, "proc.kill", "proc.start"])
                if b in ("pool", "cli") else None,
                ncpu=rng.choice([1, 2, 3]),
                err={k: rng.choice(ERR) for k in
                     ("divide", "over", "under", "invalid")}
                if rng.random() < .7 else None,
                filt=rng.choice([None, "error", "ignore", "always", "module"]),
                cap0=rng.choice([None, None, "2", "junk"]),
                seed=rng.randrange(1 << 30),
                p_stay=rng.choice([.2, .5, .8, .95]))


def shrink(p):
    s = p["steps"]
    for k in (len(s) // 2, len(s) - 1):
        if 0 < k < len(s):
            yield dict(p, steps=s[:k])
            yield dict(p, steps=s[-k:])
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    for k in ("err", "filt", "cap0"):
        if p[k] is not None:
            yield dict(p, **{k: None})
    yield from I.shrink_common(p)


# ------------------------------------------------------------ process state

def fdname(n):
    try:
        return os.readlink(f"/proc/self/fd/{n}")
    except OSError:
        return None


def per_thread():
    return dict(error_handling=dict(np.geterr()), error_call=np.geterrcall())


def state(threads=False):
    st = np.random.get_state()
    d = dict(
        filters=list(warnings.filters),
        showwarning=(warnings.showwarning, warnings._showwarnmsg_impl),
        cwd=os.getcwd(),
        environment={k: v for k, v in os.environ.items() if k != CAP},
        cap=os.environ.get(CAP),
        numpy_random=(st[0], st[1].tobytes()) + tuple(st[2:]),
        random=random.getstate(),
        streams=tuple((id(getattr(sys, n)), getattr(sys, n).closed,
                       getattr(sys, n).fileno()) for n in
                      ("stdin", "stdout", "stderr")),
        originals=tuple(id(getattr(sys, n)) for n in
                        ("__stdin__", "__stdout__", "__stderr__")),
        stream_files=[fdname(n) for n in range(3)])
    d.update(per_thread())
    return d


def compare(a, b, what, allow=()):
    for k in a:
        if k in allow:
            continue
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, dict):
                x, y = [{i: v for i, v in d.items() if o.get(i) != v}
                        for d, o in ((x, y), (y, x))]
            elif isinstance(x, (list, tuple)) and len(x) == len(y):
                x, y = [[v for v, o in zip(d, e) if v != o] for d, e in
                        ((a[k], b[k]), (b[k], a[k]))]
            raise Violation(f"{k} changed by {what}: {short(x, 150)} -> "
                            f"{short(y, 150)}")


# --------------------------------------------- a failing allocation anywhere

class AllocFault:
    """without a target: notes the lines of package code that call an array
    operation, and how often each is run; with a target: the line raises
    MemoryError the k-th time"""
    TOOL = 3
    KINDS = ("ufunc", "_ArrayFunctionDispatcher")

    def __init__(self, sim, target=None, exc=MemoryError):
        self.sim, self.target, self.n, self.hit = sim, target, 0, None
        self.exc = exc
        self.sites, self.lines, self.last = {}, {}, {}

    def __enter__(self):
        if self.target:
            sys.settrace(self.trace)
            return self
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "verif")
        m.register_callback(self.TOOL, m.events.CALL, self.call)
        m.register_callback(self.TOOL, m.events.LINE, self.line)
        m.restart_events()
        m.set_events(self.TOOL, m.events.CALL | m.events.LINE)
        return self

    def __exit__(self, *a):
        if self.target:
            sys.settrace(None)
            return
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.CALL, None)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)

    def call(self, code, off, fn, arg0):
        if not code.co_filename.startswith(self.sim.pkg):
            return sys.monitoring.DISABLE
        if type(fn).__name__ in self.KINDS and code in self.last:
            self.sites[self.last[code]] = 1

    def line(self, code, n):
        if not code.co_filename.startswith(self.sim.pkg):
            return sys.monitoring.DISABLE
        at = (code.co_filename, code.co_firstlineno, code.co_name, n)
        self.last[code] = at
        self.lines[at] = self.lines.get(at, 0) + 1

    def trace(self, frame, event, arg):
        c = frame.f_code
        if self.hit is None and (c.co_filename, c.co_firstlineno,
                                 c.co_name) == self.target[0][:3]:
            return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.hit is None and \
                frame.f_lineno == self.target[0][3]:
            if self.n == self.target[1]:
                self.hit = f"{self.target[0][2]} line {frame.f_lineno}"
                raise self.exc("simulated in " + self.hit)
            self.n += 1
        return self.local

    def pick(self, frac):
        """a line, and one of the times it is run"""
        x = frac * len(self.sites)
        at = list(self.sites)[int(x)]
        return at, int((x - int(x)) * self.lines[at])


# -------------------------------------------------------------------- steps

def double(x, bad):
    if bad and x == 1:
        raise ValueError("one")
    return 2 * x


def args_of(s, kinds):
    out = [c11.arg(dict(n=s["n"], seed=s["a"] + i, k=k, special=s["a"] % 2))
           for i, k in enumerate(kinds)]
    if s["bad"] and out:
        x = out[0]
        out[0] = [x[..., :1], np.full(x.shape, "x"), None, x * np.nan,
                  np.zeros_like(x), x[:0]][s["a"] // 7 % 6]
    return out


def do(s, sim, path, out):
    from raytools import io, imagetools
    k = s["k"]
    if k in ("trans", "arr"):
        f = (c11.T if k == "trans" else c11.A)[s["f"]]
        f[1](*args_of(s, f[0]))
    elif k == "map":
        f = c11.M[s["f"]]
        c11.make(s["m"])            # (construction is a call as well)
        f[2](c11.make(s["m"]), *args_of(s, f[1]))
    elif k == "metric":
        vol = c10.rays(s["rays"], s["v"], s["o"]["cls"] == "color")
        vm = c10.mapper(s["v"])
        if s["bad"]:
            vol = (vol[0], vol[1][:-1], vol[2] * np.nan)
        ob = c10.build(s["o"], vol, vm)
        q = s["s"]
        if q["k"] in ("get", "array"):
            getattr(ob, q["m"])
        elif q["k"] == "call":
            ob(list(q["m"]) + (["nothere"] if s["bad"] else []))
        elif q["k"] == "default":
            ob()
        elif q["k"] == "peak":
            imagetools.normalize_peak(*vol, **q["kw"])
        elif q["k"] == "position":
            from raytools.evaluate.positionindex import PositionIndex
            PositionIndex(q["g"]).positions(vm, vol[0])
    elif k == "io":
        with I.disk_limit(s["limit"]):
            O.do(s["op"], path, out)
    elif k == "gssb":
        gssb(s, path, out)
    elif k == "txt":
        f = s["f"]
        if f == "np2file":
            io.np2bytefile(np.arange(s["n"] * 3.), out)
        elif f == "file2np":
            with open(path, "rb") as fh:
                io.bytefile2np(fh, (-1, 1 + s["a"] % 3), "u1")
        elif f == "load_txt":
            io.load_txt("1 2 3\n4 5 6" if s["a"] % 2 else path)
        elif f == "load_bad":
            io.load_txt([path, 7, path + "x", b"1 2"][s["a"] % 4])
        elif f == "is_hdr":
            io.is_hdr(path)
        elif f == "vf":
            imagetools.vf_to_vm(path)
        elif f == "clean":
            io.CleanHeader("\n".join(O.VIEW * 2 + ["\ta b", "c=d"])).header
        else:
            io.bytes2np(io.np2bytes(np.arange(6.)), (2, 3))
    elif k == "jitter":
        from raytools.mapper import ViewMapper
        from raytools.mapper.mapper import Mapper
        f, j = s["f"], s["j"]
        if f == "pixels":
            Mapper().pixels(s["n"], jitter=j)
        elif f == "idx2uv":
            Mapper(jitterrate=j).idx2uv(np.arange(s["n"]), (3, 3))
        elif f == "view_idx2uv":
            ViewMapper(viewangle=180, jitterrate=j).idx2uv(
                np.arange(s["n"]), (3, 3))
        elif f == "pixelrays":
            Mapper().pixelrays(s["n"], jitter=j)
        else:
            ViewMapper(viewangle=180).solid_pixelrays(s["n"], jitter=j)
    elif k == "pool":
        pool(s)
    elif k == "cli":
        argv = [] if s["n"] is None else ["-n", str(s["n"])]
        ims = [path] + [os.path.join(os.path.dirname(path), f"m{i}.hdr")
                        for i in range(s["more"])]
        if s["cmd"] in ("cleanheader", "smooth"):
            ims = ims[:1]
        if s["cmd"] == "smooth" and s["a"] % 3:
            ims = [os.path.join(os.path.dirname(path), "text.hdr")]
        argv += [s["cmd"], " ".join(ims)]
        a = s["a"]
        if s["cmd"] == "metric":
            argv += ["-metrics", "illum dgp" if a % 5 else "illum gss"]
            if a % 3 == 0:
                argv += ["--no-parallel"]
        elif s["cmd"] == "align":
            argv += ["-rotate", str(5 + a % 90)]
        elif s["cmd"] == "project" and a % 2:
            argv += ["--uv2ang"]
        if s["extra"]:
            argv += [s["extra"]]
        code, ex = O.cli(argv)
        stdout_bytes(reset=True)
        if ex is not None:
            raise ex
        if code:
            raise SystemExit(code)
    elif k == "nproc":
        v = s["v"]
        if v == "get":
            io.get_nproc()
        elif v == "unset":
            io.unset_nproc()
        else:
            io.set_nproc(v)
    else:
        raise HarnessError(k)


def gssb(s, path, out):
    """score (and save) images the way the batch does, here or in workers"""
    from raytools.evaluate import hvsgsm
    d = os.path.dirname(path)
    names = dict(ok=os.path.join(d, "ok.hdr"), missing=d + "/nothing.hdr",
                 torn=os.path.join(d, "torn.hdr"))
    ims = [names[i] for i in s["ims"]]
    od = s["dir"]
    if od is not None:
        od = out + ".dir"
        if s["dir"] != "none":
            os.makedirs(od, exist_ok=True)
        if s["dir"].startswith("block"):
            os.makedirs(os.path.join(od, "ok_rg.hdr"), exist_ok=True)
        if s["dir"].endswith("rel"):
            od = os.path.relpath(od)
    if s["f"] == "compute":
        hvsgsm.gss_compute(ims, [300.] * len(ims) if s["ill"] else None,
                           save=s["save"], outdir=od)
        return
    g = hvsgsm.GSS(None)
    for i in ims:
        hvsgsm.process_gss(i, 300. if s["ill"] else None, g, s["save"], od)


def pool(s):
    from raytools import utility
    kw = {}
    if s["mode"] == "none":
        kw["workers"] = False
    elif s["mode"] == "thread":
        kw["workers"] = "t"
    utility.pool_call(double, list(range(s["n"])), s["bad"], cap=s["cap"],
                      expandarg=False, pbar=s["pbar"], **kw)


def raypath(s, d):
    """-> the search path this registration must leave"""
    import raytools
    own = os.path.join(os.path.dirname(raytools.__file__), "cal")
    pre = dict(plain="/usr/lib/ray:/opt/r/lib", dups="/a:/b:/a:.:/b:/c",
               dot="/a:.:/b", own=f"/a:{own}:/b:/a", empty="").get(s["pre"])
    if s["pre"] == "unset":
        os.environ.pop("RAYPATH", None)
    elif pre is not None:
        os.environ["RAYPATH"] = pre
    old = os.environ.get("RAYPATH", "")
    base = s["base"]
    if base in (None, "import"):
        first = own
        if base == "import":
            importlib.reload(raytools)
        elif s["a"] % 2:
            raytools.set_raypath()
        else:
            raytools.set_raypath(subd="cal")
    else:
        raytools.set_raypath(base, s["sub"])
        first = os.path.dirname(base) + ("" if s["sub"] is None else
                                         os.sep + s["sub"])
    return list(dict.fromkeys([".", first] + [x for x in old.split(":")
                                              if x]))


def warm():
    """imports and first uses that happen once per process"""
    import scipy.interpolate
    import scipy.ndimage
    import tqdm
    import raytools.cli
    from raytools.evaluate import hvsgsm
    tqdm.tqdm.get_lock()


def run(p, sim):
    sim.sched.p_stay = p["p_stay"]
    warm()
    d = os.path.join(sim.scratch, "d")
    os.mkdir(d)
    I.setup(p, sim)
    sim.opts["ncpu"] = p["ncpu"]
    ok = os.path.join(d, "ok.hdr")
    I.write_hdr(ok, p["im"], p["header"])
    torn = os.path.join(d, "torn.hdr")
    I.write_hdr(torn, p["im"], p["header"])
    os.truncate(torn, os.path.getsize(torn) * 3 // 5)
    text = os.path.join(d, "text.hdr")
    with open(text, "w") as f:
        f.write("1 2 3\n4 5 6\n")
    for i in range(2):
        I.write_hdr(os.path.join(d, f"m{i}.hdr"), p["im"], p["header"])
    paths = dict(ok=ok, torn=torn, text=text,
                 missing=os.path.join(d, "missing.hdr"))
    random.seed(p["seed"])
    np.random.seed(p["seed"] % (1 << 32))
    os.environ["SOME_VAR"] = str(p["seed"])
    if p["cap0"]:
        os.environ[CAP] = p["cap0"]
    if p["filt"]:
        warnings.simplefilter(p["filt"])
    if p["err"]:
        np.seterr(**p["err"])
    done = [0]

    def step(j, s, alone):
        path = paths[s.get("src", "ok")]
        out = os.path.join(d, f"o{j}.hdr")
        if s["k"] == "raypath":
            want = raypath(s, d)
            got = [x for x in os.environ["RAYPATH"].split(":") if x]
            if got != want:
                raise Violation(f"search path {got} instead of {want}")
            raypath(dict(s, pre="keep"), d)
            done[0] += 1
            got = [x for x in os.environ["RAYPATH"].split(":") if x]
            if got != want:
                raise Violation(f"search path {got} instead of {want} after "
                                "registering again")
            sim.event(j, "raypath", len(want))
            return
        if p["family"].startswith("alloc"):
            with AllocFault(sim) as af:
                attempt(j, s, path, out, alone, "")
            if not af.sites:
                return
            for i in range(4):
                k = af.pick((s["frac"] + i / 4) % 1)
                x = KeyboardInterrupt if i == 3 else MemoryError
                with AllocFault(sim, k, x) as hit:
                    attempt(j, s, path, out, alone,
                            f", {x.__name__} in {k[0][2]}, line {k[0][3]}")
                if hit.hit:
                    sim.count("fault.interrupt" if i == 3 else "fault.alloc")
                    sim.injected += 1
            return
        attempt(j, s, path, out, alone, "")

    def attempt(j, s, path, out, alone, more):
        before = state() if alone else per_thread()
        if p["file"]:
            files.arm(sim, ["file.open", "file.read", "file.write"],
                      p["file"])
        if p["wfault"]:
            sim.faults[p["wfault"]] = .1
        err = None
        try:
            do(s, sim, path, out)
        except (Violation, HarnessError):
            raise
        except (Exception, SystemExit, KeyboardInterrupt) as ex:
            err = type(ex).__name__
        files.disarm(sim)
        sim.faults = {}
        if alone:
            sim.sched.drain()
        after = state() if alone else per_thread()
        what = s.get("f") or s.get("cmd") or \
            (s["op"]["op"] if "op" in s else s["k"])
        sim.event(j, s["k"], what, err)
        sim.count("call." + s["k"])
        if err:
            sim.count("calls_failed")
        allow = ()
        if s["k"] == "nproc" or s["k"] == "cli" and s["n"] is not None:
            allow = ("cap",)
        if s["k"] == "cli" and not alone:
            allow += ("streams",)
        compare(before, after, f"{s['k']} {what} (step {j}, {err or 'ok'}"
                f"{more})", allow)
        done[0] += 1
    if p["nt"] == 1:
        for j, s in enumerate(p["steps"]):
            step(j, s, True)
    else:
        before = state()

        def thread(t):
            for j, s in enumerate(p["steps"]):
                if s["t"] == t:
                    step(j, s, False)
        run_threads(sim, [lambda t=t: thread(t) for t in range(p["nt"])])
        compare(before, state(), f"{p['nt']} threads")
    sim.nontrivial = done[0] > 0
