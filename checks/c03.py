"""C03 processor cap: resolution order and bound on running calls"""
import os
from sim import core
from checks.common import *
from checks import images as I
from checks import ops as O
from checks import pooling as P

PROP = "C03"
FAMILIES = ["set", "pool", "cli", "pool-b", "gss", "pool-fail", "set-b"]
RULE = ("seeded histories of cap settings (positive, zero, negative, None, "
        "rejected types), unsetting, environment changes (numbers, junk, "
        "empty, removed), queries, batches (with and without a cap, on "
        "processes or threads, some failing or losing a worker), batch glare "
        "scores and command line runs with -n, --no-parallel and every "
        "metric, compared step by step with a model of the setting; the "
        "number of busy workers is tracked at every step of every batch; "
        "non-trivial: at least three steps and one change of the setting or "
        "one batch; distinct by recorded history")
REAL, STUB = SCHED_REAL, SCHED_STUB
ASSUME = ["the environment holds no number below 1 (documented to be cleared "
          "by the setter)", "thread pools are not bounded by the cap (the cap "
          "is documented for process pools)"]
QUICK_S = 40
METRICS = ["illum", "avglum", "gcr", "ugp", "dgp", "tasklum", "backlum",
           "dgp_t1", "log_gc", "dgp_t2", "ugr", "threshold", "pwsl2",
           "view_area", "backlum_true", "srcillum", "srcarea", "maxlum"]
JUNK = ["junk", "", "3.5", "1e3", "0x4", "two", "4,5", "--2", "None"]


def gen_step(rng, fam):
    base = fam.split("-")[0]
    k = rng.choice(["set", "set", "none", "low", "bad", "unset", "env",
                    "junk", "del", "get", "getk"] +
                   {"set": ["pool", "tqdm"], "pool": ["pool"] * 7 + ["tqdm"],
                    "cli": ["cli"] * 6, "gss": ["gss"] * 5}[base])
    s = dict(k=k)
    if k in ("set", "env", "getk"):
        s["v"] = rng.choice([1, 2, 3, 4, 5, 9, 64, 1000])
    elif k == "low":
        s["v"] = rng.choice([0, -1, -7])
    elif k == "bad":
        s["v"] = rng.choice(["2", 2.0, "x", [3], 2.5, ""])
    elif k == "junk":
        s["v"] = rng.choice(JUNK)
    elif k in ("pool", "tqdm"):
        s.update(cap=rng.choice([None, None, 1, 2, 3, 5]),
                 n=rng.choice([1, 2, 3, 5, 8]),
                 long=rng.random() < .5,
                 workers=rng.choice([True, True, True, "p", "threads"]),
                 context=rng.choice(["fork", "fork", "forkserver"]),
                 fail=fam == "pool-fail" and rng.choice(["exc", "die", "start",
                                                         None]))
    elif k == "gss":
        s.update(cap=rng.choice([None, 1, 2, 3]), n=rng.choice([1, 2, 3, 4]))
    elif k == "cli":
        s.update(nopt=rng.choice([None, None, 1, 2, 3, 0, -1]),
                 noparallel=rng.random() < .4, n=rng.choice([1, 2, 3, 4]),
                 cmd=rng.choice(["metric", "metric", "metric", "project",
                                 "align", "solid2ang"]),
                 metrics=rng.sample(METRICS, rng.choice([0, 1, 2])) +
                 rng.sample(["gss", "gssnb"], rng.choice([0, 1, 1, 2])))
        if not s["metrics"]:
            s["metrics"] = ["illum"]
    return s


def gen(rng, fam, tier):
    n = {"set": rng.choice([3, 6, 10, 16]), "pool": rng.choice([2, 4, 6]),
         "cli": rng.choice([1, 2, 3]), "gss": rng.choice([1, 2, 3])}[
        fam.split("-")[0]]
    steps = [gen_step(rng, fam) for _ in range(n)]
    return dict(steps=steps, ncpu=rng.choice([1, 2, 3, 4, 6]),
                env0=rng.choice([None, None, "2", "junk"]),
                p_stay=rng.choice([.2, .5, .8, .95]), seed=rng.randrange(999))


def shrink(p):
    s = p["steps"]
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(p, steps=s[:i] + s[i + 1:])
    for i, x in enumerate(s):
        for k, v in (("n", 1), ("n", 2), ("noparallel", False), ("fail", None),
                     ("context", "fork"), ("cmd", "metric"),
                     ("metrics", ["illum"]), ("metrics", ["gss"])):
            if k in x and x[k] != v:
                yield dict(p, steps=s[:i] + [dict(x, **{k: v})] + s[i + 1:])


def valid(v):
    try:
        return int(v)
    except (TypeError, ValueError):
        return None


def run(p, sim):
    from raytools import io
    from raytools.utility import pool_call, TStqdm
    from raytools.evaluate import hvsgsm
    sim.opts["ncpu"] = p["ncpu"]
    sim.sched.p_stay = p["p_stay"]
    env = p["env0"]                  # the model: what the environment holds
    if env is not None:
        os.environ["RAYTOOLS_PROC_CAP"] = env
    paths = []

    def images(n):
        while len(paths) < n:
            f = os.path.join(sim.scratch, f"i{len(paths)}.hdr")
            I.write_hdr(f, dict(w=5, h=5, kind="glare",
                                seed=p["seed"] + len(paths)),
                        O.VIEW)
            paths.append(f)
        return paths[:n]

    def limit(cap=None):
        if cap is not None:
            return cap
        v = valid(env)
        return v if v is not None else p["ncpu"]

    def check(where):
        have = os.environ.get("RAYTOOLS_PROC_CAP")
        if have != env:
            raise Violation(f"the cap setting is {have!r} after {where}, "
                            f"instead of {env!r}")
        got = io.get_nproc()
        if got != limit():
            raise Violation(f"get_nproc() gives {got!r} after {where}, "
                            f"instead of {limit()}")

    def before():
        sim.peak_busy = 0
        sim.busy.clear()
        return len(sim.procs)

    def bound(n0, lim, where, exact=None):
        if sim.peak_busy > lim:
            raise Violation(f"too many calls at one time: {sim.peak_busy} "
                            f"running with a cap of {lim} in {where}")
        if exact is not None and sim.peak_busy < exact:
            raise Violation(f"fewer workers than the cap: at most "
                            f"{sim.peak_busy} of {exact} used in {where}")
        sim.sched.drain()

    sim.nontrivial = len(p["steps"]) > 0
    check("start")
    for j, s in enumerate(p["steps"]):
        k = s["k"]
        what = f"step {j} {s}"
        sim.count("step." + k)
        if k in ("set", "low"):
            io.set_nproc(s["v"])
            env = str(s["v"]) if s["v"] >= 1 else None
        elif k == "none":
            io.set_nproc(None)
        elif k == "bad":
            try:
                io.set_nproc(s["v"])
            except (ValueError, TypeError):
                pass
            else:
                raise Violation(f"a non-integer cap is accepted: {s['v']!r}")
        elif k == "unset":
            io.unset_nproc()
            env = None
        elif k in ("env", "junk"):
            env = os.environ["RAYTOOLS_PROC_CAP"] = str(s["v"])
        elif k == "del":
            os.environ.pop("RAYTOOLS_PROC_CAP", None)
            env = None
        elif k == "getk":
            got = io.get_nproc(s["v"])
            if got != s["v"]:
                raise Violation(f"get_nproc({s['v']}) gives {got!r}")
        elif k == "tqdm":
            if s["workers"] != "threads":
                t = TStqdm(workers=s["workers"], cap=s["cap"],
                           context=s["context"], disable=True)
                lim = limit(s["cap"])
                if t.nworkers != lim:
                    raise Violation(f"a pool of {t.nworkers} workers instead "
                                    f"of {lim}: {what}")
                t.pool.shutdown()
                t.close()
        elif k == "pool":
            lim = limit(s["cap"])
            if lim > 12:
                continue
            its = [P.Item(i=i, kind=13, yields=1,
                          dur=100 if s["long"] else i % 3 * .2)
                   for i in range(s["n"])]
            if s["fail"] == "exc":
                its[-1]["exc"] = "value"
            elif s["fail"] == "die" and s["workers"] != "threads":
                its[0]["die"] = "kill"
            elif s["fail"] == "start":
                sim.faults = {"proc.start": .4}
            n0 = before()
            try:
                got = pool_call(P.work, its, cap=s["cap"], expandarg=False,
                                workers=s["workers"], pbar=False,
                                context=s["context"])
                if got != list(range(s["n"])):
                    raise Violation(f"wrong results {short(got)}")
            except (Violation, HarnessError):
                raise
            except Exception as ex:
                if not s["fail"]:
                    raise Violation(f"the batch failed: {ex!r} at {what}")
            sim.faults = {}
            if s["workers"] != "threads":
                bound(n0, lim, what, min(lim, s["n"]) if s["long"] and not
                      s["fail"] else None)
            else:
                sim.sched.drain()
        elif k == "gss":
            if limit(s["cap"]) > 12:
                continue
            fs = images(s["n"])
            n0 = before()
            got = hvsgsm.gss_compute(fs, cap=s["cap"])
            if len(got) != s["n"]:
                raise Violation(f"{len(got)} scores for {s['n']} images")
            bound(n0, limit(s["cap"]), what)
        elif k == "cli":
            fs = images(s["n"])
            argv = [] if s["nopt"] is None else ["-n", str(s["nopt"])]
            argv += [s["cmd"], " ".join(fs)]
            lim = None
            if s["cmd"] == "metric":
                argv += ["-metrics", " ".join(s["metrics"])]
                if s["noparallel"]:
                    argv.append("--no-parallel")
                    lim = 1
            elif s["cmd"] == "align":
                argv += ["-rotate", "20"]
            elif s["cmd"] == "solid2ang":
                argv += ["--no-stdout"]
            if s["nopt"] is not None:
                env = str(s["nopt"]) if s["nopt"] >= 1 else None
            lim = limit(lim)
            if lim > 12:
                io.unset_nproc()
                env = None
                continue
            n0 = before()
            code, ex = O.cli(argv)
            if code or ex is not None:
                raise Violation(f"{argv} failed: {code} {ex!r} "
                                f"{stderr_text()[-300:]}")
            bound(n0, lim, what)
        sim.event("cap", io.get_nproc(), sim.peak_busy)
        check(what)
