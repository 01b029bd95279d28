"""C07 image input and output always finishes"""
import os
import threading
import numpy as np
from sim import core, rgbe
from checks.common import *
from checks import images as I
from checks import ops as O

PROP = "C07"
FAMILIES = ["call", "fault", "flood", "big", "threads", "cli", "call-b",
            "stall", "cli-fault"]
RULE = ("seeded sequences of image reads, writes, header reads, transforms, "
        "metrics and command line runs with pipes of 1 byte to 64 kB, helpers "
        "printing up to 200 kB of error output before or after their results, "
        "stalling up to 4000 simulated seconds, dying or failing at any "
        "point, and several threads doing so at once; any state in which "
        "nothing can ever run again, or that makes no progress within a "
        "bounded number of steps, is a hang; non-trivial: at least one helper "
        "ran; distinct by case and recorded history")
REAL, STUB = IO_REAL, IO_STUB
ASSUME = ["a helper that is not killed ends once its input ends and its "
          "output is drained", "the command line runs in the same process"]
QUICK_S = 40
SLOW = ("gss", "gss_save")


def gen(rng, fam, tier):
    base = fam.split("-")[0]
    n = rng.choice([1, 1, 2, 3])
    im = I.gen_image(rng, square=True, big=16, kinds=["rand", "glare"])
    im["w"] = im["h"] = max(4, im["w"])
    ops = [O.gen_op(rng) for _ in range(n)]
    if rng.random() < .85:
        ops = [o if o["op"] not in SLOW else dict(o, op="array") for o in ops]
    p = dict(im=im, ops=ops, cap=rng.choice([1, 2, 5, 16, 64, 512, 4096]),
             header=O.VIEW + rng.sample(I.HEAD[2:], rng.randrange(0, 4)),
             plan=dict(faults=list(I.FAULTS + ("short",)),
                       p=.4 if "fault" in fam else 0, flood=True, stall=True),
             nfault=rng.choice([1, 2, 5]))
    if fam == "flood":
        p["plan"]["stall"] = False
    if fam == "big":
        im["w"] = im["h"] = rng.choice([130, 200, 260])
        p["cap"] = rng.choice([4096, 65536, 65536])
        p["ops"] = [dict(o, op=rng.choice(["array", "carray", "stream",
                                           "write", "cwrite", "solid2ang"]))
                    for o in ops[:2]]
        for o in p["ops"]:
            o["a"] += 50000
    if fam == "threads":
        p["ops"] = [O.gen_op(rng, [o for o in O.OPS if o not in SLOW and
                                   o not in ("swrite",)])
                    for _ in range(rng.choice([2, 3, 4]))]
    if base == "cli":
        p["nimg"] = rng.choice([1, 2, 3])
        p["cmd"] = rng.choice(["metric", "project", "align", "solid2ang",
                               "cleanheader", "metric"])
        p["ncpu"] = rng.choice([1, 2, 4])
        im["w"] = im["h"] = rng.choice([4, 6, 9])
    return p


def shrink(p):
    yield from I.shrink_common(p)
    for i in range(len(p["ops"])):
        if len(p["ops"]) > 1:
            yield dict(p, ops=p["ops"][:i] + p["ops"][i + 1:])


def run(p, sim):
    d = os.path.join(sim.scratch, "d")
    os.mkdir(d)
    paths = []
    for k in range(p.get("nimg", 1)):
        f = os.path.join(d, f"i{k}.hdr")
        I.write_hdr(f, dict(p["im"], seed=p["im"]["seed"] + k), p["header"])
        paths.append(f)
    I.setup(p, sim)
    sim.opts["ncpu"] = p.get("ncpu", 2)
    fam = p["family"]

    def fault():
        return [k for k in sim.counts if k.startswith("fault.")]

    if fam.startswith("cli"):
        cmd = p["cmd"]
        files = paths[:1] if cmd == "cleanheader" else paths
        argv = [cmd, " ".join(files)]
        if cmd == "metric":
            argv += ["-metrics", "illum dgp"]
        elif cmd == "align":
            argv += ["-rotate", "30"]
        code, ex = O.cli(argv)
        sim.event("cli", cmd, code)
        sim.count("cli." + cmd)
        sim.sched.drain()
        sim.nontrivial = sim.counts.get("helper_runs", 0) > 0
        if code == 0 and ex is None:
            return
        if not fault():
            raise Violation(f"{cmd} failed although nothing went wrong: "
                            f"{code} {ex!r} {stderr_text()[-300:]}")
        return
    res = {}

    def one(k, op):
        try:
            O.do(op, paths[0], os.path.join(d, f"o{k}.hdr"))
            res[k] = None
        except (Violation, HarnessError):
            raise
        except Exception as ex:
            res[k] = ex
        sim.event("op", op["op"], type(res[k]).__name__)
        sim.count("op." + op["op"])
    if fam == "threads":
        th = [threading.Thread(target=one, args=(k, op))
              for k, op in enumerate(p["ops"])]
        for t in th:
            t.start()
        for t in th:
            t.join()
    else:
        for k, op in enumerate(p["ops"]):
            one(k, op)
    sim.nontrivial = sim.counts.get("helper_runs", 0) > 0
    if not fault():
        for k, ex in res.items():
            if ex is not None:
                raise Violation(f"{p['ops'][k]['op']} failed although nothing "
                                f"went wrong: {type(ex).__name__}({ex})")
