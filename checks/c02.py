"""C02 failing batches: sequential error, nothing left behind, never blocks"""
from sim import core
from checks.common import *
from checks import pooling as P

PROP = "C02"
FAMILIES = ["process-exc", "thread-exc", "process-kill", "process-die",
            "process-start", "process-irq", "thread-irq", "none-exc",
            "thread-start", "process-mix", "process-mgr", "thread-exc-long",
            "process-exc", "thread-irq", "process-kill", "process-die",
            "process-irq", "process-mix", "process-exc-long", "process-hist",
            "thread-hist"]
RULE = ("seeded batches (alone, or followed by more in the same process) with failing calls (13 exception kinds including "
        "StopIteration, TimeoutError, CancelledError, SystemExit), workers "
        "killed or exiting at any simulated step, worker processes/threads "
        "that cannot be started and interrupts while waiting; afterwards "
        "everything still alive is run to quiescence; non-trivial: a call "
        "failed or a fault was injected; distinct by recorded history")
REAL, STUB = SCHED_REAL, SCHED_STUB
ASSUME = ["interrupts arrive while the caller waits for results",
          "exceptions raised by calls can be pickled"]
QUICK_S = 40


def gen(rng, fam, tier):
    if fam.endswith("hist"):
        # what a failed batch leaves must not reach the batches after it
        a = fam.split("-")[0]
        hows = ["exc", "exc", "irq", "start"] + \
            ["kill", "die", "mix"] * (a == "process")
        ps = [gen1(rng, f"{a}-{rng.choice(hows)}", tier)]
        for _ in range(rng.choice([1, 1, 2])):
            b = rng.choice([a, a, a, "none", "process", "thread"])
            q = gen1(rng, f"{b}-{rng.choice(['exc', 'fine', 'fine'])}", tier)
            q["env"] = ps[0]["env"]
            if rng.random() < .5:
                for f in ("extra", "fixed", "kw", "expand", "seq"):
                    q[f] = ps[0][f]
            ps.append(q)
        for q in ps:
            q["items"] = q["items"][:8]
        return dict(ps[0], more=ps[1:])
    return gen1(rng, fam, tier)


def gen1(rng, fam, tier):
    p = P.gen_batch(rng, fam, tier)
    how = fam.split("-")[1]
    its = p["items"]
    if not its:
        p["items"] = its = [dict(i=0, kind=1, dur=0, yields=1)]
    for k, it in enumerate(its):
        it["i"] = k
    if how in ("exc", "mix") or rng.random() < .15:
        for j in rng.sample(range(len(its)),
                            min(len(its), rng.choice([1, 1, 2, 3]))):
            its[j]["exc"] = rng.choice(sorted(P.EXCS))
    if how == "die":
        its[rng.randrange(len(its))]["die"] = rng.choice(["exit", "kill"])
    p["faults"] = {"kill": {"proc.kill": rng.choice([.02, .1, .3])},
                   "mix": {"proc.kill": .05, "interrupt": .1},
                   "start": {"proc.start": rng.choice([.15, .4, .9])},
                   "irq": {"interrupt": rng.choice([.2, .5])},
                   }.get(how, {})
    if how == "start" and fam.startswith("thread"):
        p["faults"] = {"thread.start": rng.choice([.3, .9])}
    if how == "mgr":
        p["faults"] = {"thread.start": .9}
    return p


def shrink(p):
    if p.get("more"):
        yield {k: v for k, v in p.items() if k != "more"}
        for k, q in enumerate(p["more"]):
            yield {**q, "family": p["family"]}
            yield dict(p, more=p["more"][:k] + p["more"][k + 1:])
            for v in P.shrink_batch(q):
                yield dict(p, more=p["more"][:k] + [v] + p["more"][k + 1:])
    yield from P.shrink_batch(p)
    its = p["items"]
    for j, it in enumerate(its):
        for k in ("exc", "die"):
            if k in it:
                yield dict(p, items=its[:j] + [
                    {a: b for a, b in it.items() if a != k}] + its[j + 1:])


def run(p, sim):
    P.setup(p, sim)
    nt = False
    for b in [p] + p.get("more", []):
        sim.sched.p_stay = b["p_stay"]
        sim.opts["ncpu"] = b["ncpu"]
        one(b, sim)
        nt = nt or sim.nontrivial
        sim.started.clear()
    sim.nontrivial = nt


def one(p, sim):
    from raytools.utility import pool_call
    before = dict(sim.counts)
    inj = sim.injected
    new = lambda k: sim.counts.get(k, 0) > before.get(k, 0)
    args, calls = P.build(p)
    fixed = P.fixed_of(p)
    kw = dict(p["kw"])
    kind = P.kind_of(p)
    want = [P.result(it["kind"], it["i"], rest + fixed, kw)
            for it, rest in calls]
    keys = [repr((it["i"], rest + fixed, sorted(kw.items())))
            for it, rest in calls]
    first = next((it for it, _ in calls if it.get("exc")), None)
    dies = kind == "process" and any(it.get("die") for it, _ in calls)
    opts = {} if p["cap"] is None else {"cap": p["cap"]}
    sim.faults = p["faults"]
    sim.sched.irq = bool(p["faults"].get("interrupt"))
    got = exc = None
    try:
        got = pool_call(P.work, args, *fixed, expandarg=p["expand"],
                        workers=p["workers"], pbar=p["pbar"],
                        context=p["context"], desc="batch", **opts, **kw)
    except (Violation, HarnessError):
        raise
    except BaseException as ex:
        exc = ex
    sim.sched.irq = False
    sim.faults = {}
    sim.event("returned", type(exc).__name__)
    running = dict(sim.running)
    nstart = len(sim.started)
    sim.sched.drain()
    left = sim.sched.leftovers()
    sim.nontrivial = bool(first or sim.injected > inj or dies)
    sim.count("batch." + kind)
    if exc is None:
        why = None
        if first is not None:
            why = f"call {first['i']} raises {first['exc']}"
        elif dies:
            why = "a worker process died executing a call"
        elif new("fault.interrupt"):
            why = "the wait was interrupted"
        elif new("fault.proc.start"):
            why = "a worker process could not be started"
        if why:
            raise Violation(f"the batch returned although it failed: {why}, "
                            f"returned {short(got)}")
        if not deep_eq(got, want):
            raise Violation("the batch returned a wrong list: "
                            f"{short(got)} instead of {short(want)}")
    elif sim.injected == inj and not dies:
        if first is None:
            raise Violation("the batch raised although no call does: "
                            f"{type(exc).__name__}({exc})")
        e = P.EXCS[first["exc"]](first["i"])
        if isinstance(e, StopIteration) and type(exc) is RuntimeError and \
                isinstance(exc.__cause__, StopIteration):
            exc = exc.__cause__         # as raised through a generator
        if type(exc) is not type(e) or not deep_eq(exc.args, e.args):
            raise Violation(
                "not the exception of the first failing call: raised "
                f"{type(exc).__name__}{short(exc.args)}, the sequential loop "
                f"raises {type(e).__name__}{short(e.args)}")
    if running:
        raise Violation(f"calls still running after the batch ended: "
                        f"{short(list(running))}")
    if len(sim.started) != nstart:
        raise Violation("calls started after the batch ended: "
                        f"{short(sim.started[nstart:])}")
    dup = [k for k in set(sim.started) if sim.started.count(k) > 1]
    if dup and len(set(keys)) == len(keys):
        raise Violation(f"calls made more than once: {short(dup)}")
    if kind == "none" and first is not None:
        k = keys.index(repr((first["i"], dict(calls=0) and 0 or
                             ((tuple(p["extra"]) if p["expand"] else ()) +
                              fixed), sorted(kw.items()))))
        if len(sim.started) != k + 1:
            raise Violation("calls made after the failing one without workers")
    if left:
        raise Violation(f"workers left behind: {left}")
