"""C01 batch call == sequential loop, under every schedule"""
import re
import sys
from collections import Counter
from sim import core
from checks.common import *
from checks import pooling as P

PROP = "C01"
FAMILIES = ["process", "thread", "process-b", "none", "process-c", "thread-b",
            "process", "thread-long", "process-b", "thread", "process-long",
            "none-b", "process-hist", "thread-conc", "thread-nest",
            "process-nest", "thread-hist", "process-conc"]
RULE = ("seeded batches (0-20 calls, 33-300 in two families, mixed argument shapes, fixed and keyword "
        "arguments, falsy/large/array/exception-object results, duplicate "
        "calls, inverted and random simulated durations) on every worker "
        "kind, cap, start context and progress bar setting, under a seeded "
        "schedule; batches that follow each other, run at once in several "
        "threads or are called from a call of another batch; non-trivial: at least two calls and, with workers, at "
        "least one context switch; distinct by recorded history")
REAL, STUB = SCHED_REAL, SCHED_STUB
ASSUME = ["the standard library executors behave on real primitives as they "
          "do on the simulated ones", "functions called are pure apart from "
          "recording themselves"]
QUICK_S = 35


def gen(rng, fam, tier):
    how = fam.split("-")[1:]
    p = P.gen_batch(rng, fam, tier)
    if "nest" in how:
        p["items"] = p["items"][:6] or [dict(i=0, kind=1, dur=0, yields=1)]
        for it in p["items"]:
            if rng.random() < .6:
                it["nest"] = dict(n=rng.randrange(4), cap=rng.choice(
                    [None, 1, 2]), pbar=rng.random() < .5, workers=rng.choice(
                    [False, "t", "t", True]))
    if "hist" in how or "conc" in how:
        p["items"] = p["items"][:6]
        p["more"] = []
        kinds = rng.choice([["process"], ["thread"],
                            ["process", "thread", "none"]])
        for k in range(rng.choice([1, 1, 2])):
            q = P.gen_batch(rng, rng.choice(kinds), tier)
            q["items"] = q["items"][:6]
            if "hist" in how and rng.random() < .6:
                # nearly the same batch once more
                for f in ("items", "extra", "fixed", "kw", "expand", "seq"):
                    if rng.random() < .8:
                        q[f] = p[f]
            p["more"].append(q)
        p["conc"] = "conc" in how
    return p


def shrink(p):
    if p.get("more"):
        yield dict(p, more=[])
        for k, q in enumerate(p["more"]):
            yield {**q, "more": [], "family": p["family"]}
            for v in P.shrink_batch(q):
                yield dict(p, more=p["more"][:k] + [v] + p["more"][k + 1:])
    yield from P.shrink_batch(p)
    for k, it in enumerate(p["items"]):
        if it.get("nest"):
            yield dict(p, items=p["items"][:k] +
                       [{a: b for a, b in it.items() if a != "nest"}] +
                       p["items"][k + 1:])


def run(p, sim):
    P.setup(p, sim)
    batches = [p] + p.get("more", [])
    if not p.get("conc"):
        for b in batches:
            one(b, sim)
            sim.started.clear()
        return
    import threading
    bad = []

    def job(k, b):
        try:
            one(b, sim, 1000 * (k + 1))
        except Violation as ex:
            bad.append(ex)

    ts = [threading.Thread(target=job, args=a) for a in enumerate(batches)]
    sim.sched.enable_preempt()
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.settrace(None)
    sim.sched.preempt_on = False
    sim.count("concurrent_batches", len(batches))
    if bad:
        raise bad[0]
    if sim.running:
        raise Violation(f"calls still running at return: {sim.running}")


def one(p, sim, base=None):
    from raytools.utility import pool_call
    if base:
        p = dict(p, items=[dict(it, i=it["i"] + base) for it in p["items"]])
    args, calls = P.build(p)
    fixed = P.fixed_of(p)
    kw = dict(p["kw"])
    want = [P.value(it, rest + fixed, kw) for it, rest in calls]
    expect = Counter(repr((it["i"], rest + fixed, sorted(kw.items())))
                     for it, rest in calls)
    opts = {}
    if p["cap"] is not None:
        opts["cap"] = p["cap"]
    try:
        got = pool_call(P.work, args, *fixed, expandarg=p["expand"],
                        workers=p["workers"], pbar=p["pbar"],
                        context=p["context"], desc=p["desc"], **opts, **kw)
    except Exception as ex:
        raise Violation(f"the batch raised although no call does: "
                        f"{type(ex).__name__}({ex})")
    sim.nontrivial = len(calls) > 1 and (P.kind_of(p) == "none" or
                                         sim.sched.switches > 0)
    sim.count("batch." + P.kind_of(p))
    sim.count("calls", len(calls))
    if type(got) is not list:
        raise Violation(f"not a list: {type(got).__name__}")
    if len(got) != len(want):
        raise Violation(f"wrong number of results: {len(got)} for "
                        f"{len(want)} calls")
    for j, (g, w) in enumerate(zip(got, want)):
        if not deep_eq(g, w):
            raise Violation(f"wrong result at a position: result {j} is "
                            f"{short(g)}, the sequential loop gives "
                            f"{short(w)}")
    started = Counter(k for k in sim.started if not base or k in expect)
    if started != expect:
        raise Violation("calls were not made exactly once each: made "
                        f"{short(dict(started))}, requested "
                        f"{short(dict(expect))}")
    live = [k for k in sim.running if not base or k[1] in expect]
    if live:
        raise Violation(f"calls still running at return: {live}")
    if p["pbar"] and calls and P.kind_of(p) != "none" and not base and \
            not any(it.get("nest") for it, _ in calls):
        m = re.findall(r"(\d+)/(\d+)", stderr_text())
        if m and m[-1] != (str(len(calls)),) * 2:
            raise Violation(f"progress bar ends wrong: {m[-1]} after "
                            f"{len(calls)} calls")
        if not m:
            raise Violation("progress bar ends wrong: nothing shown")
