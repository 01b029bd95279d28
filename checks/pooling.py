"""workloads for the batch helper: functions run by simulated workers"""
import collections
import collections.abc
import numpy as np
from sim import core


class CustomError(Exception):
    def __init__(self, a, b=0):
        super().__init__(a, b)


EXCS = {
    "value": lambda i: ValueError(f"bad {i}"),
    "key": lambda i: KeyError(i),
    "custom": lambda i: CustomError(i, "x"),
    "os": lambda i: FileNotFoundError(2, f"no {i}"),
    "stop": lambda i: StopIteration(i),
    "timeout": lambda i: TimeoutError(f"t{i}"),
    "cancel": lambda i: _cancelled(i),
    "broken": lambda i: _broken(i),
    "exit": lambda i: SystemExit(i),
    "kbd": lambda i: KeyboardInterrupt(f"k{i}"),
    "assert": lambda i: AssertionError(i),
    "index": lambda i: IndexError(i),
    "mem": lambda i: MemoryError(),
}


def _cancelled(i):
    from concurrent.futures import CancelledError
    return CancelledError(f"c{i}")


def _broken(i):
    from concurrent.futures.process import BrokenProcessPool
    return BrokenProcessPool(f"b{i}")


def result(kind, i, a, kw):
    """the value a call returns: a pure function of its arguments"""
    tot = [i] + [repr(x) for x in a] + sorted(kw.items())
    k = kind % 14
    return [lambda: None, lambda: False, lambda: 0, lambda: "",
            lambda: [], lambda: np.arange(i % 5) * 1.5,
            lambda: ValueError("a value, not an error", i),
            lambda: tot, lambda: (i, tot), lambda: float("nan"),
            lambda: {"i": i, "a": tot}, lambda: b"x" * (i * 7000 % 200001),
            lambda: np.full((2, 3), i), lambda: i][k]()


def work(item, *rest, **kw):
    """one call: records itself, takes a simulated while, returns or raises"""
    return _do(item["i"], item, rest, kw)


def _do(i, item, rest, kw):
    s = core.SIM
    key = repr((i, rest, sorted(kw.items())))
    s.call("start", key)
    for _ in range(item.get("yields", 0)):
        s.sched.yield_("work")
    d = item.get("dur", 0)
    if d:
        s.sched.sleep(d)
    if item.get("die"):
        import os
        import signal
        if s.is_child:
            if item["die"] == "exit":
                os._exit(3)
            os.kill(os.getpid(), signal.SIGKILL)
    inner = None
    if item.get("nest"):
        inner = _nested(item["nest"], i, s.is_child)
    s.call("end", key)
    if item.get("exc"):
        raise EXCS[item["exc"]](i)
    if inner is not None:
        return inner
    return result(item["kind"], i, rest, kw)


def _nested(nest, i, child):
    """a call that runs a batch of its own"""
    from raytools.utility import pool_call
    w = nest["workers"]
    if child:
        w = False
    return pool_call(leaf, nested_args(nest, i), i, cap=nest["cap"],
                     workers=w, pbar=nest["pbar"], tag="n")


def nested_args(nest, i):
    return [(i * 100 + j, nest["n"] - j) for j in range(nest["n"])]


def leaf(a, b, c, tag=None):
    s = core.SIM
    s.sched.yield_("leaf")
    s.sched.sleep(b * .25)
    return [a, b, c, tag]


def value(it, rest, kw):
    """what a call has to return"""
    if it.get("nest"):
        return [leaf_value(x, it["i"]) for x in nested_args(it["nest"],
                                                            it["i"])]
    return result(it["kind"], it["i"], rest, kw)


def leaf_value(x, i):
    return [x[0], x[1], i, "n"]


class Seq(collections.abc.Sequence):
    """a sequence that is not a list"""

    def __init__(self, items):
        self._items = list(items)

    def __getitem__(self, k):
        return self._items[k]

    def __len__(self):
        return len(self._items)


class Item(dict):
    """an argument that is itself iterable (as strings and paths are)"""


def gen_batch(rng, fam, tier):
    n = rng.choice([0, 1, 1, 2, 3, 3, 4, 5, 6, 8, 12, 20] +
                   ([40] if tier == "thorough" else []))
    if "long" in fam:
        n = rng.choice([33, 50, 64, 65, 66, 100, 127, 129, 130, 160]) \
            if rng.random() < .8 else rng.choice([257, 300, 300, 520, 1030])
    items = []
    style = rng.randrange(4)
    for i in range(n):
        dur = {0: 0, 1: rng.choice([0, .1, .5, 2]), 2: (n - i) * .1,
               3: rng.choice([0, 0, 100, 4e3, 1e5])}[style]
        items.append(dict(i=i, kind=rng.randrange(14), dur=round(dur, 3),
                          yields=rng.randrange(3)))
    if "long" in fam:
        for it in items:
            it.update(yields=0, kind=it["kind"] if it["kind"] != 11 else 7)
    if n > 2 and rng.random() < .25:        # identical calls
        for j in range(rng.randrange(1, n)):
            items[rng.randrange(n)] = dict(items[rng.randrange(n)])
    p = dict(items=items,
             extra=[rng.choice([0, 1, None, "ab", [1, 2], 2.5])
                    for _ in range(rng.randrange(3))],
             fixed=[rng.choice([0, None, "f", (1, 2), [3]])
                    for _ in range(rng.choice([0, 0, 1, 2]))],
             kw={k: rng.choice([1, "v", None, [1], False]) for k in
                 rng.sample(["scale", "total", "timeout", "position", "save",
                             "outf", "initial", "nproc", "max_workers",
                             "disable"], rng.choice([0, 0, 1, 2]))},
             expand=rng.random() < .7,
             cap=rng.choice([None, None, 1, 2, 3, 4, 7]),
             env=rng.choice([None, None, "1", "2", "5", "junk"]),
             ncpu=rng.choice([1, 2, 4, 8]),
             pbar=rng.random() < .6,
             context=rng.choice(["fork", "fork", "forkserver"]),
             desc=rng.choice(["batch", "batch", None, "", "a {} %s b",
                              "\u00fc" * 60]),
             seq=rng.choice(["list", "list", "tuple", "array", "seq", "deque",
                             "keys"]),
             p_stay=rng.choice([.2, .5, .8, .95]))
    p["workers"] = {"none": rng.choice([False, None, 0, ""]),
                    "thread": rng.choice(["t", "thread", "threads", "T",
                                          "Thread"]),
                    }.get(fam.split("-")[0],
                          rng.choice([True, True, 1, "process", "p"]))
    return p


def kind_of(p):
    w = p["workers"]
    if not w:
        return "none"
    if str(w).lower() in ("t", "thread", "threads"):
        return "thread"
    return "process"


def build(p):
    """-> args sequence, per call positional arguments"""
    calls = []
    args = []
    for it in p["items"]:
        it = Item(it)
        if p["expand"]:
            args.append((it, *p["extra"]))
            calls.append((it, tuple(p["extra"])))
        else:
            args.append(it)
            calls.append((it, ()))
    how = p["seq"]
    if how == "tuple":
        args = tuple(args)
    elif how == "seq":
        args = Seq(args)
    elif how == "deque":
        args = collections.deque(args)
    elif how == "keys":
        args = dict(enumerate(args)).values()
    elif how == "array":
        n = len(args)
        a = np.empty((n, 1 + len(p["extra"])) if p["expand"] else n, object)
        for k, x in enumerate(args):
            if p["expand"]:
                for c, y in enumerate(x):
                    a[k, c] = y
            else:
                a[k] = x
        args = a
    return args, calls


def setup(p, sim):
    import os
    sim.opts["ncpu"] = p["ncpu"]
    sim.sched.p_stay = p["p_stay"]
    if p["env"] is not None:
        os.environ["RAYTOOLS_PROC_CAP"] = p["env"]


def fixed_of(p):
    return tuple(tuple(x) if isinstance(x, list) and len(x) == 2 else x
                 for x in p["fixed"])


def shrink_batch(p):
    its = p["items"]
    n = len(its)
    for k in (n // 2, n - 1):
        if 0 < k < n:
            yield dict(p, items=its[:k])
            yield dict(p, items=its[-k:])
    for j in range(n):
        if n > 1:
            yield dict(p, items=its[:j] + its[j + 1:])
    for f, v in (("extra", []), ("fixed", []), ("kw", {}), ("pbar", False),
                 ("env", None), ("context", "fork"), ("seq", "list"),
                 ("cap", 1), ("cap", 2), ("ncpu", 2), ("expand", True)):
        if p[f] != v:
            yield dict(p, **{f: v})
    for f, v in (("dur", 0), ("yields", 0), ("kind", 13)):
        if any(i.get(f) != v for i in its):
            yield dict(p, items=[dict(i, **{f: v}) for i in its])
