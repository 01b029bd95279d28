"""helpers shared by the checks"""
import gc
import io as _io
import os
import re
import sys

import numpy as np

from sim import core
from sim.core import Violation, Skip, HarnessError

SCHED_REAL = ["raytools (all modules)", "concurrent.futures "
              "ThreadPoolExecutor/ProcessPoolExecutor/Future code",
              "threading Condition/Event/Semaphore/Thread code", "tqdm"]
SCHED_STUB = ["lock, thread start, clock and sleep", "worker processes are "
              "really forked but every step is released by the scheduler",
              "inter-process queues, pipe wait"]
IO_REAL = ["raytools (all modules)", "getinfo, pvalue (the real binaries "
           "compute every helper's output)", "numpy, scipy", "file system of "
           "a scratch directory"]
IO_STUB = ["subprocess.Popen and its pipes (finite capacity, partial "
           "transfers, stalls, deaths, error output)", "clock"]


def deep_eq(a, b):
    """same types, same values (nan equal)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and \
            (a.tobytes() == b.tobytes() or
             np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, BaseException):
        return deep_eq(a.args, b.args)
    return a == b


def close(a, b, rtol=1e-9, atol=0):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                              equal_nan=True)


def stderr_text():
    sys.stderr.flush()
    with open(os.path.join(os.path.dirname(core.SIM.scratch), ".stderr"),
              "rb") as f:
        return f.read().decode("utf-8", "replace")


def stdout_bytes(reset=False):
    sys.stdout.flush()
    p = os.path.join(os.path.dirname(core.SIM.scratch), ".stdout")
    with open(p, "rb") as f:
        b = f.read()
    if reset:
        os.ftruncate(1, 0)
        os.lseek(1, 0, 0)
    return b


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def mask(rng, n, p):
    return [i for i in range(n) if rng.random() < p]


def run_threads(sim, fns):
    """run the functions in as many threads, started together, with
    preemption inside the package; raises the first error"""
    import threading
    gate = threading.Barrier(len(fns))
    errs = []

    def body(t, fn):
        try:
            gate.wait()
            fn()
        except BaseException as ex:
            errs.append((t, ex))
    ts = [threading.Thread(target=body, args=(t, fn))
          for t, fn in enumerate(fns)]
    sim.sched.enable_preempt()
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    sys.settrace(None)
    sim.sched.preempt_on = False
    if errs:
        raise min(errs, key=lambda e: e[0])[1]
