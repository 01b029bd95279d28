"""Seams: threading, queues, clock, process pools.

The real standard library code of threading.Condition/Event/Semaphore/Thread,
ThreadPoolExecutor, ProcessPoolExecutor and Future runs unchanged; only its
primitives (lock, thread start, worker process, inter process queues, wait,
clock) are replaced by ones the simulator controls.
"""
import os
import pickle
import queue
import signal
import sys
import threading
import time
import types
import _thread
import errno

from sim import core
from sim.core import send, recv


class SimLock:
    """replacement of _thread.allocate_lock()"""
    __slots__ = ("_locked", "__weakref__")

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s = core.SIM
        if s is None:
            if self._locked:
                if not blocking:
                    return False
                raise core.HarnessError("lock would block outside simulation")
            self._locked = True
            return True
        sched = s.sched
        sched.yield_("lock")
        if self._locked:
            if not blocking:
                return False
            dl = None
            if timeout is not None and timeout >= 0:
                dl = s.now + timeout
            while self._locked:
                sched.block(lambda: not self._locked, dl, "lock")
                if self._locked and dl is not None and s.now >= dl:
                    return False
        self._locked = True
        return True

    acquire_lock = acquire

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = core.SIM
        if s is not None:
            s.sched.yield_("unlock")

    release_lock = release

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def sim_start_new_thread(fn, args, kwargs={}):
    s = core.SIM
    if s is None:
        return core.real_start(fn, args, kwargs)
    if s.is_child:
        raise RuntimeError("can't start new thread")
    if s.fault("thread.start"):
        raise RuntimeError("can't start new thread")
    s.count("threads")
    t = s.sched.spawn(lambda: fn(*args, **kwargs), "thread",
                      f"thread-{s.sched.nid}")
    return t.real


def sim_set_sentinel():
    lk = SimLock()
    s = core.SIM
    if s is not None:
        s.sched.current.sentinel = lk
    return lk


# ------------------------------------------------------------------- clock
def _now():
    s = core.SIM
    if s is None:
        return core.REAL_MONO()
    return s.now


def sim_time():
    s = core.SIM
    return core.REAL_TIME() if s is None else s.now


def sim_sleep(dt):
    s = core.SIM
    if s is None:
        return core.REAL_SLEEP(dt)
    s.sched.sleep(dt)


# ---------------------------------------------------- process pool primitives
class ChildSched:
    """scheduler seen inside a simulated worker process"""

    def __init__(self, ch):
        self.ch = ch
        self.steps = 0
        self.timers = []
        self.threads = [self]
        import hashlib
        self.sig = hashlib.sha256()
        self.switches = 0

    def yield_(self, what=""):
        self.steps += 1
        self.ch.rpc("yield", what)

    def block(self, cond, deadline=None, what=""):
        n = 0
        sim = self.ch
        while not cond():
            nxt = [x for x in self.timers if x > sim.now]
            if deadline is not None:
                if sim.now >= deadline:
                    return False
                nxt.append(deadline)
            if not nxt:
                sim.fatal("hang", f"worker process waits forever: {what}")
            sim.rpc("sleep", min(nxt))
            n += 1
            if n > 10000:
                sim.fatal("hang", f"worker process makes no progress: {what}")
        return True

    def sleep(self, dt):
        self.ch.rpc("sleep", self.ch.now + max(dt, 0))

    def timer(self, t):
        self.timers.append(t)

    def leftovers(self):
        return []


class ChildChooser:
    def __init__(self, ch):
        self.ch = ch

    def choose(self, n, tag, p0=None):
        if n <= 1:
            return 0
        return self.ch.rpc("choose", n, tag, p0)

    def flip(self, p, tag):
        return self.choose(2, tag, 1 - p)


class ChildSim:
    """simulation seen inside a simulated worker process: every choice, event
    and wait is decided by the parent"""
    is_child = True

    def __init__(self, parent, rfd, wfd, wid):
        self.rfd, self.wfd, self.wid = rfd, wfd, wid
        self.chooser = ChildChooser(self)
        self.sched = ChildSched(self)
        self.opts = parent.opts
        self.popen_plan = parent.popen_plan
        self.scratch = parent.scratch
        self.pkg = parent.pkg
        self.popens, self.pipes, self.procs = [], [], []
        self.faults = parent.faults
        self.file_faults = parent.file_faults
        self.nontrivial = False

    def rpc(self, *msg):
        send(self.wfd, msg)
        r = recv(self.rfd)
        if r is None:
            os._exit(99)
        return r[0]

    def tell(self, *msg):
        send(self.wfd, msg)

    @property
    def now(self):
        return self.rpc("now")

    def event(self, *a):
        self.tell("event", a)

    def call(self, what, i, wid=None):
        self.tell("call", what, i)

    def count(self, k, n=1):
        self.tell("count", k, n)

    def fault(self, name):
        if not self.faults.get(name, 0):
            return False
        return self.rpc("fault", name)

    def injected_fault(self, name):
        self.tell("injected", name)

    def choose(self, n, tag, p0=None):
        return self.chooser.choose(n, tag, p0)

    @property
    def fault_left(self):
        return self.rpc("fault_left")

    def fatal(self, status, msg):
        self.tell("fatal", status, msg)
        os._exit(98)


NONE = pickle.dumps(None)


class Sentinel:
    def __init__(self, p):
        self.p = p

    def ready(self):
        return not self.p.alive


class SimProcess:
    """multiprocessing Process: a really forked worker whose every step is
    decided by the scheduler"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={},
                 *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs
        self.pid = None
        self.alive = False
        self.exitcode = None
        self.killreq = None
        self.daemon = daemon
        self.name = name or "SimProcess"
        self.sentinel = Sentinel(self)

    def start(self):
        s = core.SIM
        s.sched.yield_("fork")
        if s.fault("proc.start"):
            raise BlockingIOError(errno.EAGAIN,
                                  "Resource temporarily unavailable")
        self.wid = len(s.procs)
        c2p = os.pipe()
        p2c = os.pipe()
        pid = core.fork()
        if pid == 0:
            code = 1
            try:
                sys.settrace(None)
                os.close(c2p[0])
                os.close(p2c[1])
                for q in s.procs:
                    for fd in (q.rfd, q.wfd) if q.alive else ():
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                if s.out_fd is not None:
                    os.close(s.out_fd)
                ch = ChildSim(s, p2c[0], c2p[1], self.wid)
                core.SIM = ch
                if s.worker_alloc:
                    from sim.fresh import fault
                    files, fs = s.worker_alloc
                    fault(ch, files, fs[self.wid % len(fs)]).__enter__()
                self.target(*self.args, **self.kwargs)
                code = 0
            except SystemExit as ex:
                code = ex.code if isinstance(ex.code, int) else 1
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(c2p[1])
        os.close(p2c[0])
        self.pid, self.rfd, self.wfd = pid, c2p[0], p2c[1]
        self.alive = True
        s.procs.append(self)
        s.count("worker_processes")
        s.sched.spawn(self._drive, "proc", f"worker-{self.wid}")

    def _die(self, sig):
        try:
            os.kill(self.pid, sig)
        except OSError:
            pass
        self._reap()

    def _reap(self):
        _, st = os.waitpid(self.pid, 0)
        self.exitcode = os.waitstatus_to_exitcode(st)
        os.close(self.rfd)
        os.close(self.wfd)
        self.alive = False
        core.SIM.work(self.wid, False)
        core.SIM.worker_gone(self.wid)
        core.SIM.event("worker", self.wid, "exit", self.exitcode)

    def _drive(self):
        s = core.SIM
        sched = s.sched
        while True:
            if self.killreq:
                return self._die(self.killreq)
            msg = recv(self.rfd)
            if msg is None:
                return self._reap()
            k = msg[0]
            if k == "event":
                s.event(f"p{self.wid}", *msg[1])
                continue
            if k == "call":
                s.call(msg[1], msg[2], self.wid)
                continue
            if k == "count":
                s.count(msg[1], msg[2])
                continue
            if k == "injected":
                s.injected_fault(msg[1])
                continue
            if k == "fatal":
                s.fatal(msg[1], msg[2])
            ans = None
            if k == "now":
                ans = s.now
            elif k == "choose":
                ans = s.chooser.choose(*msg[1:])
            elif k == "fault":
                ans = s.fault(msg[1])
            elif k == "fault_left":
                ans = s.fault_left
            elif k == "yield":
                sched.yield_("proc")
                if self._struck():
                    return
            elif k == "sleep":
                t = msg[1]
                sched.block(lambda: self.killreq or s.now >= t, t, "sleep")
                if self._struck():
                    return
            elif k == "get":
                q = SimQueue.reg[msg[1]]
                sched.block(lambda: self.killreq or q.items, None, "get work")
                if self._struck():
                    return
                ans = q.items.popleft()
                if ans != NONE:
                    s.work(self.wid, True)
            elif k == "put":
                if self._struck():
                    return
                s.work(self.wid, False)
                q = SimQueue.reg[msg[1]]
                q.items.append(msg[2])
                sched.yield_("put")
            if self.killreq:
                return self._die(self.killreq)
            try:
                send(self.wfd, (ans,))
            except BrokenPipeError:
                pass

    def _struck(self):
        if self.killreq:
            self._die(self.killreq)
            return True
        if core.SIM.fault("proc.kill"):
            self._die(signal.SIGKILL)
            return True
        return False

    def join(self, timeout=None):
        s = core.SIM
        dl = None if timeout is None else s.now + timeout
        while self.alive:
            s.sched.block(lambda: not self.alive, dl, "join process")
            if dl is not None and s.now >= dl:
                return

    def is_alive(self):
        return self.alive

    def terminate(self):
        if self.alive:
            self.killreq = self.killreq or signal.SIGTERM

    def kill(self):
        if self.alive:
            self.killreq = signal.SIGKILL

    def close(self):
        if self.alive:
            raise ValueError("Cannot close a process while it is still running.")

    @property
    def ident(self):
        return self.pid


class SimQueue:
    """inter process queue held by the parent"""
    reg = {}

    def __init__(self, maxsize=0):
        from collections import deque
        self.items = deque()
        self.maxsize = maxsize
        self.qid = len(SimQueue.reg)
        SimQueue.reg[self.qid] = self
        self._reader = self
        self._closed = False

    # parent side
    def ready(self):
        return bool(self.items)

    def recv(self):
        return pickle.loads(self.items.popleft())

    def full(self):
        return self.maxsize > 0 and len(self.items) >= self.maxsize

    def empty(self):
        return not self.items

    def put(self, obj, block=True, timeout=None):
        s = core.SIM
        if self._closed:
            raise ValueError("Queue is closed")
        if s.is_child:
            b = pickle.dumps(obj)
            s.rpc("put", self.qid, b)
            return
        if self.full():
            if not block:
                raise queue.Full
            while self.full():
                s.sched.block(lambda: not self.full(), None, "queue full")
        try:
            b = pickle.dumps(obj)
        except Exception as e:
            self._on_queue_feeder_error(e, obj)
            return
        self.items.append(b)
        s.sched.yield_("qput")

    def put_nowait(self, obj):
        self.put(obj, False)

    def get(self, block=True, timeout=None):
        s = core.SIM
        if s.is_child:
            return pickle.loads(s.rpc("get", self.qid))
        while not self.items:
            if not block:
                raise queue.Empty
            s.sched.block(lambda: self.items, None, "queue get")
        return self.recv()

    def get_nowait(self):
        return self.get(False)

    def _on_queue_feeder_error(self, e, obj):
        import traceback
        traceback.print_exc()

    def close(self):
        self._closed = True

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass

    def _terminate_broken(self):
        self.items.clear()
        self._closed = True


class SimSafeQueue(SimQueue):
    def __init__(self, max_size=0, *, ctx, pending_work_items, shutdown_lock,
                 thread_wakeup):
        self.pending_work_items = pending_work_items
        self.shutdown_lock = shutdown_lock
        self.thread_wakeup = thread_wakeup
        super().__init__(max_size)

    def _on_queue_feeder_error(self, e, obj):
        wi = self.pending_work_items.pop(obj.work_id, None)
        self.thread_wakeup.wakeup()
        if wi is not None:
            wi.future.set_exception(e)


class SimWakeup:
    def __init__(self):
        self._closed = False
        self.n = 0
        self._reader = self

    def ready(self):
        return self.n > 0

    def close(self):
        self._closed = True

    def wakeup(self):
        if not self._closed:
            self.n += 1
            core.SIM.sched.yield_("wakeup")

    def clear(self):
        self.n = 0


def sim_wait(objs, timeout=None):
    s = core.SIM
    dl = None if timeout is None else s.now + timeout
    while True:
        r = [o for o in objs if o.ready()]
        if r or (dl is not None and s.now >= dl):
            return r
        s.sched.block(lambda: any(o.ready() for o in objs), dl, "pool wait")


class SimContext:
    Process = SimProcess

    def __init__(self, method):
        self.method = method or "fork"

    def get_start_method(self, allow_none=False):
        return self.method

    def get_context(self, method=None):
        return SimContext(method or self.method)

    def SimpleQueue(self):
        return SimQueue()

    def Queue(self, maxsize=0):
        return SimQueue(maxsize)

    def cpu_count(self):
        return os.cpu_count()


def sim_get_context(method=None):
    if method not in (None, "fork", "forkserver", "spawn"):
        raise ValueError("cannot find context for %r" % method)
    return SimContext(method)


NCPU = 8


def install():
    """replace the primitives; call once, before raytools is imported"""
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    queue.SimpleQueue = queue._PySimpleQueue
    time.time = sim_time
    time.monotonic = _now
    time.perf_counter = _now
    time.sleep = sim_sleep
    threading._time = _now
    queue.time = _now
    rf = os.register_at_fork
    os.register_at_fork = lambda **k: None
    import concurrent.futures
    import concurrent.futures.thread as cft
    import concurrent.futures.process as cfp
    os.register_at_fork = rf
    cft._global_shutdown_lock = SimLock()
    cfp._SafeQueue = SimSafeQueue
    cfp._ThreadWakeup = SimWakeup
    mp = types.SimpleNamespace()
    mp.get_context = sim_get_context
    mp.connection = types.SimpleNamespace(wait=sim_wait)
    mp.util = types.SimpleNamespace(debug=lambda *a: None)
    cfp.mp = mp
    cfp._check_system_limits = lambda: None
    cft.threading_Lock = SimLock
    import multiprocessing
    multiprocessing.get_context = sim_get_context
    multiprocessing.Process = SimProcess
    multiprocessing.cpu_count = lambda: os.cpu_count()
    os.cpu_count = lambda: NCPU if core.SIM is None else \
        core.SIM.opts.get("ncpu", NCPU)
    affinity = os.sched_getaffinity
    os.sched_getaffinity = lambda pid: affinity(pid) if core.SIM is None else \
        set(range(os.cpu_count()))
    import tqdm
    import tqdm.std
    tqdm.tqdm.monitor_interval = 0
    tqdm.std.time = sim_time
    tqdm.tqdm.set_lock(threading.RLock())
    # sets of threads and futures iterate in order of creation, not of address
    import itertools
    from concurrent.futures import Future
    seq = itertools.count(1)

    def stable_hash(self):
        h = self.__dict__.get("_sim_hash")
        if h is None:
            h = self._sim_hash = next(seq)
        return h
    threading.Thread.__hash__ = stable_hash
    Future.__hash__ = stable_hash
