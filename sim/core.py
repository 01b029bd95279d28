"""Deterministic simulation core: choices, virtual time, baton scheduler.

One case runs in one freshly forked process.  Every source of nondeterminism
goes through the single global SIM object: a seeded (or replayed) Chooser, a
virtual clock, and a scheduler that lets exactly one thread run at a time.
"""
import _thread
import errno
import hashlib
import json
import os
import pickle
import random
import signal
import struct
import sys
import time as _real_time
import traceback
import zlib

REAL_SLEEP = _real_time.sleep
REAL_MONO = _real_time.monotonic
REAL_TIME = _real_time.time
real_alloc = _thread.allocate_lock
real_start = _thread.start_new_thread

SIM = None          # the active simulation (None: everything is real)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """the property is broken"""


class HarnessError(Exception):
    """the machinery is broken"""


class Skip(Exception):
    """the generated case is outside the property's quantifier"""


PREEMPT = [0, 1, 2, 3, 4, 6, 9, 14, 20, 35, 60, 120, 250, 600]


class Chooser:
    """seeded choices recorded per tag; 0 is always the benign choice"""

    def __init__(self, seed, replay=None):
        self.seed = seed
        self.replay = replay
        self.rec = {}
        self.rngs = {}
        self.n = 0

    def choose(self, n, tag, p0=None):
        if n <= 1:
            return 0
        self.n += 1
        rec = self.rec.setdefault(tag, [])
        if self.replay is not None:
            r = self.replay.get(tag, ())
            v = int(r[len(rec)]) % n if len(rec) < len(r) else 0
        else:
            rng = self.rngs.get(tag)
            if rng is None:
                rng = self.rngs[tag] = random.Random(f"{self.seed}|{tag}")
            if p0 is None:
                v = rng.randrange(n)
            elif rng.random() < p0:
                v = 0
            else:
                v = 1 + rng.randrange(n - 1)
        rec.append(v)
        return v

    def flip(self, p, tag):
        return self.choose(2, tag, 1 - p)

    def choices(self):
        out = {}
        for k, v in self.rec.items():
            v = list(v)
            while v and v[-1] == 0:
                v.pop()
            if v:
                out[k] = v
        return out


class SimThread:
    def __init__(self, tid, kind, name):
        self.id = tid
        self.kind = kind          # main | thread | proc
        self.name = name
        self.sema = real_alloc()
        self.sema.acquire()
        self.cond = None
        self.deadline = None
        self.what = ""
        self.sentinel = None
        self.frame = None


class Sched:
    """one runnable thread at a time; all switches are seeded choices"""
    max_steps = 400000

    def __init__(self, sim):
        self.sim = sim
        self.threads = []
        self.current = SimThread(0, "main", "main")
        self.main = self.current
        self.threads.append(self.current)
        self.nid = 1
        self.steps = 0
        self.switches = 0
        self.timers = []
        self.p_stay = 0.6
        self.preempt_on = False
        self.budget = 0
        self.left = 0
        self.irq = False
        self.sig = hashlib.sha256()

    # -- core
    def ready(self, t):
        if t.cond is None:
            return True
        if t.deadline is not None and t.deadline <= self.sim.now:
            return True
        return bool(t.cond())

    def _step(self):
        self.steps += 1
        self.sim.now += 1e-5
        if self.steps > self.max_steps:
            self.sim.fatal("hang", "no progress within %d scheduling steps: %s"
                           % (self.max_steps, self.dump()))

    def _pick(self, stay=None):
        while True:
            cands = [t for t in self.threads if t is not stay and self.ready(t)]
            if stay is not None and stay in self.threads and self.ready(stay):
                cands.insert(0, stay)
            if cands:
                break
            nxt = [t.deadline for t in self.threads if t.deadline is not None]
            nxt += self.timers
            nxt = [x for x in nxt if x > self.sim.now]
            if not nxt:
                self.sim.fatal("hang", "deadlock, nothing can ever run again: "
                               + self.dump())
            self.sim.now = min(nxt)
            self.timers = [x for x in self.timers if x > self.sim.now]
        if len(cands) == 1:
            return cands[0]
        p0 = self.p_stay if cands[0] is stay else None
        return cands[self.sim.chooser.choose(len(cands), "sched", p0)]

    def _switch(self, t):
        me = self.current
        if t is me:
            return
        self.switches += 1
        self.sig.update(b"%d>%d;" % (me.id, t.id))
        self.current = t
        t.sema.release()
        me.sema.acquire()

    def yield_(self, what=""):
        self._step()
        if len(self.threads) > 1:
            self._switch(self._pick(self.current))

    def block(self, cond, deadline=None, what=""):
        """wait until cond() holds (True) or the deadline passed (False)"""
        self._step()
        me = self.current
        if self.irq and me is self.main:
            self._maybe_interrupt()
        me.cond, me.deadline, me.what = cond, deadline, what
        try:
            self._switch(self._pick())
        finally:
            me.cond = me.deadline = None
            me.what = ""
        return bool(cond())

    def sleep(self, dt):
        t = self.sim.now + max(dt, 0)
        self.block(lambda: self.sim.now >= t, t, "sleep")

    def timer(self, t):
        self.timers.append(t)

    def _maybe_interrupt(self):
        f = sys._getframe(2)
        inwait = False
        while f is not None:
            n = f.f_code.co_name
            if n in ("shutdown", "__exit__", "close", "start", "submit",
                     "join", "__enter__", "cancel"):
                return
            if n in ("result", "wait", "as_completed", "exception",
                     "communicate"):
                inwait = True
            f = f.f_back
        if inwait and self.sim.fault("interrupt"):
            self.irq = False
            raise KeyboardInterrupt("simulated")

    # -- threads
    def spawn(self, fn, kind, name):
        t = SimThread(self.nid, kind, name)
        self.nid += 1

        job = [fn]
        fn = None

        def boot():
            t.sema.acquire()
            try:
                if self.preempt_on and kind == "thread":
                    sys.settrace(self.tracer)
                job[0]()
            except BaseException:
                self.sim.fatal("error", "thread %s: %s" %
                               (name, traceback.format_exc()))
            finally:
                sys.settrace(None)
            job.clear()     # nothing may run after the baton is passed on
            self.threads.remove(t)
            if t.sentinel is not None and t.sentinel._locked:
                t.sentinel._locked = False
            nxt = self._pick()
            self.sig.update(b"%d.%d;" % (t.id, nxt.id))
            self.current = nxt
            nxt.sema.release()
        self.threads.append(t)
        t.real = real_start(boot, ())
        return t

    def drain(self):
        """let everything else run until nothing can make progress"""
        me = self.current
        for _ in range(100000):
            self._step()
            cands = [t for t in self.threads if t is not me and self.ready(t)]
            if not cands:
                nxt = [t.deadline for t in self.threads
                       if t.deadline is not None] + self.timers
                nxt = [x for x in nxt if x > self.sim.now]
                if not nxt or len(self.threads) == 1:
                    return
                self.sim.now = min(nxt)
                continue
            self._switch(cands[self.sim.chooser.choose(len(cands), "sched")])
        self.sim.fatal("hang", "background work never ends: " + self.dump())

    def leftovers(self):
        return [t.name for t in self.threads if t is not self.main]

    def dump(self):
        out = []
        frames = sys._current_frames()
        for t in self.threads:
            out.append(f"{t.name}({t.what or 'runnable'})")
        f = frames.get(_thread.get_ident())
        where = []
        while f is not None and len(where) < 12:
            fn = f.f_code.co_filename
            if REPO in fn or "/concurrent/" in fn or "subprocess" in fn:
                where.append(f"{os.path.basename(fn)}:{f.f_code.co_name}")
            f = f.f_back
        return ", ".join(out) + " at " + " < ".join(where)

    # -- line level preemption inside the code under test
    def enable_preempt(self):
        """three ways: after a drawn number of lines; whenever a thread
        comes to one of a drawn set of places in the code; or in lockstep,
        taking turns after every line from a drawn offset on"""
        self.preempt_on = True
        self.site = self.sim.chooser.choose(6, "site.mode")
        self.left = 0
        if self.site in (4, 5):
            self.left = self.sim.chooser.choose(7, "lockstep")
        elif self.site:
            self.smod = (6, 20, 60)[self.site - 1]
            self.srem = self.sim.chooser.choose(self.smod, "site")
            self.sites = {}
        else:
            self._draw()
        sys.settrace(self.tracer)

    def at_site(self, code, where):
        """is this place one of the drawn ones?"""
        if self.site in (4, 5):
            if self.left > 0:
                self.left -= 1
            elif len(self.threads) > 2:
                self._step()
                ts = [t for t in self.threads if t.kind == "thread" and
                      (t is self.current or self.ready(t))]
                if self.current in ts and len(ts) > 1:
                    i = ts.index(self.current)
                    self._switch(ts[(i + 1) % len(ts)])
            return
        k = (code, where)
        v = self.sites.get(k)
        if v is None:
            v = self.sites[k] = zlib.crc32(
                f"{code.co_name}:{where}".encode()) % self.smod == self.srem
        if v and len(self.threads) > 1:
            self._step()
            stay, self.p_stay = self.p_stay, .1
            nxt = self._pick(self.current)
            self.p_stay = stay
            self._switch(nxt)

    def _draw(self):
        self.left = PREEMPT[self.sim.chooser.choose(len(PREEMPT), "preempt")]
        if self.left == 0:
            self.left = 1 << 60

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.sim.pkg) and \
                frame.f_code.co_name != "<module>":
            if self.site:
                self.at_site(frame.f_code, "call")
            return self.line
        return None

    def line(self, frame, event, arg):
        if self.site:
            if event == "line":
                self.at_site(frame.f_code, frame.f_lineno -
                             frame.f_code.co_firstlineno)
            elif event == "return":
                self.at_site(frame.f_code, "return")
        elif event == "line":
            self.left -= 1
            if self.left <= 0:
                self._draw()
                self.yield_("line")
        return self.line


class Sim:
    def __init__(self, seed, replay=None, out_fd=None):
        self.chooser = Chooser(seed, replay)
        self.now = 1.7e9
        self.t0 = self.now
        self.sched = Sched(self)
        self.out_fd = out_fd
        self.log = []
        self.counts = {}
        self.faults = {}
        self.fault_left = 1
        self.injected = 0
        self.pkg = os.path.join(os.path.realpath(REPO), "raytools") + os.sep
        self.digest = hashlib.sha256()
        self.nontrivial = False
        self.key = None
        self.is_child = False
        self.worker_alloc = None    # memory faults in worker processes
        self.procs = []           # worker processes
        self.popens = []          # helper processes
        self.pipes = []           # pipe ends held by python
        self.popen_plan = None
        self.opts = {}
        self.file_faults = False
        self.scratch = os.getcwd()
        self.started, self.running, self.busy = [], {}, set()
        self.peak = self.peak_busy = self.items = 0

    # recorded history
    def event(self, *a):
        s = repr(a)
        root = os.path.dirname(self.scratch)
        if root in s:       # the name of the scratch directory is random
            a = tuple(str(x).replace(root, "~") for x in a)
            s = repr(a)
        self.log.append(a)
        self.digest.update(s.encode("utf-8", "replace"))

    def call(self, what, i, wid=None):
        """calls of the batch under test, reported by the functions themselves"""
        self.event(f"p{wid}" if wid is not None else f"t{self.sched.current.id}",
                   what, i)
        if what == "start":
            self.started.append(i)
            self.running[(wid, i)] = 1
            self.peak = max(self.peak, len(self.running))
        else:
            self.running.pop((wid, i), None)

    def work(self, wid, on):
        """worker process wid is / is not executing a work item"""
        if on:
            self.busy.add(wid)
            self.peak_busy = max(self.peak_busy, len(self.busy))
            self.items += 1
        else:
            self.busy.discard(wid)

    def worker_gone(self, wid):
        for k in [k for k in self.running if k[0] == wid]:
            del self.running[k]

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, name):
        """does fault `name` strike here?"""
        p = self.faults.get(name, 0)
        if not p or self.fault_left <= 0:
            return False
        if self.chooser.flip(p, "f." + name):
            self.injected_fault(name)
            return True
        return False

    def injected_fault(self, name):
        self.fault_left -= 1
        self.injected += 1
        self.count("fault." + name)
        self.event("fault", name)

    def choose(self, n, tag, p0=None):
        return self.chooser.choose(n, tag, p0)

    def result(self, status, msg=""):
        d = self.digest.copy()
        d.update(self.sched.sig.digest())
        return dict(status=status, msg=str(msg)[:6000],
                    choices=self.chooser.choices(), counts=self.counts,
                    digest=d.hexdigest(), sched=self.sched.sig.hexdigest()[:16],
                    sim_time=self.now - self.t0, steps=self.sched.steps,
                    switches=self.sched.switches, nchoices=self.chooser.n,
                    injected=self.injected, nontrivial=bool(self.nontrivial),
                    key=self.key, log=[list(map(str, e)) for e in
                                       self.log[-60:]])

    def fatal(self, status, msg):
        """end the case from any thread"""
        finish(self.out_fd, self.result(status, msg), self)

    def rusage(self):
        pass


def write_all(fd, b):
    while b:
        n = os.write(fd, b)
        b = b[n:]


def send(fd, obj):
    b = pickle.dumps(obj)
    write_all(fd, struct.pack("<I", len(b)) + b)


def recv(fd):
    h = b""
    while len(h) < 4:
        c = os.read(fd, 4 - len(h))
        if not c:
            return None
        h += c
    n, = struct.unpack("<I", h)
    parts = []
    while n:
        c = os.read(fd, min(n, 1 << 20))
        if not c:
            return None
        parts.append(c)
        n -= len(c)
    return pickle.loads(b"".join(parts))


def finish(out_fd, res, sim=None):
    sys.settrace(None)
    if sim is not None:
        for p in list(sim.procs):
            if p.pid and p.alive:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except OSError:
                    pass
    if out_fd is not None:
        write_all(out_fd, json.dumps(res).encode())
    os._exit(0)


def fork():
    """fork without simulation of what the fork hooks do"""
    global SIM
    s, SIM = SIM, None
    try:
        pid = os.fork()
    finally:
        SIM = s
    return pid


def isolated(fn, *args, **kwargs):
    """run fn in a pristine forked process without simulation, return its
    outcome ('ok', value) or ('exc', type name, text)"""
    global SIM
    r, w = os.pipe()
    pid = fork()
    if pid == 0:
        try:
            SIM = None
            sys.settrace(None)
            os.close(r)
            try:
                res = ("ok", fn(*args, **kwargs))
            except BaseException as ex:
                res = ("exc", type(ex).__name__, str(ex)[:500])
            try:
                send(w, res)
            except Exception as ex:
                send(w, ("unpicklable", repr(ex), ""))
        finally:
            os._exit(0)
    os.close(w)
    res = recv(r)
    os.close(r)
    os.waitpid(pid, 0)
    if res is None:
        raise HarnessError(f"isolated {fn} gave nothing")
    return res
