"""Seam: helper processes (getinfo, pvalue, ...) and the pipes to them.

A SimPopen looks like subprocess.Popen.  The helper's outcome is computed by
running the real binary on exactly the bytes it was sent; when its bytes move
through the pipes, how much each read and write transfers, how long it stalls,
what it prints to its error output and whether and where it dies is decided by
the simulator.  Pipes have a finite (per case) capacity.
"""
import errno
import io
import os
import resource
import signal
import subprocess
import weakref
from subprocess import PIPE, STDOUT, DEVNULL, TimeoutExpired

from sim import core

RealPopen = subprocess.Popen
FD = [100000]


class Pipe:
    def __init__(self, cap):
        self.cap = max(1, cap)
        self.buf = bytearray()
        self.virtual = 0        # bytes a progressive writer has waiting
        # who holds each end: python (0 or 1) and helpers
        self.ends = dict(py_r=0, py_w=0, ch_r=0, ch_w=0)
        self.writer_proc = None
        self.reader_proc = None

    @property
    def ropen(self):
        return self.ends["py_r"] + self.ends["ch_r"] > 0

    @property
    def wopen(self):
        return self.ends["py_w"] + self.ends["ch_w"] > 0

    def drop(self, end):
        self.ends[end] = max(0, self.ends[end] - 1)

    def space(self):
        return max(0, self.cap - len(self.buf) - self.virtual)


class RawRead(io.RawIOBase):
    def __init__(self, pipe, sim):
        self.pipe = pipe
        self.sim = sim
        pipe.ends["py_r"] = 1
        FD[0] += 1
        self.fd = FD[0]
        sim.pipes.append(weakref.ref(self))

    def readable(self):
        return True

    def fileno(self):
        return self.fd

    def readinto(self, b):
        p, sim = self.pipe, self.sim
        if len(b) == 0:
            return 0

        def ready():
            if p.writer_proc is not None:
                p.waiting = True
                p.writer_proc.pump()
                p.waiting = False
            return p.buf or not p.wopen
        sim.sched.yield_("read")
        while not ready():
            sim.sched.block(ready, None, "read from helper")
        n = min(len(b), len(p.buf))
        if n > 1:
            k = sim.choose(4, "pipe.read", 0.7)
            n = {0: n, 1: 1, 2: (n + 1) // 2, 3: max(1, n - 1)}[k]
        b[:n] = p.buf[:n]
        del p.buf[:n]
        return n

    def close(self):
        if not self.closed:
            self.pipe.ends["py_r"] = 0
        super().close()


class RawWrite(io.RawIOBase):
    def __init__(self, pipe, sim):
        self.pipe = pipe
        self.sim = sim
        pipe.ends["py_w"] = 1
        FD[0] += 1
        self.fd = FD[0]
        sim.pipes.append(weakref.ref(self))

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def write(self, b):
        p, sim = self.pipe, self.sim
        b = bytes(b)
        if not b:
            return 0

        def ready():
            if p.reader_proc is not None:
                p.reader_proc.pump()
            return p.space() > 0 or not p.ropen
        sim.sched.yield_("write")
        while not ready():
            sim.sched.block(ready, None, "write to helper")
        if not p.ropen:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        n = min(len(b), p.space())
        if n > 1:
            k = sim.choose(4, "pipe.write", 0.8)
            n = {0: n, 1: 1, 2: (n + 1) // 2, 3: max(1, n - 1)}[k]
        p.buf += b[:n]
        return n

    def close(self):
        if not self.closed:
            self.pipe.ends["py_w"] = 0
        super().close()


def draw_plan(sim, argv):
    """what happens to this helper (all zero: nothing unusual)"""
    pl = sim.popen_plan or {}
    plan = dict(fault=None, flood=0, stall=0.0, frac=0, prog=0, late=0)
    left = pl.get("left", 1) if not sim.is_child else None
    kinds = pl.get("faults", ())
    n = sim.npop = getattr(sim, "npop", 0) + 1
    if kinds and sim.fault_left > 0:
        i = sim.choose(len(kinds) + 1, "popen.fault", 1 - pl.get("p", .3))
        if i:
            plan["fault"] = kinds[i - 1]
            sim.injected_fault("helper." + kinds[i - 1])
            plan["frac"] = sim.choose(64, "popen.frac")
    if pl.get("flood"):
        i = sim.choose(4, "popen.flood", 0.4)
        # always more than the pipe holds at the larger sizes
        plan["flood"] = min([0, 10, 5000, 200000][i],
                            1000 + 300 * sim.opts.get("pipe_cap", 65536))
        if i:
            sim.count("helper.stderr_flood")
    if pl.get("stall"):
        i = sim.choose(4, "popen.stall", 0.5)
        plan["stall"] = [0, 0.5, 30.0, 4000.0][i]
        if i:
            sim.count("helper.stall")
    plan["errfirst"] = sim.choose(2, "popen.errfirst")
    return plan


class Proc:
    """life of one helper process"""

    def __init__(self, sim, argv, shell, cwd, env, stdin, stdin_data, stdout,
                 stderr, plan):
        self.sim = sim
        self.argv, self.shell, self.cwd, self.env = argv, shell, cwd, env
        self.stdin = stdin            # Pipe, or None
        self.stdin_data = stdin_data  # bytes, or None
        self.stdout, self.stderr = stdout, stderr   # Pipe | int fd | None
        self.plan = plan
        self.rc = None                # set on exit
        self.reaped = False
        self.wake = 0
        if plan["stall"]:
            self.wake = sim.now + plan["stall"]
            sim.sched.timer(self.wake)
        self.inp = bytearray()
        self.in_dropped = False
        for end, p in (("ch_r", stdin), ("ch_w", stdout), ("ch_w", stderr)):
            if isinstance(p, Pipe):
                p.ends[end] += 1
        self.gen = self.life()
        self.pumping = False

    def pump(self):
        if self.rc is not None or self.pumping:
            return
        if self.wake and self.sim.now < self.wake:
            return
        self.pumping = True
        try:
            next(self.gen, None)
        finally:
            self.pumping = False

    def real(self, data):
        """run the real tool; this is the environment, nothing of it is
        simulated"""
        sim, core.SIM = core.SIM, None
        lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim[1], lim[1]))
        try:
            return self._real(data)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, lim)
            core.SIM = sim

    def _real(self, data):
        si = PIPE if data is not None else DEVNULL
        if data is not None and self.stdin is None:
            # a file: the tool may seek in it
            fd = os.memfd_create("stdin")
            core.write_all(fd, data)
            os.lseek(fd, 0, 0)
            si, data = fd, None
        r = RealPopen(self.argv, stdin=si, stdout=PIPE, stderr=PIPE,
                      shell=self.shell, cwd=self.cwd, env=self.env)
        if si >= 0:
            os.close(si)
        out, err = r.communicate(data)
        return r.returncode, out, err

    def _emit(self, sink, data):
        """generator: write data to sink; stops early on a closed pipe"""
        if sink is None:
            return True
        if isinstance(sink, Pipe):
            sink.virtual = 0
            while data:
                if not sink.ropen:
                    return False
                n = min(len(data), sink.space())
                if n == 0:
                    yield
                    continue
                sink.buf += data[:n]
                data = data[n:]
            return True
        while data:
            try:
                n = os.write(sink, data)
            except OSError:
                return True        # the radiance tools ignore write errors
            data = data[n:]
        return True

    def life(self):
        f = self.plan["fault"]
        if f == "noread" and self.stdin is None:
            f = "fail"
        data = self.stdin_data
        if self.stdin is not None:
            p = self.stdin
            if f == "noread":
                self.drop_in()
                yield from self._emit(self.stderr, b"cannot read input\n")
                return self._exit(1)
            limit = None
            if f == "readkill":
                limit = 1 + self.plan["frac"] * 300
            while True:
                up = p.writer_proc
                if up is not None:
                    up.pump()
                # a progressive helper passes on what it reads
                room = 1 << 30
                o = self.stdout
                if isinstance(o, Pipe) and not getattr(o, "waiting", False):
                    room = o.space() * 2
                    if not o.ropen:
                        room = 1 << 30
                if p.buf and room > 0:
                    n = min(len(p.buf), room)
                    self.inp += p.buf[:n]
                    del p.buf[:n]
                    if isinstance(o, Pipe):
                        o.virtual = min(o.cap, o.virtual + (n + 1) // 2)
                    if limit is not None and len(self.inp) >= limit:
                        self.drop_in()
                        return self._exit(-9)
                    continue
                if not p.buf and not p.wopen:
                    break
                yield
            data = bytes(self.inp)
        rc, out, err = self.real(data)
        self.sim.count("helper_runs")
        if self.plan["flood"]:
            err = b"x" * self.plan["flood"] + b"\n" + err
        k = None
        if f in ("kill", "fail", "short", "readkill", "stallkill"):
            k = self.cut(out)
            out = out[:k]
            if f == "fail":
                rc, err = 1, err + b"simulated failure\n"
            elif f == "short":
                pass
            else:
                rc = -9
        elif f == "latefail":
            rc, err = 1, err + b"simulated late failure\n"
        elif f == "latekill":
            rc = -9
        order = [(self.stdout, out), (self.stderr, err)]
        if self.plan["errfirst"]:
            order.reverse()
        for sink, d in order:
            ok = yield from self._emit(sink, d)
            if not ok:
                return self._exit(-13)
        return self._exit(rc)

    def drop_in(self):
        if isinstance(self.stdin, Pipe) and not self.in_dropped:
            self.in_dropped = True
            self.stdin.drop("ch_r")

    def cut(self, out):
        n = len(out)
        fr = self.plan["frac"]
        if fr < 8:
            k = fr                                # very early
        elif fr < 16:
            k = n - (fr - 7)                      # just before the end
        elif fr < 28:
            nl = [i + 1 for i, c in enumerate(out[:4000]) if c == 10]
            k = nl[(fr - 16) % len(nl)] if nl else n // 2
        else:
            k = n * (fr - 27) // 37
        return max(0, min(n - 1 if n else 0, k))

    def _exit(self, rc):
        self.rc = rc
        for p in (self.stdout, self.stderr):
            if isinstance(p, Pipe):
                p.drop("ch_w")
                p.virtual = 0
        self.drop_in()
        self.sim.event("helper", os.path.basename(str(
            self.argv if isinstance(self.argv, str) else self.argv[0])),
            "exit", rc)
        if self.stdout is not None and isinstance(self.stdout, int):
            pass

    def kill(self, sig):
        if self.rc is None:
            self.wake = 0
            self._exit(-sig)


class SimPopen:
    """stands in for subprocess.Popen"""

    def __new__(cls, *a, **k):
        if core.SIM is None:
            return RealPopen(*a, **k)
        return super().__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None,
                 stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None,
                 startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        sim = self._sim = core.SIM
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        self._proc = None
        self.pid = 50000 + len(sim.popens)
        if isinstance(args, (str, bytes)):
            argv = args if shell else [args]
        else:
            argv = [os.fspath(a) for a in args]
        if not shell:
            for a in argv:
                if "\0" in (a if isinstance(a, str) else a.decode("latin1")):
                    raise ValueError("embedded null byte")
        sim.count("helpers")
        sim.sched.yield_("spawn")
        reap_orphans(sim)
        prog = argv if isinstance(argv, str) else argv[0]
        sim.event("spawn", str(prog), *([str(a) for a in argv[1:]]
                                        if not isinstance(argv, str) else ()))
        plan = draw_plan(sim, argv)
        f = plan["fault"]
        if f == "missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory",
                                    prog)
        if f in ("eagain", "emfile", "enomem"):
            e = dict(eagain=errno.EAGAIN, emfile=errno.EMFILE,
                     enomem=errno.ENOMEM)[f]
            raise OSError(e, os.strerror(e))
        if not shell:
            import shutil
            if shutil.which(prog, path=(env or os.environ).get("PATH")) is None:
                raise FileNotFoundError(errno.ENOENT,
                                        "No such file or directory", prog)
        cap = sim.opts.get("pipe_cap", 65536)
        self.text_mode = bool(text or universal_newlines or encoding or errors)
        self.encoding, self.errors = encoding or "utf-8", errors or "strict"
        ip, idata = None, None
        if stdin == PIPE:
            ip = Pipe(cap)
            self.stdin = io.BufferedWriter(RawWrite(ip, sim))
        elif stdin in (None, DEVNULL):
            if stdin is None and not has_file_arg(argv):
                idata = read_fd(0)
        elif isinstance(stdin, int):
            idata = read_fd(stdin)
        else:
            raw = getattr(stdin, "raw", stdin)
            if isinstance(raw, RawRead):
                ip = raw.pipe
                ip.chained = True
            else:
                idata = read_fd(stdin.fileno())

        def outp(spec, std):
            if spec is None:
                return std, None
            if spec == PIPE:
                p = Pipe(cap)
                return p, io.BufferedReader(RawRead(p, sim))
            if spec == DEVNULL:
                return None, None
            if isinstance(spec, int):
                return spec, None
            raw = getattr(spec, "raw", spec)
            if isinstance(raw, RawWrite):
                return raw.pipe, None
            if hasattr(spec, "flush"):
                try:
                    spec.flush()
                except Exception:
                    pass
            return spec.fileno(), None
        o, self.stdout = outp(stdout, 1)
        if stderr == STDOUT:
            e = o
        else:
            e, self.stderr = outp(stderr, 2)
        if self.text_mode:
            for n in ("stdin", "stdout", "stderr"):
                st = getattr(self, n)
                if st is not None:
                    setattr(self, n, io.TextIOWrapper(
                        st, encoding=self.encoding, errors=self.errors,
                        write_through=True))
        if isinstance(o, int):
            o = os.dup(o)
        if isinstance(e, int):
            e = os.dup(e)
        self._dups = [x for x in (o, e) if isinstance(x, int)]
        pr = Proc(sim, argv, shell, cwd, env, ip, idata, o, e, plan)
        for p in (o, e):
            if isinstance(p, Pipe):
                p.writer_proc = pr
        if ip is not None:
            ip.reader_proc = pr
        self._proc = pr
        sim.popens.append(pr)
        if sim.choose(2, "popen.eager"):
            pr.pump()

    # -- waiting
    def _collect(self):
        pr = self._proc
        if pr.rc is not None and self.returncode is None:
            self.returncode = pr.rc
            pr.reaped = True
            for d in self._dups:
                try:
                    os.close(d)
                except OSError:
                    pass
            self._dups = []

    def poll(self):
        if self.returncode is None:
            self._sim.sched.yield_("poll")
            if self._sim.choose(2, "popen.poll"):
                self._proc.pump()
            else:
                self._sim.sched.sleep(0.01)
            self._collect()
        return self.returncode

    def wait(self, timeout=None):
        sim, pr = self._sim, self._proc
        if self.returncode is not None:
            return self.returncode
        dl = None if timeout is None else sim.now + timeout

        def done():
            pr.pump()
            return pr.rc is not None
        sim.sched.yield_("wait")
        while not done():
            sim.sched.block(done, dl, "wait for helper")
            if pr.rc is None and dl is not None and sim.now >= dl:
                raise TimeoutExpired(self.args, timeout)
        self._collect()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        sim, pr = self._sim, self._proc
        dl = None if timeout is None else sim.now + timeout
        if not hasattr(self, "_cin"):
            if self.text_mode and isinstance(input, str):
                input = input.encode(self.encoding, self.errors)
            self._cin = bytes(input) if input is not None else b""
            self._cout, self._cerr = bytearray(), bytearray()
            if self.stdin is not None and not self._cin:
                try:
                    self.stdin.close()
                except BrokenPipeError:
                    pass
            elif self.stdin is not None:
                try:
                    self.stdin.flush()
                except BrokenPipeError:
                    pass

        def raw(f):
            if f is None or f.closed:
                return None
            b = getattr(f, "buffer", f)
            return b.raw.pipe if hasattr(b, "raw") else None

        def move():
            """one round; True when everything is done"""
            prog = True
            while prog:
                prog = False
                pr.pump()
                if self.stdin is not None and not self.stdin.closed:
                    ip = raw(self.stdin)
                    if not ip.ropen:
                        self._cin = b""
                    if self._cin:
                        n = min(len(self._cin), ip.space())
                        if n:
                            ip.buf += self._cin[:n]
                            self._cin = self._cin[n:]
                            prog = True
                    if not self._cin:
                        try:
                            self.stdin.close()
                        except BrokenPipeError:
                            pass
                        prog = True
                for f, acc in ((self.stdout, self._cout),
                               (self.stderr, self._cerr)):
                    p = raw(f)
                    if p is None:
                        continue
                    p.waiting = True
                    if p.virtual:
                        p.virtual = 0
                        prog = True
                    if p.buf:
                        acc += p.buf
                        p.buf.clear()
                        prog = True
                    if not p.wopen and not p.buf:
                        f.close()
                        prog = True
            return (all(raw(f) is None for f in (self.stdout, self.stderr))
                    and (self.stdin is None or self.stdin.closed))
        sim.sched.yield_("communicate")
        while not move():
            sim.sched.block(move, dl, "communicate with helper")
            if dl is not None and sim.now >= dl and not move():
                raise TimeoutExpired(self.args, timeout)
        self.wait(None if dl is None else max(0, dl - sim.now))
        out = bytes(self._cout) if self.stdout is not None else None
        err = bytes(self._cerr) if self.stderr is not None else None
        if self.text_mode:
            dec = lambda b: None if b is None else b.decode(
                self.encoding, self.errors).replace("\r\n", "\n")
            return dec(out), dec(err)
        return out, err

    def send_signal(self, sig):
        if self.returncode is None:
            self._proc.kill(int(sig))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    @property
    def universal_newlines(self):
        return self.text_mode

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        for f in (self.stdout, self.stderr):
            if f:
                f.close()
        try:
            if self.stdin:
                self.stdin.close()
        finally:
            self.wait()

    def __del__(self):
        pr = getattr(self, "_proc", None)
        if pr is not None and not pr.reaped:
            pr.orphan = True
        for d in getattr(self, "_dups", ()):
            try:
                os.close(d)
            except OSError:
                pass

    def __class_getitem__(cls, k):
        return cls


def reap_orphans(sim):
    """what subprocess._cleanup does at the next start of a process"""
    for p in sim.popens:
        if getattr(p, "orphan", False) and p.rc is not None:
            p.reaped = True


def has_file_arg(argv):
    if isinstance(argv, str):
        return True
    opts_with_arg = {"-y": 1, "+x": 1, "-a": 99, "-u": 1, "-e": 1, "-g": 1}
    i = 1
    while i < len(argv):
        a = argv[i]
        if a in opts_with_arg:
            i += 1 + opts_with_arg[a]
            continue
        if not a.startswith(("-", "+")):
            return True
        i += 1
    return False


def read_fd(fd):
    out = []
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return b"".join(out)
        out.append(b)


def leaks(sim):
    """pipe ends held by python that are not closed, helpers not reaped"""
    pipes = [r() for r in sim.pipes if r() is not None and not r().closed]
    sim.pipes[:] = [r for r in sim.pipes if r() is not None and not r().closed]
    procs = []
    for p in sim.popens:
        if not p.reaped:
            procs.append(p)
    return pipes, procs


def install():
    subprocess.Popen = SimPopen
