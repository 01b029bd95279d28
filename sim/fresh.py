"""A pristine copy of the process, forked before a history starts.

Each request runs in its own fork of that copy: what it returns is what a
fresh interpreter that made only this call returns (no simulation, no faults).
"""
import contextlib
import os
import sys
import zlib

from sim import core


class Fresh:
    def __init__(self):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.memo = {}
        self.pid = core.fork()
        if self.pid == 0:
            try:
                core.SIM = None
                sys.settrace(None)
                os.close(self.r)
                os.close(self.w)
                while True:
                    req = core.recv(r)
                    if req is None:
                        break
                    fn, a, k = req
                    core.send(w, core.isolated(fn, *a, **k))
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)

    def __call__(self, fn, *a, **k):
        """('ok', value) or ('exc', type name, text)"""
        key = (fn.__name__, repr(a), repr(k))
        if key not in self.memo:
            core.send(self.w, (fn, a, k))
            res = core.recv(self.r)
            if res is None:
                raise core.HarnessError("the fresh process died")
            if res[0] == "unpicklable":
                raise core.HarnessError(repr(res))
            self.memo[key] = res
        return self.memo[key]

    def close(self):
        os.close(self.w)
        os.close(self.r)
        core.SIM, s = None, core.SIM
        try:
            os.waitpid(self.pid, 0)
        finally:
            core.SIM = s


class CallFault:
    """an exception at the k-th call of a package function in `files`"""
    SKIP = {"viewangle", "ivm", "dxyz", "aspect", "bbox", "<lambda>",
            "<module>"}

    def __init__(self, sim, files, k, exc=MemoryError):
        self.sim, self.files, self.k, self.exc = sim, files, k, exc
        self.n = 0
        self.hit = None

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)

    def trace(self, frame, event, arg):
        c = frame.f_code
        if self.hit is None and event == "call" and \
                c.co_filename.startswith(self.sim.pkg) and \
                c.co_name not in self.SKIP and \
                any(f in c.co_filename[len(self.sim.pkg):]
                    for f in self.files):
            if self.n == self.k:
                self.hit = c.co_name
                self.sim.injected_fault("alloc" if self.exc is MemoryError
                                        else "interrupt")
                raise self.exc("simulated in " + c.co_name)
            self.n += 1
        return None


class LineFault(CallFault):
    """an exception before the k-th line of package code in `files`"""

    def trace(self, frame, event, arg):
        c = frame.f_code
        if self.hit is None and c.co_filename.startswith(self.sim.pkg) and \
                any(f in c.co_filename[len(self.sim.pkg):]
                    for f in self.files) and c.co_name not in (
                        "<lambda>", "<module>"):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line" and self.hit is None:
            if self.n == self.k:
                self.hit = frame.f_code.co_name
                self.sim.injected_fault("alloc" if self.exc is MemoryError
                                        else "interrupt")
                raise self.exc("simulated in " + self.hit)
            self.n += 1
        return self.local


class SiteFault(LineFault):
    """an exception where a drawn site of package code is first reached: every
    function (or line) is such a site with probability 1/m"""

    def __init__(self, sim, files, salt, m, line=False, exc=MemoryError):
        super().__init__(sim, files, None, exc)
        self.salt, self.m, self.line, self.sites = salt, m, line, {}

    def strike(self, *site):
        if site not in self.sites:
            self.sites[site] = zlib.crc32(repr((self.salt,) + site).encode()) \
                % self.m == 0
        if self.sites[site]:
            self.hit = site
            self.sim.injected_fault("alloc" if self.exc is MemoryError
                                    else "interrupt")
            raise self.exc(f"simulated in {site[0]}")

    def trace(self, frame, event, arg):
        if super().trace(frame, event, arg) is None:
            return None
        if self.line:
            return self.local
        if frame.f_code.co_name not in self.SKIP:
            self.strike(frame.f_code.co_name)
        return None

    def local(self, frame, event, arg):
        if event == "line" and self.hit is None:
            self.strike(frame.f_code.co_name, frame.f_lineno -
                        frame.f_code.co_firstlineno)
        return self.local


def draw(rng, calls=25, lines=(5, 30, 120), only=()):
    """parameters of a memory fault or interrupt; half of them in one of the
    files `only`"""
    f = dict(exc=rng.choice(["memory", "interrupt"]),
             line=rng.random() < .5)
    if rng.random() < .5:
        f["k"] = rng.randrange(rng.choice(lines) if f["line"] else calls)
    else:
        f.update(salt=rng.randrange(1 << 30),
                 m=rng.choice([8, 30, 100]) if f["line"] else
                 rng.choice([2, 4, 8, 16]))
    if only and rng.random() < .5:
        f["only"] = rng.choice(only)
    return f


def fault(sim, files, f):
    """the fault drawn by draw (None: no fault)"""
    if not f:
        return contextlib.nullcontext()
    exc = dict(memory=MemoryError, interrupt=KeyboardInterrupt)[f["exc"]]
    if "only" in f:
        files = [f["only"]]
    if "salt" in f:
        return SiteFault(sim, files, f["salt"], f["m"], f["line"], exc)
    return (LineFault if f["line"] else CallFault)(sim, files, f["k"], exc)
