"""Seam: files opened by the code under test.

While sim.file_faults is set, open() returns ordinary buffered/text files over
a raw file whose opens, reads, writes and closes can fail, and whose reads and
writes can be short, as decided by the simulator.
"""
import builtins
import errno
import io
import os
import sys

from sim import core

REAL_OPEN = io.open
ERR = (errno.EIO, errno.ENOSPC, errno.EDQUOT)
OPENERR = (errno.EMFILE, errno.EIO, errno.EACCES, errno.ENOMEM)


def _fail(sim, name, errs=ERR):
    e = errs[sim.choose(len(errs), name + ".errno")]
    raise OSError(e, os.strerror(e) + " (simulated)")


class FaultRaw(io.FileIO):
    _sim = None
    _w = False

    def write(self, b):
        s = self._sim
        if s is not core.SIM or s is None:
            return super().write(b)
        b = memoryview(b).cast("B")
        if len(b) and s.fault("file.write"):
            k = s.choose(4, "file.write.part")
            super().write(b[:len(b) * k // 4])
            _fail(s, "file.write")
        if len(b) > 1 and s.opts.get("short_io"):
            k = s.choose(4, "file.short", .5)
            if k:
                s.count("short_writes")
            b = b[:{0: len(b), 1: 1, 2: (len(b) + 1) // 2,
                    3: len(b) - 1}[k]]
        return super().write(b)

    def readinto(self, b):
        s = self._sim
        if s is not core.SIM or s is None:
            return super().readinto(b)
        b = memoryview(b).cast("B")
        if s.fault("file.read"):
            _fail(s, "file.read")
        n = len(b)
        if n > 1 and s.opts.get("short_io"):
            k = s.choose(4, "file.short", .5)
            if k:
                s.count("short_reads")
            n = {0: n, 1: 1, 2: (n + 1) // 2, 3: n - 1}[k]
        return super().readinto(b[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return bytes(b[:n])

    def readall(self):
        out = []
        while True:
            b = bytearray(4096)
            n = self.readinto(b)
            if not n:
                return b"".join(out)
            out.append(bytes(b[:n]))

    def close(self):
        if self.closed:
            return super().close()
        s = self._sim
        super().close()
        if self._w and s is not None and s is core.SIM and \
                s.fault("file.close"):
            _fail(s, "file.close")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    s = core.SIM
    if s is None or not getattr(s, "file_faults", False) or \
            "+" in mode and "b" not in mode:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    binary = "b" in mode
    if not binary and (buffering == 0):
        raise ValueError("can't have unbuffered text I/O")
    if binary and (encoding or errors or newline):
        raise ValueError("binary mode doesn't take an encoding argument")
    rawmode = mode.replace("b", "").replace("t", "")
    s.count("files_opened")
    # (temporary files are opened with an opener and tried again elsewhere)
    if not isinstance(file, int) and opener is None and s.fault("file.open"):
        _fail(s, "file.open", OPENERR)
    raw = FaultRaw(file, rawmode, closefd, opener)
    raw._sim = s
    raw._w = any(c in rawmode for c in "wax+")
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else 8192
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif raw._w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline,
                         line_buffering=buffering == 1)
    t.mode = mode
    return t


# files used by descriptor: faults strike where raytools itself calls os.*
REAL_OS = {k: getattr(os, k) for k in ("open", "read", "write")}


def _armed():
    s = core.SIM
    if s is None or not getattr(s, "file_faults", False):
        return None
    g = sys._getframe(2).f_globals.get("__name__", "")
    return s if g.split(".")[0] == "raytools" else None


def os_open(path, flags, mode=0o777, *, dir_fd=None):
    s = _armed()
    if s:
        s.count("files_opened")
        if s.fault("file.open"):
            _fail(s, "file.open", OPENERR)
    return REAL_OS["open"](path, flags, mode, dir_fd=dir_fd)


def os_read(fd, n, /):
    s = _armed()
    if s:
        if s.fault("file.read"):
            _fail(s, "file.read")
        if n > 1 and s.opts.get("short_io"):
            k = s.choose(4, "file.short", .5)
            if k:
                s.count("short_reads")
            n = {0: n, 1: 1, 2: (n + 1) // 2, 3: n - 1}[k]
    return REAL_OS["read"](fd, n)


def os_write(fd, b, /):
    s = _armed()
    if s:
        b = memoryview(b).cast("B")
        if len(b) and s.fault("file.write"):
            k = s.choose(4, "file.write.part")
            REAL_OS["write"](fd, b[:len(b) * k // 4])
            _fail(s, "file.write")
        if len(b) > 1 and s.opts.get("short_io"):
            k = s.choose(4, "file.short", .5)
            if k:
                s.count("short_writes")
            b = b[:{0: len(b), 1: 1, 2: (len(b) + 1) // 2,
                    3: len(b) - 1}[k]]
    return REAL_OS["write"](fd, b)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.open, os.read, os.write = os_open, os_read, os_write
    from numpy.lib import _datasource
    _datasource._file_openers.keys()
    _datasource._file_openers._file_openers[None] = sim_open


def arm(sim, faults, p, short=True):
    """faults: names among file.open, file.read, file.write, file.close"""
    sim.file_faults = True
    sim.opts["short_io"] = short
    for f in faults:
        sim.faults[f] = p


def disarm(sim):
    sim.file_faults = False
    for f in ("file.open", "file.read", "file.write", "file.close"):
        sim.faults.pop(f, None)
