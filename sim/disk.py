"""Simulated disk trouble below the library's file access.

Python level opens go through patched `open`; native writers (numpy tofile, gmsh)
meet the same trouble through a real file size limit (RLIMIT_FSIZE with SIGXFSZ
ignored: a write beyond it is cut short and then fails, as on a full disk).

A plan is a list of faults, each bound to the n-th file opened for reading or
writing inside the scratch directory:
  {"op": "open", "mode": "r"|"w", "n": k, "errno": 13}       open fails
  {"op": "read", "n": k, "at": byte}                          EIO once past byte
  {"op": "short", "n": k, "max": m}                           reads of at most m bytes
  {"op": "full", "n": k, "at": byte}                          no byte beyond `at` is stored
"""
import builtins
import contextlib
import errno
import io
import os
import resource
import sys

import numpy as np

_open = io.open
_fromfile = np.fromfile


class FaultyRaw(io.FileIO):
    def __init__(self, path, mode, disk, eio=None, short=None):
        super().__init__(path, mode)
        self.vs_disk, self.vs_eio, self.vs_short = disk, eio, short

    def _room(self, n):
        if self.vs_short is not None:
            if n < 0 or n > self.vs_short:
                n = self.vs_short
        if self.vs_eio is not None:
            left = self.vs_eio - super().tell()
            if left <= 0:
                if super().tell() < os.fstat(self.fileno()).st_size:
                    self.vs_disk.fired["read EIO"] += 1
                    raise OSError(errno.EIO, "injected: input/output error")
            elif n < 0 or n > left:
                n = left
        return n

    def readinto(self, b):
        n = self._room(len(b))
        data = super().read(n)
        b[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._room(size))

    def readall(self):
        out = []
        while True:
            d = super().read(self._room(1 << 16))
            if not d:
                return b"".join(out)
            out.append(d)


def limit(n):
    """File size limit of this process (None lifts it)."""
    hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
    resource.setrlimit(resource.RLIMIT_FSIZE,
                       (resource.RLIM_INFINITY if n is None else int(n), hard))


class Disk:
    def __init__(self, plan, root, counter):
        self.plan = [dict(f) for f in plan]
        self.root = os.path.realpath(root)
        self.fired = counter
        self.n_r = self.n_w = 0
        self.written = []
        self.limited = None

    def _mine(self, path):
        if not isinstance(path, (str, bytes, os.PathLike)):
            return False
        p = os.path.realpath(os.fsdecode(path))
        return p.startswith(self.root + os.sep) or p == self.root

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        if not self._mine(file):
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        if writing:
            self.n_w += 1
            n = self.n_w
            self.written.append(os.path.realpath(os.fsdecode(file)))
        else:
            self.n_r += 1
            n = self.n_r
        lim = None
        eio = short = None
        for f in self.plan:
            if f["n"] != n:
                continue
            if f["op"] == "open" and (f["mode"] == "w") == writing:
                self.fired["open " + errno.errorcode[f["errno"]]] += 1
                raise OSError(f["errno"], "injected: open failed", os.fsdecode(file))
            if f["op"] == "full" and writing:
                lim = f["at"]
            if f["op"] == "read" and not writing:
                eio = f["at"]
            if f["op"] == "short" and not writing:
                short = f["max"]
        if writing:
            limit(lim)
            self.limited = lim
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if eio is None and short is None:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = FaultyRaw(file, "r", self, eio, short)
        if short is not None:
            self.fired["short reads"] += 1
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, buffering if buffering > 1 else
                                (max(1, short) if short else io.DEFAULT_BUFFER_SIZE))
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def fromfile(self, file, *a, **k):
        raw = getattr(file, "raw", None) or getattr(getattr(file, "buffer", None), "raw", None) or file
        eio = getattr(raw, "vs_eio", None)
        if eio is None:
            return _fromfile(file, *a, **k)
        # the C library sees end of file where the device starts to fail
        pos = file.tell()
        size = os.fstat(raw.fileno()).st_size
        tmp = os.path.join(self.root, ".vs-eio")
        with _open(raw.name, "rb") as src, _open(tmp, "wb") as dst:
            dst.write(src.read()[:eio])
        try:
            with _open(tmp, "rb") as f:
                f.seek(pos)
                out = _fromfile(f, *a, **k)
                if f.tell() >= eio < size:
                    self.fired["read EIO"] += 1
                file.seek(f.tell())
        finally:
            os.unlink(tmp)
        return out


@contextlib.contextmanager
def disk(plan, root, counter):
    d = Disk(plan, root, counter)
    builtins.open = io.open = d.open
    np.fromfile = d.fromfile
    try:
        yield d
    finally:
        builtins.open = io.open = _open
        np.fromfile = _fromfile
        limit(None)
        sys.stdout.flush()


def tear(path, spec):
    """What a crash may leave of a file: {"kind": cut|zero|empty|gone, "at", "len"} (fractions)."""
    with _open(path, "rb") as f:
        data = f.read()
    n = len(data)
    k = spec["kind"]
    at = min(n, int(spec.get("at", 0.0) * n))
    if k == "gone":
        os.unlink(path)
        return None
    if k == "empty":
        data = b""
    elif k == "cut":
        data = data[:at]
    elif k == "zero":
        ln = max(1, int(spec.get("len", 0.1) * n))
        data = data[:at] + b"\0" * min(ln, n - at) + data[at + ln:]
    with _open(path, "wb") as f:
        f.write(data)
    return data
