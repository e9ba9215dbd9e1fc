"""Interpreters started under another environment, forked once per request.

What an interpreter fixes when it starts (hash seed, malloc fill, time zone) cannot
be varied in a fork of the checking process; each server here holds the library
loaded under one such setting and forks a pristine child for every request.
"""
import os
import pickle
import select
import signal
import socket
import struct
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# what differs between them; entry 0 is the checking process itself
SETTINGS = [
    None,
    {"PYTHONHASHSEED": "1", "MALLOC_PERTURB_": "165"},
    {"PYTHONHASHSEED": "2", "TZ": "Asia/Kathmandu", "MALLOC_PERTURB_": "1"},
    {"PYTHONHASHSEED": "424242", "MALLOC_PERTURB_": "255", "LC_ALL": "C", "COLUMNS": "20"},
    {"PYTHONHASHSEED": "7", "TZ": "America/St_Johns", "PYTHONMALLOC": "malloc"},
    {"PYTHONHASHSEED": "99", "MALLOC_PERTURB_": "127", "PYTHONMALLOC": "malloc_debug"},
]


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack("!Q", len(b)) + b)


def _recv(s):
    def exactly(n):
        out = b""
        while len(out) < n:
            b = s.recv(min(1 << 20, n - len(out)))
            if not b:
                raise EOFError("interpreter closed the connection")
            out += b
        return out

    return pickle.loads(exactly(struct.unpack("!Q", exactly(8))[0]))


def serve(path):
    from sim import lib, runner  # noqa: F401
    import importlib

    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    importlib.import_module("sim.props.c12")
    sys.stdout.write("ready\n")
    sys.stdout.flush()
    while True:
        ready, _, _ = select.select([srv, 0], [], [])
        if 0 in ready and not os.read(0, 1):
            os._exit(0)
        if srv not in ready:
            continue
        c, _ = srv.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                srv.close()
                runner.silence()
                modname, fn, args = _recv(c)
                try:
                    out = ("ok", getattr(sys.modules[modname], fn)(*args))
                except BaseException as e:  # noqa: BLE001
                    import traceback

                    out = ("exc", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:])
                _send(c, out)
            finally:
                os._exit(0)
        c.close()


class Zygotes:
    def __init__(self, which):
        self.dir = tempfile.mkdtemp(prefix="vzyg-")
        self.procs = {}
        for k in which:
            if SETTINGS[k] is None:
                continue
            env = {n: v for n, v in os.environ.items() if n not in ("LC_ALL", "LANG", "TZ")}
            env.update(SETTINGS[k])
            p = subprocess.Popen(
                [sys.executable, "-c",
                 f"import sys; sys.path.insert(0, {VERIF!r}); from sim import zygote; zygote.serve({self.path(k)!r})"],
                env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.dir)
            self.procs[k] = p
        for k, p in self.procs.items():
            while True:
                ln = p.stdout.readline()
                if not ln:
                    raise RuntimeError(f"interpreter {SETTINGS[k]} did not start")
                if ln == b"ready\n":
                    break

    def path(self, k):
        return os.path.join(self.dir, f"z{k}")

    def call(self, k, modname, fn, *args):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.path(k))
        try:
            _send(s, (modname, fn, args))
            return _recv(s)
        finally:
            s.close()

    def close(self):
        import shutil

        for p in self.procs.values():
            p.kill()
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


current = None


def start(which=None):
    global current
    if current is None:
        current = Zygotes(range(len(SETTINGS)) if which is None else which)
    return current


def stop():
    global current
    if current is not None:
        current.close()
        current = None
