"""Run a function in a process in which the library has been imported but never
called: the outcome without any memory of earlier calls."""

import os
import pickle
import resource
import struct
import sys

_server = None  # (pid of owner, write fd, read fd)


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _send(fd, b):
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    (n,) = struct.unpack("<Q", _read(fd, 8))
    return _read(fd, n)


def start(func):
    """fork the server; call before the library is used in this process"""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    mon = getattr(sys, "monitoring", None)
    qr, qw = os.pipe()
    ar, aw = os.pipe()
    pid = os.fork()
    if pid:
        os.close(qr)
        os.close(aw)
        _server = (os.getpid(), qw, ar)
        return
    try:
        os.close(qw)
        os.close(ar)
        if mon is not None and mon.get_tool(3):
            mon.set_events(3, 0)
        while True:
            req = _recv(qr)
            kid = os.fork()
            if kid == 0:
                try:
                    resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                    try:
                        out = ("ok", func(pickle.loads(req)))
                    except Exception as e:
                        out = ("error", f"{type(e).__name__}: {e}")
                    _send(aw, pickle.dumps(out))
                finally:
                    os._exit(0)
            _, st = os.waitpid(kid, 0)
            if st != 0:
                _send(aw, pickle.dumps(("error", f"died with status {st}")))
    except BaseException:
        pass
    finally:
        os._exit(0)


def run(arg):
    """-> ("ok", result) or ("error", text)"""
    _, qw, ar = _server
    _send(qw, pickle.dumps(arg))
    return pickle.loads(_recv(ar))
