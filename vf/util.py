"""Small helpers shared by the checks."""
import asyncio
import contextvars
import itertools
import logging
import os
import socket
import threading
import time
import zlib

VAR = contextvars.ContextVar("vf-var", default=None)
VAR2 = contextvars.ContextVar("vf-var2", default=None)


def own_host():
    """A loopback address nobody else uses: executions run at the same time
    must not meet when a port is reused."""
    n = os.getpid()
    return f"127.{64 + (n >> 16) % 64}.{n >> 8 & 255}.{n & 255}"


_next_port = itertools.count()


def own_port(family=socket.AF_INET, kind=socket.SOCK_STREAM, host="127.0.0.1"):
    """A port out of the range the system allocates from, not used by this
    process yet, for where `own_host()` can't be used."""
    while True:
        port = 2000 + (os.getpid() * 61 + next(_next_port)) % 30000
        with socket.socket(family, kind) as sock:
            try:
                sock.bind((host, port))
            except OSError:
                continue
        return port


class Boom(Exception):
    """An exception of the workload, identified by its token.

    Every third one is false (as exceptions which define __len__ may be), for
    whatever has to tell "no error" from an error by more than its truth."""

    def __init__(self, token):
        super().__init__(token)
        self.token = token
        digest = zlib.crc32(b"a" + repr(token).encode())
        self.falsy = (digest >> 9) % 3 == 0

    def __bool__(self):
        return not self.falsy


class BaseBoom(BaseException):
    def __init__(self, token):
        super().__init__(token)
        self.token = token


class Token:
    """A result that only equals itself."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Token({self.n})"


class Log:
    """A thread safe, ordered event log."""

    def __init__(self):
        self.events = []
        self.lock = threading.Lock()

    def __call__(self, kind, *args):
        with self.lock:
            self.events.append((kind, *args))

    def of(self, *kinds):
        with self.lock:
            return [e for e in self.events if e[0] in kinds]

    def count(self, kind, key=None):
        with self.lock:
            return sum(
                1 for e in self.events
                if e[0] == kind and (key is None or e[1] == key)
            )


async def eventually(cond, timeout=20, step=0.005):
    end = time.monotonic() + timeout
    while not cond():
        if time.monotonic() > end:
            return False
        await asyncio.sleep(step)
    return True


def eventually_sync(cond, timeout=20, step=0.005):
    end = time.monotonic() + timeout
    while not cond():
        if time.monotonic() > end:
            return False
        time.sleep(step)
    return True


def outcome_of(task):
    """('ok', value) | ('exc', exception) | ('cancelled',)"""
    if task.cancelled():
        return ("cancelled",)
    exc = task.exception()
    if exc is not None:
        return ("exc", exc)
    return ("ok", task.result())


def silence_logging():
    logging.getLogger().handlers[:] = [logging.NullHandler()]
    logging.getLogger("asyncio").setLevel(logging.CRITICAL)
    logging.lastResort = None


silence_logging()


def policy(kind):
    if kind == "uvloop":
        import uvloop
        return uvloop.EventLoopPolicy()
    return asyncio.DefaultEventLoopPolicy()
