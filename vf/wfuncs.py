"""Functions executed by the workers of WorkerPool / process pools."""
import asyncio
import os
import signal
import time

INIT = []


class WErr(Exception):
    def __init__(self, token, data):
        super().__init__(token, data)
        self.token, self.data = token, data

    def __eq__(self, other):
        return type(other) is WErr and other.args == self.args

    __hash__ = Exception.__hash__


class BadReduce:
    """Can be pickled but not unpickled"""

    def __reduce__(self):
        return (explode, ())


class ErrNoUnpickle(Exception):
    """An exception whose pickle can not be loaded"""

    def __init__(self, a, b):
        super().__init__("x")


def explode():
    raise ValueError("explode")


def mark(path, token):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    try:
        os.write(fd, f"{token} {os.getpid()}\n".encode())
    finally:
        os.close(fd)


def work(path, token, kind, data, sleep=0, **kwargs):
    mark(path, f"begin {token}")
    try:
        end = time.monotonic() + sleep
        while time.monotonic() < end:
            time.sleep(min(0.01, sleep))
        if kind == "echo":
            return (token, data, kwargs, os.getpid())
        if kind == "raise":
            raise WErr(token, data)
        if kind == "none":
            return None
        if kind == "big":
            return (token, bytes(data))
        if kind == "lambda":
            return lambda: 0
        if kind == "bad_result":
            return BadReduce()
        if kind == "bad_error":
            raise ErrNoUnpickle(1, 2)
        if kind == "local_error":
            class Local(Exception):
                pass
            raise Local(token)
        if kind == "cancelled":
            raise asyncio.CancelledError
        if kind == "init":
            return list(INIT)
        if kind == "exit":
            raise SystemExit(data)
        if kind == "exit0":
            raise SystemExit(0)
        if kind == "os_exit":
            os._exit(data)
        if kind == "interrupt":
            raise KeyboardInterrupt
        if kind == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
            time.sleep(10)
        if kind == "term":
            os.kill(os.getpid(), signal.SIGTERM)
            time.sleep(10)
        raise AssertionError(kind)
    except asyncio.CancelledError:
        mark(path, f"cancelled {token}")
        raise
    finally:
        mark(path, f"end {token}")


def cleanup(path, token, seconds):
    mark(path, f"begin {token}")
    try:
        end = time.monotonic() + 60
        while time.monotonic() < end:
            time.sleep(0.01)
    finally:
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            time.sleep(0.01)
        mark(path, f"clean {token}")


def initializer(path, *args, **kwargs):
    INIT.append((args, kwargs))
    mark(path, "init")


def bad_init(kind):
    if kind == "plain":
        raise WErr("init", 1)
    if kind == "no_unpickle":
        raise ErrNoUnpickle(1, 2)

    class Local(Exception):
        pass
    raise Local()


def rendezvous(path, n, token, timeout):
    """Returns True when n processes are here at once"""
    mark(path, f"here {token}")
    end = time.monotonic() + timeout
    while time.monotonic() < end:
        with open(path) as f:
            if sum(1 for x in f if x.startswith("here")) >= n:
                return (True, os.getpid())
        time.sleep(0.005)
    return (False, os.getpid())


def getpid():
    return os.getpid()


def process_info():
    import multiprocessing
    return {"pid": os.getpid(), "init": list(INIT),
            "cls": type(multiprocessing.current_process()).__name__}
