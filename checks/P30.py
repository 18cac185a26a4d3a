import asyncio
import bz2
import concurrent.futures
import gc
import gzip
import io
import lzma
import os
import sys
import threading
from pathlib import Path

import aiomisc
import aiomisc.io
import aiomisc.thread_pool
from aiomisc.io import Compression, async_open

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.vloop import run_real

RULE = (
    "random sequences of file operations in all modes, encodings, "
    "compressions and executors, also failing ones, compared operation by "
    "operation with the same operations on an ordinary file; concurrent "
    "readers and writers, cancelled operations, pipes which block; distinct "
    "by operations"
)

OPENERS = {
    Compression.NONE: open, Compression.GZIP: gzip.open,
    Compression.BZ2: bz2.open, Compression.LZMA: lzma.open,
}
WORDS = ["", "a", "hello\n", "two\nlines\n", "юникод\n", "x" * 5000, "\r\n",
         "a\rb", "😀", "\n\n\n", "end", "\x00"]


def call(func, *args, **kw):
    try:
        return ("ok", func(*args, **kw))
    except Exception as e:
        return ("exc", type(e), str(e))


async def acall(func, *args, **kw):
    try:
        return ("ok", await func(*args, **kw))
    except Exception as e:
        return ("exc", type(e), str(e))


def executors(case, rng):
    kind = rng.choice(["default", "default", "aiomisc", "stdlib"])
    if kind == "aiomisc":
        pool = aiomisc.ThreadPoolExecutor(max_workers=rng.randint(1, 3))
    elif kind == "stdlib":
        pool = concurrent.futures.ThreadPoolExecutor(2)
    else:
        return kind, None
    case.defer(pool.shutdown)
    return kind, pool


def random_mode(rng, compression):
    base = rng.choice(["r", "r", "w", "a", "x", "r+", "w+", "a+", "x+"])
    if compression is not Compression.NONE and rng.random() < 0.7:
        base = base[0]
    if rng.random() < 0.5:
        chars = list(base + "b")
        if rng.random() < 0.3:
            # "rb+", "br+", "r+b" are all the same
            base = rng.choice([base + "b", base[0] + "b" + base[1:],
                               "b" + base])
        else:
            base = "".join(chars)
        return base, True
    return rng.choice([base, base, base + "t"]), False


def seed_file(rng, path, compression, text):
    data = "".join(rng.choice(WORDS) for _ in range(rng.randint(0, 12)))
    with OPENERS[compression](path, "wb") as fp:
        fp.write(data.encode("utf-8"))
    return data


def payload(rng, binary):
    text = rng.choice(WORDS)
    if rng.random() < 0.05:
        # the wrong type is an error in both
        binary = not binary
    return text.encode("utf-8") if binary else text


def operation(rng, binary):
    op = rng.choice(
        ["read"] * 3 + ["readline"] * 2 + ["write"] * 4 +
        ["readlines", "writelines", "seek", "seek", "tell", "truncate",
         "flush", "iter", "next", "props", "readable", "getattr", "closed",
         "buffer", "unknown"])
    if op == "read":
        args = [rng.choice([-1, 0, 1, 3, 100, None])]
        args = args[:rng.randint(0, 1)]
    elif op == "readline":
        args = [rng.choice([-1, 0, 1, 3, 100])][:rng.randint(0, 1)]
    elif op == "write":
        args = [payload(rng, binary)]
    elif op == "writelines":
        args = [[payload(rng, binary) for _ in range(rng.randint(0, 4))]]
    elif op == "readlines":
        args = [rng.choice([-1, 1, 10])][:rng.randint(0, 1)]
    elif op == "seek":
        args = [rng.choice([0, 0, 1, 5, 1000, -1, -3]),
                rng.choice([0, 0, 0, 1, 2, 7])][:rng.randint(1, 2)]
    elif op == "truncate":
        args = [rng.choice([0, 1, 10, None, -1])][:rng.randint(0, 1)]
    else:
        args = []
    return op, args


async def run_async(afp, op, args, rng_choice):
    if op == "iter":
        async def gather():
            return [line async for line in afp]
        return await acall(gather)
    if op == "next":
        try:
            return ("ok", await afp.__anext__())
        except StopAsyncIteration:
            return ("end",)
        except Exception as e:
            return ("exc", type(e), str(e))
    if op == "props":
        return ("ok", (sorted(str(afp.mode)), afp.isatty(), afp.fileno() > 2))
    if op == "closed":
        return ("ok", afp.closed())
    if op == "readable":
        return ("ok", [await afp.readable(), await afp.writable(),
                       await afp.seekable()])
    if op == "getattr":
        return await acall(getattr(afp, rng_choice))
    if op == "unknown":
        return await acall(afp.no_such_method)
    if op == "buffer":
        return await acall(afp.buffer().read, 3)
    return await acall(getattr(afp, op), *args)


def run_sync(fp, op, args, rng_choice):
    if op == "iter":
        return call(lambda: list(iter(fp.readline, fp.readline(0)[:0])))
    if op == "next":
        res = call(fp.readline)
        return ("end",) if res[0] == "ok" and not res[1] else res
    if op == "props":
        return ("ok", (sorted(str(fp.mode)), fp.isatty(), fp.fileno() > 2))
    if op == "closed":
        return ("ok", fp.closed)
    if op == "readable":
        return ("ok", [fp.readable(), fp.writable(), fp.seekable()])
    if op == "getattr":
        return call(getattr(fp, rng_choice))
    if op == "unknown":
        return call(lambda: fp.no_such_method())
    if op == "buffer":
        return call(fp.buffer.read, 3)
    return call(getattr(fp, op), *args)


def content(path, compression):
    try:
        with OPENERS[compression](path, "rb") as fp:
            return fp.read()
    except Exception as e:
        return type(e)


def sequence(case):
    """The same operations give the same results and files."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    compression = rng.choice([Compression.NONE] * 3 + list(Compression))
    mode, binary = random_mode(rng, compression)
    exists = rng.random() < (0.1 if "x" in mode else 0.85)
    kw = {}
    if not binary:
        if rng.random() < 0.4:
            kw["encoding"] = rng.choice(["utf-8", "latin-1", "cp1251",
                                         "utf-16", "ascii"])
        if rng.random() < 0.3:
            kw["errors"] = rng.choice(["strict", "replace", "ignore"])
        if rng.random() < 0.3:
            kw["newline"] = rng.choice([None, "", "\n", "\r\n"])
    elif compression is Compression.NONE and rng.random() < 0.2:
        kw["buffering"] = rng.choice([0, 16, 4096])
    ops = [operation(rng, binary) for _ in range(rng.randint(0, 14))]
    ops = [("read", []) if o[0] == "buffer" and (
        binary or compression is not Compression.NONE) else o for o in ops]
    how = rng.choice(["with", "with", "await"])
    as_path = rng.random() < 0.5
    case.describe(kind=kind, compression=compression.name, mode=mode,
                  exists=exists, kw=kw, ops=ops, how=how)
    plan = case.sample
    tmp = case.tmp()
    ours, model = os.path.join(tmp, "ours"), os.path.join(tmp, "model")
    if exists:
        state = rng.getstate()
        seed_file(rng, ours, compression, not binary)
        rng.setstate(state)
        seed_file(rng, model, compression, not binary)
    if "t" in mode or binary:
        model_mode = mode
    else:
        model_mode = mode + "t"
    model_kw = dict(kw)
    if not binary:
        model_kw.setdefault("encoding", "utf-8")
    if binary and compression is Compression.NONE:
        model_mode = mode
    ename, pool = executors(case, rng)
    unraisable = []
    old_hook = sys.unraisablehook
    sys.unraisablehook = lambda u: unraisable.append(
        (repr(u.exc_value), repr(u.object)))

    def same(a, b):
        if a[0] == "exc" == b[0]:
            return a[1] is b[1] and (
                a[2].replace(ours, "") == b[2].replace(model, "")
                or " object " in a[2])
        return a == b and type(a[-1]) is type(b[-1])

    attr = rng.choice(["peek", "read1"] if binary else ["_nothing"])

    async def main():
        target = Path(ours) if as_path else ours
        file = async_open(target, mode, compression, executor=pool, **kw)
        opened = call(OPENERS[compression], model, model_mode, **model_kw)
        if how == "await":
            async def open_it():
                return await file
            got = await acall(open_it)
        else:
            got = await acall(file.__aenter__)
        if opened[0] == "exc":
            case.check(same(got, opened), "opening differs", plan=plan,
                       got=got, want=opened)
            case.event("open-failed")
            return
        case.check(got[0] == "ok" and got[1] is file, "opening differs",
                   plan=plan, got=repr(got), want="success")
        fp = opened[1]
        under = file.fp
        reopened = {
            n for n in range(len(ops)) if rng.random() < 0.05
        }
        left_by = rng.choice([None, None, ValueError("body"), KeyError(),
                              asyncio.CancelledError()])

        async def reawait():
            return await file
        case.check(str(file.name) == ours or compression is not
                   Compression.NONE, "name of the file", plan=plan,
                   name=file.name)
        if not binary:
            case.check((file.encoding, file.errors, file.line_buffering) ==
                       (fp.encoding, fp.errors, fp.line_buffering),
                       "text options differ", plan=plan,
                       got=(file.encoding, file.errors))
        if not hasattr(fp, "mode"):
            ops[:] = [o for o in ops if o[0] != "props"]
        for n, (op, args) in enumerate(ops):
            if n in reopened:
                # opening an open file changes nothing
                again = await acall(rng.choice(
                    [file.open, file.__aenter__, reawait]), )
                case.check(again[0] == "ok" and again[1] in (file, None),
                           "opening again differs", plan=plan,
                           got=repr(again))
                case.check(file.fp is under, "opened twice", plan=plan)
                case.event("opened_again")
            if op == "props" and (not hasattr(fp, "mode") or
                                  not hasattr(fp, "name")):
                continue
            if op == "getattr" and not hasattr(fp, attr):
                continue
            got = await run_async(file, op, args, attr)
            want = run_sync(fp, op, args, attr)
            case.check(same(got, want), "result of an operation differs",
                       plan=plan, n=n, op=op, args=args,
                       got=repr(got)[:300], want=repr(want)[:300])
            case.event("op")
            case.event(op)
            if op == "flush" and got[0] == "ok":
                if compression is Compression.NONE:
                    case.check(content(ours, compression) ==
                               content(model, compression),
                               "flushed contents differ", plan=plan, n=n)
            if not binary:
                case.check(file.newlines == fp.newlines, "newlines differ",
                           plan=plan)
        if how == "with":
            # left normally or by an error of the body
            info = (None, None, None)
            if left_by is not None:
                info = (type(left_by), left_by, None)
            got = await acall(file.__aexit__, *info)
            want = call(fp.__exit__, *info)
            case.check(file.closed(), "still open after async with",
                       plan=plan, left_by=repr(left_by))
        else:
            got = await acall(file.close)
            want = call(fp.close)
        case.check(same(got, want), "closing differs", plan=plan,
                   got=repr(got), want=repr(want))
        case.check(file.closed() == fp.closed, "closed state differs",
                   plan=plan)
        after = await acall(file.read)
        want = call(fp.read)
        case.check(after[0] == "exc" == want[0] and after[1] is want[1],
                   "closed file is used", plan=plan, got=repr(after))
        a, b = content(ours, compression), content(model, compression)
        case.check(a == b, "contents differ", plan=plan, got=repr(a)[:300],
                   want=repr(b)[:300])

    try:
        run_real(main, kind=kind)
        gc.collect()
        case.check(not unraisable, "exception in a destructor", plan=plan,
                   unraisable=unraisable)
    finally:
        sys.unraisablehook = old_hook
    case.check(os.path.exists(ours) == os.path.exists(model),
               "file exists only in one", plan=plan)


def lines(case):
    """Many tasks iterate one file: each line goes to one of them."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    compression = rng.choice(list(Compression))
    binary = rng.random() < 0.5
    n, tasks = rng.randint(0, 120), rng.randint(1, 6)
    case.describe(kind=kind, compression=compression.name, n=n, tasks=tasks,
                  binary=binary)
    path = os.path.join(case.tmp(), "f")
    rows = [f"line {i} " + "z" * rng.randint(0, 50) + "\n" for i in range(n)]
    if rows and rng.random() < 0.3:
        rows[-1] = rows[-1][:-1]
    with OPENERS[compression](path, "wb") as fp:
        fp.write("".join(rows).encode())
    if binary:
        rows = [r.encode() for r in rows]
    ename, pool = executors(case, rng)

    async def main():
        got = []
        mode = "rb" if binary else "r"
        with maybe_inject(case, aiomisc.io, aiomisc.thread_pool):
            async with async_open(path, mode, compression,
                                  executor=pool) as afp:
                async def reader():
                    async for line in afp:
                        got.append(line)
                        if rng.random() < 0.2:
                            await asyncio.sleep(0)

                await asyncio.gather(*[reader() for _ in range(tasks)])
        case.check(sorted(got) == sorted(rows),
                   "lines are lost, repeated or torn", plan=case.sample,
                   got=len(got), want=len(rows))
        if tasks == 1:
            case.check(got == rows, "lines are reordered", plan=case.sample)
        case.event("line", len(got))

    run_real(main, kind=kind)


def cancelled(case):
    """Cancelled writes happen completely or not at all."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    compression = rng.choice(list(Compression))
    binary = rng.random() < 0.5
    count = rng.randint(1, 30)
    cancel = [rng.random() < 0.4 for _ in range(count)]
    waits = [rng.choice([None, 0, 0.0005]) for _ in range(count)]
    sizes = [rng.choice([1, 10, 1000]) for _ in range(count)]
    case.describe(kind=kind, compression=compression.name, binary=binary,
                  cancel=cancel, waits=waits, sizes=sizes)
    path = os.path.join(case.tmp(), "f")
    pool = aiomisc.ThreadPoolExecutor(max_workers=1)
    case.defer(pool.shutdown)

    async def main():
        loop = asyncio.get_running_loop()
        outcomes = []
        with maybe_inject(case, aiomisc.io, aiomisc.thread_pool):
            mode = "wb" if binary else "w"
            async with async_open(path, mode, compression,
                                  executor=pool) as afp:
                for i in range(count):
                    text = f"<{i}:" + "d" * sizes[i] + ">"
                    data = text.encode() if binary else text
                    task = loop.create_task(afp.write(data))
                    if cancel[i]:
                        if waits[i] is not None:
                            await asyncio.sleep(waits[i])
                        task.cancel()
                    try:
                        got = await task
                        outcomes.append((text, "written"))
                        case.check(got == len(text), "written size",
                                   plan=case.sample, got=got)
                    except asyncio.CancelledError:
                        case.check(cancel[i], "cancelled from nowhere",
                                   plan=case.sample)
                        outcomes.append((text, "maybe"))
                        case.event("cancelled")
                # the only thread is done with all of them
                await loop.run_in_executor(pool, int)
        data = content(path, compression).decode()
        rest = data
        for text, what in outcomes:
            if rest.startswith(text):
                rest = rest[len(text):]
                continue
            case.check(what == "maybe", "write is lost or torn",
                       plan=case.sample, data=data[:200])
        case.check(not rest, "unknown data is written", plan=case.sample,
                   rest=rest[:200])
        case.event("write", count)

    run_real(main, kind=kind)


def pipes(case):
    """Blocking files block neither the loop nor other files."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    chunks = [rng.choice(["a\n", "bb\n", "ccc\n"])
              for _ in range(rng.randint(1, 6))]
    binary = rng.random() < 0.5
    reader_first = rng.random() < 0.5
    case.describe(kind=kind, chunks=chunks, binary=binary,
                  reader_first=reader_first)
    path = os.path.join(case.tmp(), "fifo")
    os.mkfifo(path)
    ename, pool = executors(case, rng)
    if pool is not None:
        pool = aiomisc.ThreadPoolExecutor(max_workers=4)
        case.defer(pool.shutdown)

    async def main():
        loop = asyncio.get_running_loop()
        me = threading.get_ident()
        where = []

        def opener(name, flags):
            where.append(threading.get_ident())
            return os.open(name, flags)

        b = "b" if binary else ""
        got = []

        async def reader():
            async with async_open(path, "r" + b, executor=pool,
                                  opener=opener) as afp:
                async for line in afp:
                    got.append(line)

        async def writer():
            async with async_open(path, "w" + b, executor=pool,
                                  opener=opener) as afp:
                for n, c in enumerate(chunks):
                    await afp.write(c.encode() if binary else c)
                    await afp.flush()
                    # the reader is blocked while the loop goes on
                    for _ in range(3):
                        await asyncio.sleep(0.001)
                    case.event("tick", 3)

        ts = []
        for body in (reader, writer) if reader_first else (writer, reader):
            ts.append(loop.create_task(body()))
            for _ in range(3):
                await asyncio.sleep(0.001)
        done, pending = await asyncio.wait(ts, timeout=20)
        if pending:
            # unblock the threads
            fd = os.open(path, os.O_RDWR | os.O_NONBLOCK)
            await asyncio.wait(ts, timeout=2)
            os.close(fd)
            case.fail("reader or writer of a pipe hangs", plan=case.sample,
                      got=got)
        for t in ts:
            t.result()
        case.check("".join(x.decode() if binary else x for x in got) ==
                   "".join(chunks), "data of the pipe differs",
                   plan=case.sample, got=got)
        case.check(me not in where and len(where) == 2,
                   "file is opened in the thread of the loop",
                   plan=case.sample)
        case.event("pipe")

    run_real(main, kind=kind)


class Spy(io.BytesIO):
    """A file which knows the threads it is used in."""
    name = "spy"
    mode = "r+b"
    SLOW = {"read", "readline", "readlines", "write", "writelines", "flush",
            "truncate", "close", "seek", "readinto", "getvalue", "read1",
            "__exit__"}

    def __init__(self, data, used):
        super().__init__(data)
        self._used = used

    def __getattribute__(self, name):
        got = super().__getattribute__(name)
        if name not in Spy.SLOW:
            return got
        used = super().__getattribute__("_used")

        def spy(*args, **kw):
            used.append((name, threading.get_ident(),
                         getattr(LOCAL, "executor", None)))
            return got(*args, **kw)
        return spy


LOCAL = threading.local()


class Marking(concurrent.futures.ThreadPoolExecutor):
    def submit(self, fn, *args, **kw):
        def marked(*a, **k):
            LOCAL.executor = self
            try:
                return fn(*a, **k)
            finally:
                LOCAL.executor = None
        return super().submit(marked, *args, **kw)


def threads(case):
    """Operations are executed by the executor, never by the loop."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    own = rng.random() < 0.6
    used = []
    spy = Spy(b"".join(rng.choice([b"a\n", b"bb\n", b"\n"])
                       for _ in range(rng.randint(0, 9))), used)
    ops = [rng.choice([
        ("read", (rng.choice([-1, 0, 1, 5]),)), ("read", ()),
        ("readline", ()), ("readline", (rng.choice([-1, 1]),)),
        ("readlines", ()), ("readlines", (2,)), ("write", (b"x" * 9,)),
        ("writelines", ([b"a\n", b"b\n"],)), ("flush", ()),
        ("truncate", ()), ("truncate", (3,)), ("seek", (0,)),
        ("seek", (0, 2)), ("readinto", (bytearray(3),)), ("getvalue", ()),
        ("read1", (4,)), ("iterate", ()),
    ]) for _ in range(rng.randint(1, 12))]
    end = rng.choice(["close", "with", "none"])
    case.trace(kind, own, [o[0] for o in ops], end)
    case.describe(loop=kind, own=own, ops=[o[0] for o in ops], end=end)

    async def main():
        me = threading.get_ident()
        pool = Marking(2) if own else None
        if pool:
            case.defer(pool.shutdown)
        afp = aiomisc.io.AsyncBinaryIO.open_fp(spy, executor=pool)
        twin = io.BytesIO(spy.getbuffer().tobytes())

        async def use():
            for name, args in ops:
                if name == "iterate":
                    got = [line async for line in afp]
                    want = list(twin)
                else:
                    other = tuple(bytearray(a) if isinstance(a, bytearray)
                                  else a for a in args)
                    got = await getattr(afp, name)(*args)
                    want = getattr(twin, name)(*other)
                case.check(got == want, "wrong-result", f"{name}{args} {got} "
                           f"{want}", plan=case.sample)
        if end == "with":
            async with afp:
                await use()
        else:
            await use()
        if end == "close":
            await afp.close()
        case.check(spy.closed == (end != "none"), "not-closed", end,
                   plan=case.sample)
        for name, thread, executor in used:
            case.check(thread != me, "operation is executed by the loop",
                       name, plan=case.sample)
            case.check(executor is pool or name in ("__exit__", "close") and
                       end == "with", "operation is executed by another "
                       "executor", name, plan=case.sample)
            case.event("in_thread")
        case.check({o[0] for o in ops} - {"iterate"} <= {u[0] for u in used},
                   "not-called", f"{used}", plan=case.sample)

    run_real(main, kind=kind)


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(threads, quick=200),
    Scenario(sequence, quick=1200),
    Scenario(lines, quick=150),
    Scenario(cancelled, quick=150),
    Scenario(pipes, quick=60),
]
