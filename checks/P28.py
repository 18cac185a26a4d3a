import asyncio
import json
import logging
import os
import subprocess
import sys
import threading
import time

import aiomisc.log as alog
from aiomisc.log import ThreadedHandler, UnhandledLoopHook

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import Boom, eventually_sync
from vf.vloop import run_real

RULE = (
    "random threads logging numbered records through buffered and blocking "
    "threaded handlers of any queue size into slow, blocked, failing and "
    "self-logging targets, flushed and closed at random moments, threads "
    "preempted inside the handler; programs ending in all ways; all shapes "
    "of loop exception contexts; distinct by plan"
)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Target(logging.Handler):
    """Collects what it is given; may be slow, blocked or failing."""

    def __init__(self, fail=(), delay=0.0):
        super().__init__()
        self.got = []
        self.threads = set()
        self.gate = threading.Event()
        self.gate.set()
        self.entered = threading.Event()
        self.fail, self.delay = set(fail), delay
        self.active, self.overlap = 0, False
        self.flushed = self.closed = 0
        self.inner = None

    def handle(self, record):
        self.threads.add(threading.current_thread())
        self.active += 1
        self.overlap |= self.active > 1
        try:
            self.entered.set()
            self.gate.wait()
            if self.delay:
                time.sleep(self.delay)
            key = record.msg
            self.got.append(key)
            if self.inner is not None and key[0] != "inner":
                self.inner(key)
            if key in self.fail:
                raise Boom(key)
        finally:
            self.active -= 1

    def close(self):
        self.closed += 1
        super().close()


class Handler(ThreadedHandler):
    """Counts the records which were refused."""

    def handleError(self, record):
        self.refused.append(record.msg)


def make(case, target, **kw):
    handler = Handler(target=target, **kw)
    handler.refused = []
    logger = logging.Logger(f"vf.{id(handler)}")
    logger.addHandler(handler)

    def cleanup():
        target.gate.set()
        handler.close()

    case.defer(cleanup)
    return handler, logger


def deep_check(case, plan, handler, target, attempts, closed=True):
    """All the attempted records are either handled once or refused."""
    got, refused = target.got, handler.refused
    case.check(len(set(got)) == len(got), "record handled twice",
               plan=plan, got=got[:50])
    case.check(len(set(refused)) == len(refused), "record refused twice",
               plan=plan)
    both = set(got) & set(refused)
    case.check(not both, "refused record was handled", plan=plan,
               both=sorted(both)[:5])
    lost = set(attempts) - set(got) - set(refused)
    case.check(not lost, "record lost", plan=plan, lost=sorted(lost)[:10],
               n=len(lost), got=len(got), refused=len(refused))
    extra = (set(got) | set(refused)) - set(attempts)
    case.check(not extra, "unknown record handled", plan=plan,
               extra=sorted(extra)[:5])
    for t in {a[0] for a in attempts}:
        seq = [k[1] for k in got if k[0] == t]
        case.check(seq == sorted(seq), "records of a thread are reordered",
                   plan=plan, thread=t, seq=seq[:60])
    case.check(not target.overlap, "target used by two threads at once",
               plan=plan)
    case.check(len(target.threads) <= 1,
               "records handled by several threads", plan=plan)
    metrics = {r.metric: r.value for r in _stats(_stat_of(handler))}
    case.check(metrics["records"] == len(got) and
               metrics["errors"] == len(refused),
               "statistics do not add up", plan=plan, metrics=metrics,
               got=len(got), refused=len(refused))
    if closed:
        case.check(eventually_sync(lambda: _metric(handler, "threads") == 0),
                   "thread still counted after the close", plan=plan)
    case.event("handled", len(got))
    case.event("refused", len(refused))


def _stat_of(handler):
    from aiomisc.counters import Statistic
    return next(v for v in vars(handler).values() if isinstance(v, Statistic))


def _stats(stat):
    from aiomisc.counters import get_statistics
    rows = [r for r in get_statistics(type(stat)) if r.name == stat.name]
    return rows


def _metric(handler, name):
    return {r.metric: r.value for r in _stats(_stat_of(handler))}[name]


def name_stat(handler, case):
    _stat_of(handler).name = f"vf-{case.seed}-{id(handler)}"


def storm(case):
    """Threads log at once, records are handled once and in order."""
    rng = case.rng
    threads = rng.randint(1, 6)
    per = rng.choice([1, 5, 20, 60])
    buffered = rng.random() < 0.6
    qsize = rng.choice([0, 0, 1, 2, 5, 30])
    interval = rng.choice([0.001, 0.01, 0.05, 0.2])
    flushes = rng.choice([0, 1, 5])
    delay = rng.choice([0, 0, 0.0005, 0.002])
    fail = rng.random() < 0.4
    inner = buffered and qsize == 0 and rng.random() < 0.3
    plan = dict(threads=threads, per=per, buffered=buffered, qsize=qsize,
                interval=interval, flushes=flushes, delay=delay, fail=fail,
                inner=inner, pauses=rng.random() < 0.4)
    case.describe(**plan)
    attempts = [(f"t{t}", i) for t in range(threads) for i in range(per)]
    failing = rng.sample(attempts, len(attempts) // 4) if fail else ()
    target = Target(fail=failing, delay=delay)
    handler, logger = make(case, target, flush_interval=interval,
                           buffered=buffered, queue_size=qsize)
    name_stat(handler, case)
    handler.start()
    if inner:
        # a target which logs by itself
        target.inner = lambda key: logger.info(("inner", key[0], key[1]))
    raised = []

    def log(t):
        try:
            for i in range(per):
                logger.info((f"t{t}", i))
                if plan["pauses"] and i % 7 == 3:
                    time.sleep(0.001)
        except BaseException as e:
            raised.append(repr(e))

    with maybe_inject(case, alog):
        workers = [threading.Thread(target=log, args=(t,), daemon=True)
                   for t in range(threads)]
        for w in workers:
            w.start()
        for _ in range(flushes):
            time.sleep(rng.random() * 0.01)
            handler.flush()
        for w in workers:
            w.join(40)
        case.check(not any(w.is_alive() for w in workers),
                   "logging blocked forever", plan=plan)
        case.check(not raised, "logging raised", plan=plan, raised=raised)
        if inner:
            attempts += [("inner", t, i) for t, i in attempts]
            case.check(eventually_sync(
                lambda: len(target.got) == len(attempts)),
                "record lost", plan=plan, got=len(target.got))
            # (ordered by the parts which are numbers only)
            target.got[:] = [(f"inner-{k[1]}", k[2]) if k[0] == "inner"
                             else k for k in target.got]
            attempts = [(f"inner-{k[1]}", k[2]) if k[0] == "inner" else k
                        for k in attempts]
        if not buffered or not qsize:
            case.check(not handler.refused, "record refused without a limit",
                       plan=plan, refused=handler.refused[:5])
        wait_first = rng.random() < 0.4
        if wait_first:
            # without flush or close the records are handled anyway
            case.check(eventually_sync(
                lambda: len(target.got) + len(handler.refused)
                >= len(attempts)),
                "records are not handled before the close", plan=plan,
                got=len(target.got), attempts=len(attempts))
        handler.close()
        deep_check(case, plan, handler, target, attempts)
        n = len(target.got)
        if rng.random() < 0.5:
            handler.close()
        logger.info(("late", 0))
        time.sleep(0.002)
        case.check(len(target.got) == n, "record handled after the close",
                   plan=plan)


def blocked(case):
    """The target is stuck: buffered loggers go on, blocking ones wait."""
    rng = case.rng
    buffered = rng.random() < 0.6
    qsize = rng.choice([0, 1, 3, 10]) if buffered else rng.choice([1, 3, 10])
    n = rng.choice([3, 8, 25])
    threads = rng.randint(1, 3)
    flush = rng.random() < 0.5
    plan = dict(buffered=buffered, qsize=qsize, n=n, threads=threads,
                flush=flush)
    case.describe(**plan)
    target = Target()
    handler, logger = make(case, target, buffered=buffered, queue_size=qsize,
                           flush_interval=rng.choice([0.001, 0.02]))
    name_stat(handler, case)
    handler.start()
    first = rng.randint(0, 3) if buffered else 0
    if first:
        logger.info(("first", 0))
    target.gate.clear()
    for i in range(1, first):
        logger.info(("first", i))
    attempts = [("first", i) for i in range(first)]
    attempts += [(f"t{t}", i) for t in range(threads) for i in range(n)]
    counts = [0] * threads

    def log(t):
        for i in range(n):
            logger.info((f"t{t}", i))
            counts[t] += 1

    workers = [threading.Thread(target=log, args=(t,), daemon=True)
               for t in range(threads)]
    with maybe_inject(case, alog, prob=0.4):
        for w in workers:
            w.start()
        if buffered:
            for w in workers:
                w.join(20)
            case.check(not any(w.is_alive() for w in workers),
                       "buffered logging waits for a blocked target",
                       plan=plan, counts=counts)
            done = sum(counts) + first
            # at most one record is in the hands of the thread
            room = (qsize + 1) if qsize else done
            case.check(len(handler.refused) >= done - room - (first > 0),
                       "more records are buffered than the buffer holds",
                       plan=plan, refused=len(handler.refused))
            if not qsize:
                case.check(not handler.refused, "record refused by an "
                           "unlimited buffer", plan=plan)
            else:
                case.check(len(handler.refused) <= max(0, done - qsize),
                           "record refused while the buffer has room",
                           plan=plan, refused=len(handler.refused))
        else:
            time.sleep(0.05)
            case.check(not handler.refused,
                       "blocking handler refused a record", plan=plan)
            accepted = sum(counts)
            case.check(accepted <= qsize + 1,
                       "blocking handler does not wait for room", plan=plan,
                       accepted=accepted)
            case.event("waited")
        if flush:
            flusher = threading.Thread(target=handler.flush, daemon=True)
            flusher.start()
            flusher.join(20)
            case.check(not flusher.is_alive(), "flush blocked", plan=plan)
        case.check(len(target.got) <= 2, "blocked target got records",
                   plan=plan, got=target.got)
        if rng.random() < 0.5:
            # closed while the target is still blocked
            def unblock():
                time.sleep(0.02)
                target.gate.set()

            u = threading.Thread(target=unblock, daemon=True)
            if buffered:
                u.start()
                handler.close()
            else:
                target.gate.set()
            u.ident and u.join(20)
        target.gate.set()
        for w in workers:
            w.join(20)
        case.check(not any(w.is_alive() for w in workers),
                   "loggers still wait after the target is unblocked",
                   plan=plan)
        handler.close()
        deep_check(case, plan, handler, target, attempts)


def shutdown(case):
    """logging.shutdown() closes the handlers in any state."""
    rng = case.rng
    plan = dict(handlers=rng.randint(1, 3), n=rng.choice([0, 1, 10, 40]),
                fail=rng.random() < 0.3, delay=rng.choice([0, 0.001]),
                interval=rng.choice([0.001, 0.05, 0.3]),
                buffered=rng.random() < 0.7)
    case.describe(**plan)
    made = []
    logger = logging.Logger("vf.shutdown")
    attempts = [("t", i) for i in range(plan["n"])]
    for _ in range(plan["handlers"]):
        target = Target(fail=attempts if plan["fail"] else (),
                        delay=plan["delay"])
        handler, _ = make(case, target, flush_interval=plan["interval"],
                          buffered=plan["buffered"])
        name_stat(handler, case)
        handler.start()
        logger.addHandler(handler)
        made.append((handler, target))
    for key in attempts:
        logger.info(key)
    import weakref
    out = []

    def run():
        logging.shutdown([weakref.ref(h) for h, _ in made])
        out.append(1)

    with maybe_inject(case, alog):
        t = threading.Thread(target=run, daemon=True)
        t.start()
        t.join(40)
        case.check(out, "shutdown of the logging hangs", plan=plan)
        for handler, target in made:
            deep_check(case, plan, handler, target, attempts)
    case.event("shutdown")


PROGRAM = r"""
import asyncio, json, logging, os, sys, threading, time
import aiomisc, aiomisc.log

plan = json.loads(sys.argv[1])


class File(logging.Handler):
    def __init__(self, path):
        super().__init__()
        self.fp = open(path, "a", buffering=1)

    def emit(self, record):
        if plan["delay"]:
            time.sleep(plan["delay"])
        exc = record.exc_info[1] if record.exc_info else None
        self.fp.write(json.dumps([
            record.name, record.levelname, record.getMessage(),
            repr(exc) if exc is not None else None,
        ]) + "\n")


handlers = [File(p) for p in plan["paths"]]


def chatter(t):
    log = logging.getLogger("vf.t%d" % t)
    for i in range(plan["per"]):
        log.log(plan["levels"][i % len(plan["levels"])], "m%d-%d", t, i)


def fail(what):
    raise RuntimeError(what)


async def body():
    loop = asyncio.get_running_loop()
    if plan["how"] == "configured":
        aiomisc.log.basic_config(
            level=plan["level"], log_format="disabled", loop=loop,
            buffered=plan["buffered"], buffer_size=0,
            flush_interval=plan["interval"], handlers=handlers)
    threads = [threading.Thread(target=chatter, args=(t,))
               for t in range(plan["threads"])]
    for t in threads:
        t.start()
    if plan["unhandled"]:
        loop.call_soon(fail, "in callback")
        await asyncio.sleep(0.01)
    chatter(99)
    while any(t.is_alive() for t in threads):
        await asyncio.sleep(0.005)
    if plan["end"] == "exit":
        sys.exit(3)
    if plan["end"] == "raise":
        raise RuntimeError("the end")
    return 5


class Svc(aiomisc.Service):
    async def start(self):
        chatter(101)

    async def stop(self, exception=None):
        await asyncio.sleep(0.01)
        chatter(102)


def main():
    if plan["how"] == "entrypoint":
        with aiomisc.entrypoint(
            *([Svc()] if plan["service"] else []),
            log_level=plan["level"], log_format="disabled",
            log_buffering=plan["buffered"], log_buffer_size=0,
            log_flush_interval=plan["interval"], log_handlers=handlers,
        ) as loop:
            loop.run_until_complete(body())
    else:
        asyncio.run(body())
    if plan["end"] == "after":
        chatter(100)


main()
"""


def program(case):
    """However a program ends, its handlers have got all the records."""
    rng = case.rng
    levels = [10, 20, 30, 40, 50]
    plan = dict(
        paths=[], per=rng.choice([1, 10, 50]), threads=rng.randint(0, 3),
        levels=rng.sample(levels, rng.randint(1, 4)),
        level=rng.choice(["debug", "info", "warning", "error"]),
        how=rng.choice(["configured", "entrypoint"]),
        buffered=rng.random() < 0.7, interval=rng.choice([0.01, 0.2, 0.5]),
        unhandled=rng.random() < 0.5,
        end=rng.choice(["return", "exit", "raise", "after"]),
        delay=rng.choice([0, 0, 0.001]), service=rng.random() < 0.6,
    )
    case.describe(**plan)
    tmp = case.tmp()
    plan["paths"] = [os.path.join(tmp, f"log{i}")
                     for i in range(rng.randint(1, 3))]
    env = dict(os.environ)
    repo = os.environ.get("VF_REPO", "/repo")
    env["PYTHONPATH"] = repo
    for k in list(env):
        if k.startswith("AIOMISC_"):
            del env[k]
    proc = subprocess.Popen(
        [sys.executable, "-c", PROGRAM, json.dumps(plan)], cwd=tmp, env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
    )
    try:
        out, err = proc.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        proc.kill()
        proc.communicate()
        case.fail("the program does not end", plan=plan)
    want_rc = {"exit": 3, "raise": 1}.get(plan["end"], 0)
    case.check(proc.returncode == want_rc, "exit code is not the program's",
               plan=plan, rc=proc.returncode, err=err[-500:])
    threshold = getattr(logging, plan["level"].upper())
    expected = []
    names = [*range(plan["threads"]), 99]
    if plan["end"] == "after":
        names.append(100)
    if plan["service"] and plan["how"] == "entrypoint":
        names += [101, 102]
    for t in names:
        for i in range(plan["per"]):
            level = plan["levels"][i % len(plan["levels"])]
            if level >= threshold:
                expected.append((f"vf.t{t}", logging.getLevelName(level),
                                 f"m{t}-{i}", None))
    for path in plan["paths"]:
        rows = [tuple(json.loads(line)) for line in open(path)]
        mine = [r for r in rows if r[0].startswith("vf.")]
        case.check(sorted(mine) == sorted(expected),
                   "records are lost or invented at the program's end",
                   plan=plan, got=len(mine), expected=len(expected),
                   err=err[-300:])
        # 101, 99, 102 and 100 are logged one after another
        order = [r[0] for r in mine if r[0][-3:] in ("101", "102", "100")
                 or r[0] == "vf.t99"]
        order = list(dict.fromkeys(order))
        want = [r for r in ("vf.t101", "vf.t99", "vf.t102", "vf.t100")
                if r in order]
        case.check(order == want, "records logged later come first",
                   plan=plan, order=order)
        for t in names:
            seq = [r for r in mine if r[0] == f"vf.t{t}"]
            case.check(seq == [r for r in expected if r[0] == f"vf.t{t}"],
                       "records of a thread are reordered", plan=plan)
        hooked = [r for r in rows if "in callback" in (r[3] or "")]
        case.check(len(hooked) == (1 if plan["unhandled"] else 0),
                   "unhandled exception of the loop is not logged once",
                   plan=plan, hooked=hooked, rows=rows[:5])
        last = [r for r in rows if "the end" in (r[3] or "")]
        if plan["end"] == "raise":
            case.check(len(last) == 1,
                       "exception ending the program is not logged once",
                       plan=plan, last=last, err=err[-300:])
        else:
            case.check(not last, "exception logged from nowhere", plan=plan)
        case.event("records", len(mine))
    case.event("program")
    case.event(plan["end"])


class Transport(asyncio.Transport):
    pass


def contexts(case):
    """Any loop exception context makes exactly one record."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    plans = []
    for _ in range(6):
        plans.append(dict(
            message=rng.random() < 0.7,
            exception=rng.choice([None, "exc", "base"]),
            future=rng.choice([None, None, "failed", "ok", "pending",
                               "cancelled"]),
            task=rng.choice([None, None, "failed", "pending", "cancelled",
                             "ok"]),
            handle=rng.random() < 0.3, protocol=rng.random() < 0.3,
            transport=rng.random() < 0.3, socket=rng.random() < 0.3,
            tb=rng.random() < 0.3, extra=rng.random() < 0.5,
            via=rng.choice(["hook", "loop"]),
        ))
    case.describe(kind=kind, plans=plans)

    async def main():
        import socket
        import traceback
        loop = asyncio.get_running_loop()
        target = Target()
        records = []
        target.handle = records.append
        hook = UnhandledLoopHook(logger_name="vf.unhandled")
        hook.add_handler(target)
        loop.set_exception_handler(hook)
        sock = socket.socket()
        keep = []

        async def task_body(what):
            if what == "failed":
                raise Boom("task")
            if what == "pending":
                await asyncio.sleep(3600)
            return 1

        for n, plan in enumerate(plans):
            del records[:]
            ctx = {}
            want_exc = None
            if plan["message"]:
                ctx["message"] = f"message {n}"
            if plan["exception"]:
                want_exc = (Boom if plan["exception"] == "exc"
                            else KeyboardInterrupt)("given")
                ctx["exception"] = want_exc
            if plan["future"]:
                f = loop.create_future()
                if plan["future"] == "failed":
                    e = Boom("future")
                    f.set_exception(e)
                    want_exc = e if want_exc is None else want_exc
                elif plan["future"] == "ok":
                    f.set_result(1)
                elif plan["future"] == "cancelled":
                    f.cancel()
                ctx["future"] = f
                keep.append(f)
            if plan["task"]:
                t = loop.create_task(task_body(plan["task"]))
                await asyncio.sleep(0)
                if plan["task"] == "cancelled":
                    t.cancel()
                if plan["task"] != "pending":
                    await asyncio.wait([t])
                    if (
                        plan["task"] == "failed" and
                        (not plan["future"] or want_exc is None)
                    ):
                        if want_exc is None:
                            want_exc = t.exception()
                ctx["task"] = t
                keep.append(t)
            if plan["handle"]:
                ctx["handle"] = loop.call_later(1000, print)
                keep.append(ctx["handle"])
            if plan["protocol"]:
                ctx["protocol"] = asyncio.Protocol()
            if plan["transport"]:
                ctx["transport"] = Transport(
                    {"peername": ("1.2.3.4", 5), "compression": None})
            if plan["socket"]:
                ctx["socket"] = sock
            if plan["tb"]:
                ctx["source_traceback"] = traceback.extract_stack()
            if plan["extra"]:
                ctx["vf_extra"] = n
            before = dict(ctx)
            try:
                if plan["via"] == "hook":
                    hook(loop, ctx)
                else:
                    loop.call_exception_handler(ctx)
            except BaseException as e:
                case.fail("the exception handler of the loop raises",
                          plan=plan, exc=repr(e))
            case.check(ctx == before, "the context is changed", plan=plan)
            case.check(len(records) == 1 + bool(plan["tb"]),
                       "the context is not logged exactly once", plan=plan,
                       n=len(records))
            rec = records[0]
            case.check(rec.levelno == logging.ERROR, "wrong level",
                       plan=plan)
            if plan["message"]:
                case.check(rec.getMessage() == f"message {n}",
                           "message is not the context's", plan=plan,
                           got=rec.getMessage())
            logged = rec.exc_info[1] if rec.exc_info else None
            # what a future or task without a failure gives is unspecified
            if want_exc is not None and (
                plan["exception"] or plan["future"] == "failed"
                or not plan["future"]
            ):
                case.check(logged is want_exc,
                           "exception is not the context's", plan=plan,
                           got=repr(logged), want=repr(want_exc))
            if plan["extra"]:
                case.check(getattr(rec, "vf_extra", None) == n,
                           "extra field is lost", plan=plan)
            if plan["transport"]:
                case.check(rec.transport_peername == ("1.2.3.4", 5),
                           "transport is not described", plan=plan)
            case.event("context")
            logging.Formatter().format(rec)
        for k in keep:
            k.cancel()
        sock.close()
        loop.set_exception_handler(None)

    run_real(main, kind=kind)


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(storm, quick=220),
    Scenario(blocked, quick=120),
    Scenario(shutdown, quick=60),
    Scenario(program, quick=30, timeout=90),
    Scenario(contexts, quick=60),
]
