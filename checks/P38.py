import asyncio
import logging
import os
import pstats
import re
import sys
import threading
import tracemalloc
import types

from vf.core import Scenario
from vf.util import Boom, eventually
from vf.vloop import run_real, run_virtual

RULE = (
    "MemoryTracer in real time under random allocations, Profiler and "
    "CarbonSender (with a stand-in for the aiocarbon library) in virtual "
    "time, with reports which fail or last, stopped at random moments and "
    "restarted; reports are compared to the exact counts; distinct by plan"
)
G = 1 / 8


# --- a stand-in for aiocarbon, which does not work with this Python

CLIENTS = []
CURRENT = []


class Storage:
    pass


class Client:
    case = None
    plan = ()

    def __init__(self, host, port=2003, namespace=None, storage=None):
        self.host, self.port = host, port
        self.namespace, self.storage = namespace, storage
        self.calls = []
        self.running = 0
        CLIENTS.append(self)

    async def send(self):
        loop = asyncio.get_running_loop()
        rec = [loop.time() - 1000, None]
        self.calls.append(rec)
        dur, kind = self.plan[(len(self.calls) - 1) % len(self.plan)]
        self.running += 1
        if self.running > 1:
            self.case.note("overlap", "two sendings at once")
        try:
            if dur:
                await asyncio.sleep(dur)
            rec[1] = loop.time() - 1000
            if kind == "raise":
                raise Boom(len(self.calls))
        except asyncio.CancelledError:
            rec[1] = "cancelled"
            raise
        finally:
            self.running -= 1


class UDP(Client):
    pass


class TCP(Client):
    pass


class Pickle(Client):
    pass


def stand_in():
    for name, attrs in (
        ("aiocarbon", {}),
        ("aiocarbon.protocol", {}),
        ("aiocarbon.protocol.pickle", {"PickleClient": Pickle}),
        ("aiocarbon.protocol.tcp", {"TCPClient": TCP}),
        ("aiocarbon.protocol.udp", {"UDPClient": UDP}),
        ("aiocarbon.setup", {"set_client": CURRENT.append}),
        ("aiocarbon.storage", {"TotalStorage": Storage}),
    ):
        mod = types.ModuleType(name)
        mod.__path__ = []
        vars(mod).update(attrs)
        sys.modules[name] = mod


stand_in()

from aiomisc.service.carbon import CarbonSender  # noqa: E402
from aiomisc.service.profiler import Profiler  # noqa: E402
from aiomisc.service.tracer import GroupBy, MemoryTracer  # noqa: E402


def quiet():
    logging.getLogger("aiomisc").setLevel(logging.CRITICAL)


class Capture(logging.Handler):
    """Receives the records of one logger and its children."""

    def __init__(self, name, func, level=logging.INFO):
        super().__init__(level)
        self.func = func
        self.log = logging.getLogger(name)
        self.old = self.log.level, self.log.propagate

    def emit(self, record):
        self.func(record)

    def __enter__(self):
        self.log.addHandler(self)
        self.log.setLevel(logging.INFO)
        self.log.propagate = False
        return self

    def __exit__(self, *_):
        self.log.removeHandler(self)
        self.log.level, self.log.propagate = self.old


# --- memory tracer

UNITS = {"": 1, "Ki": 2 ** 10, "Mi": 2 ** 20, "Gi": 2 ** 30}
ROW = re.compile(
    r"\s*(\d+) \|\s+(-?\d+) \|\s+(-?[\d.]+)(\w*)B \|\s+(-?[\d.]+)(\w*)B \| "
    r"(.*)",
)


def rows_of(text):
    out = []
    for line in text.split("\n"):
        m = ROW.fullmatch(line)
        if m:
            count, diff, size, u1, sdiff, u2, where = m.groups()
            out.append((int(count), int(diff), float(size) * UNITS[u1],
                        float(sdiff) * UNITS[u2], where))
    return out


class Site:
    """A file which allocates n blocks of a size; knows what it holds."""

    def __init__(self, path, size):
        self.path, self.size = path, size
        src = (
            "def alloc(keep, n, make, size):\n"
            "    for i in range(n):\n"
            "        keep[i] = make(size)\n"
        )
        ns = {}
        exec(compile(src, path, "exec"), ns)
        self.func = ns["alloc"]
        self.keeps = []
        self.n = 0

    def alloc(self, n):
        keep = [None] * n
        self.func(keep, n, bytes, self.size)
        self.keeps.append(keep)
        self.n += n

    def free(self):
        if self.keeps:
            self.n -= len(self.keeps.pop())


SLACK = 2048      # frames, functions and such allocated at the same place


def approx(shown, real):
    unit = 1024 ** next(k for k in range(5) if abs(real) < 1024.0 ** (k + 1))
    return -0.06 * unit <= shown - real <= 0.06 * unit + SLACK


def tracer(case):
    rng = case.rng
    tmp = case.tmp()
    interval = rng.choice([0.03, 0.06, 0.1])
    top = rng.choice([3, 5, 20])
    group = rng.choice(list(GroupBy))
    own_logger = rng.random() < 0.5
    nsites = rng.choice([1, 2, 3])
    lives = rng.choice([1, 1, 2, 3])
    fails = [rng.random() < 0.3 for _ in range(64)]
    slow = rng.random() < 0.4
    via_entrypoint = rng.random() < 0.4
    plan = [[(rng.randrange(nsites), rng.random() < 0.7, rng.randint(1, 40))
             for _ in range(rng.randint(1, 4))]
            for _ in range(lives * 3)]
    case.trace(interval, top, group.name, own_logger, lives, plan, slow)
    case.describe(interval=interval, top=top, group=group.name, plan=plan)
    reports = []
    inside = []
    quiet()

    def report(fmt, *args):
        ident = threading.get_ident()
        inside.append(ident)
        n = len(reports)
        if len(inside) > 1:
            case.note("overlap", "two reports at once")
        reports.append(fmt % args if args else fmt)
        if ident == main_thread:
            case.note("blocking", "the report is made in the loop's thread")
        if slow:
            import time
            time.sleep(0.02)
        inside.remove(ident)
        if fails[n % len(fails)]:
            raise Boom(n)

    def on_record(record):
        if record.levelno == logging.INFO and "memory" in record.getMessage():
            report(record.getMessage())

    main_thread = threading.get_ident()
    base = os.path.join(tmp, "site")

    def expected(site):
        n = site.n
        return n, n * (sys.getsizeof(b"") + site.size)

    def shows(text, sites):
        rows = rows_of(text)
        got = {}
        for count, diff, size, sdiff, where in rows:
            for k, site in enumerate(sites):
                if where.startswith(site.path + ":"):
                    got[k] = (count, diff, size, sdiff, where)
        for k, site in enumerate(sites):
            n, size = expected(site)
            if n == 0:
                if k in got and got[k][2] > SLACK:
                    return False
                continue
            if k not in got:
                return False
            row = got[k]
            if not n <= row[0] <= n + 5 or not n <= row[1] <= n + 5:
                return False
            if not approx(row[2], size) or not approx(row[3], size):
                return False
            line = 0 if group is GroupBy.filename else 3
            if row[4] != f"{site.path}:{line}":
                return False
        return True

    async def live(service, steps):
        sites = [Site(f"{base}{k}-{len(reports)}.py", 60000 * (k + 1) + k)
                 for k in range(nsites)]
        case.check(tracemalloc.is_tracing(), "not-tracing",
                   "a started tracer does not trace")
        for step in steps:
            for k, alloc, n in step:
                sites[k].alloc(n) if alloc else sites[k].free()
            start = len(reports)
            ok = await eventually(
                lambda: any(shows(t, sites) for t in reports[start:]), 8,
            )
            case.event("reports", len(reports) - start)
            case.check_soft(
                ok, "not-reported", "no report shows what is allocated",
                state=[expected(s) for s in sites],
                reports=[rows_of(t)[:6] for t in reports[start:][-2:]],
                n=len(reports) - start,
            )
            for text in reports[start:]:
                rows = rows_of(text)
                case.check(
                    text.count("\n") <= top + 3 and len(rows) <= top,
                    "too-many-rows", f"{len(rows)} rows, top_results={top}",
                )
                case.check(len(rows) > 0, "no-rows", text[:300])
                sizes = [abs(r[3]) for r in rows]
                case.check(
                    all(a >= b * 0.9 for a, b in zip(sizes, sizes[1:])),
                    "order", "the rows are not sorted by growth", sizes=sizes,
                )

    async def after_stop(before):
        case.check(not tracemalloc.is_tracing(), "still-tracing",
                   "tracemalloc is on after stop")
        await asyncio.sleep(0)
        extra = [t for t in asyncio.all_tasks() if t not in before]
        case.check(not extra, "tasks-left", repr(extra)[:300])
        n = len(reports)
        await asyncio.sleep(interval * 3 + 0.05)
        # the thread of a report which was being made may finish it
        case.check(len(reports) <= n + 1, "report-after-stop",
                   f"{len(reports) - n} reports after stop")
        case.event("stops")

    async def main():
        before = asyncio.all_tasks()
        errors = []
        with Capture("aiomisc.recurring",
                     lambda r: errors.append(r.exc_info)):
            for life in range(lives):
                steps = plan[life * 3:life * 3 + 3]
                kw = dict(interval=interval, top_results=top, group_by=group)
                if own_logger:
                    kw["logger"] = report
                if life == 0 or rng.random() < 0.5:
                    service = MemoryTracer(**kw)
                if via_entrypoint:
                    import aiomisc
                    async with aiomisc.entrypoint(
                        service, log_config=False, catch_signals=(),
                    ):
                        await live(service, steps)
                    service = MemoryTracer(**kw)
                else:
                    await service.start()
                    try:
                        await live(service, steps)
                        if rng.random() < 0.5:
                            await asyncio.sleep(rng.random() * interval * 2)
                    finally:
                        await service.stop()
                await after_stop(before)
            for info in errors:
                case.check(isinstance(info[1], Boom), "report-error",
                           repr(info[1]))
        if len(reports) < 2:
            case.trivial()

    cap = None
    if not own_logger:
        cap = Capture("aiomisc.service.tracer", on_record)
        cap.__enter__()
    try:
        import aiomisc
        pool = aiomisc.ThreadPoolExecutor(4)
        try:
            run_real(main, executor=pool)
        finally:
            pool.shutdown()
    finally:
        if cap:
            cap.__exit__()
        if tracemalloc.is_tracing():
            tracemalloc.stop()


# --- profiler

def profiler(case):
    rng = case.rng
    tmp = case.tmp()
    path = os.path.join(tmp, "profile")
    with_path = rng.random() < 0.8
    interval = rng.randint(1, 16) * G
    top = rng.choice([1, 4, 10, 200])
    lives = rng.choice([1, 2, 3])
    nfuncs = rng.randint(1, 4)
    bad = {n for n in range(40) if rng.random() < 0.2}
    case.trace(interval, top, lives, nfuncs, with_path, sorted(bad)[:5])
    case.describe(interval=interval, top=top, lives=lives)
    quiet()
    funcs, counts = [], []
    for k in range(nfuncs):
        ns = {}
        exec(compile(f"def work{k}(x):\n    return x\n",
                     os.path.join(tmp, f"w{k}.py"), "exec"), ns)
        funcs.append(ns[f"work{k}"])
        counts.append(0)
    seen = []

    def work():
        k = rng.randrange(nfuncs)
        for _ in range(rng.randint(1, 5)):
            funcs[k](k)
            counts[k] += 1

    def on_record(record):
        text = record.getMessage()
        if "function calls" not in text:
            return
        seen.append((asyncio.get_running_loop().time() - 1000,
                     list(counts), text))
        if with_path and len(seen) in bad:
            # the dump which comes now fails
            if os.path.exists(path):
                os.remove(path)
            os.mkdir(path)

    def check_report(n, base):
        now, snap, text = seen[n]
        case.event("reports")
        rows = [r for r in text.split("\n")
                if re.match(r"\s+\d+(/\d+)?\s+[\d.]+\s+[\d.]+", r)]
        case.check(len(rows) <= top, "too-many-rows",
                   f"{len(rows)} rows of {top}")
        for k in range(nfuncs):
            want = snap[k] - base[k]
            for row in rows:
                if f"(work{k})" in row:
                    case.check(int(row.split()[0]) == want, "wrong-count",
                               f"{row!r}, {want} calls")
                    case.event("rows")
            if top >= 200:
                case.check(
                    not want or any(f"(work{k})" in r for r in rows),
                    "function-missing", f"work{k} was called {want} times",
                )
        if with_path and n + 1 not in bad:
            case.check(os.path.isfile(path), "not-dumped", f"report {n}")
            stats = pstats.Stats(path).stats
            for k in range(nfuncs):
                got = sum(v[1] for key, v in stats.items()
                          if key[2] == f"work{k}")
                case.check(got == snap[k] - base[k], "wrong-dump",
                           f"work{k}: {got} of {snap[k] - base[k]} calls")
        elif os.path.isdir(path):
            os.rmdir(path)

    async def main():
        loop = asyncio.get_running_loop()
        before = asyncio.all_tasks()
        kw = dict(interval=interval, top_results=top)
        if with_path:
            kw["path"] = path
        service = Profiler(**kw)
        for _ in range(lives):
            for _ in range(rng.randrange(3)):
                work()                     # not profiled
            base = list(counts)
            first = len(seen)
            began = loop.time() - 1000
            await service.start()
            end = began + rng.randint(1, 60) * G + G / 2
            checked = first
            while loop.time() - 1000 < end:
                if rng.random() < 0.8:
                    work()
                await asyncio.sleep(G)
                # off the grid of the reports
                while checked < len(seen):
                    check_report(checked, base)
                    checked += 1
            stopped = loop.time() - 1000
            await service.stop()
            while checked < len(seen):
                check_report(checked, base)
                checked += 1
            got = [t for t, _, _ in seen[first:]]
            want = []
            t = began
            while t < stopped:
                want.append(t)
                t += interval
            case.check(
                got == want or (got[:-1] == want[:-1] and stopped in got)
                or got == want + [stopped],
                "schedule", f"reports at {got}, not {want}",
            )
            case.check(sys.monitoring.get_tool(sys.monitoring.PROFILER_ID)
                       is None and sys.getprofile() is None,
                       "still-profiling", "after stop")
            n = len(seen)
            extra = asyncio.all_tasks() - before
            case.check(not extra, "tasks-left", repr(extra)[:300])
            await asyncio.sleep(interval * 3)
            case.check(len(seen) == n, "report-after-stop", "")
            case.event("stops")
            if rng.random() < 0.5:
                service = Profiler(**kw)

    with Capture("aiomisc.service.profiler", on_record):
        run_virtual(main)
    if len(seen) < 3:
        case.trivial()


# --- carbon

WORD = ["app", "My App", "a.b", "--x--", "_lead_", "UPPER", "1 2  3", "é-ü",
        "a/b:c", "x"]


def sanitized(word):
    out, gap = "", False
    for ch in word:
        if re.match(r"[\w\-]", ch):
            out += ("_" if gap else "") + ch
            gap = False
        else:
            gap = True
    if gap:
        out += "_"
    return out.strip("_").lower()


def carbon(case):
    rng = case.rng
    interval = rng.randint(1, 12) * G
    namespace = tuple(rng.choice(WORD) for _ in range(rng.randint(1, 3)))
    protocol = rng.choice(["udp", "tcp", "pickle"])
    host, port = f"h{rng.randrange(99)}", rng.randint(1, 65000)
    plan = [(rng.choice([0, 0, 1, 2, 20]) * G,
             rng.choice(["ok", "ok", "raise"])) for _ in range(20)]
    lives = rng.choice([1, 2, 3])
    case.trace(interval, namespace, protocol, plan[:6], lives)
    case.describe(interval=interval, plan=plan[:6])
    quiet()
    Client.case, Client.plan = case, plan
    CLIENTS.clear()
    CURRENT.clear()

    async def main():
        loop = asyncio.get_running_loop()
        before = asyncio.all_tasks()
        service = CarbonSender(
            host=host, port=port, send_interval=interval, protocol=protocol,
            namespace=namespace, loop=loop,
        )
        for life in range(lives):
            if rng.random() < 0.5:
                service.set_loop(loop)
            began = loop.time() - 1000
            await service.start()
            case.check(len(CLIENTS) == life + 1, "clients",
                       f"{len(CLIENTS)} clients")
            client = CLIENTS[-1]
            case.check(CURRENT[-1:] == [client], "not-set",
                       "the client is not the one metrics are given to")
            case.check(
                type(client) is {"udp": UDP, "tcp": TCP,
                                 "pickle": Pickle}[protocol]
                and (client.host, client.port) == (host, port)
                and client.namespace == ".".join(map(sanitized, namespace))
                and isinstance(client.storage, Storage),
                "client", repr((vars(client), namespace)),
            )
            stop = began + rng.randint(0, 80) * G + G / 2
            await asyncio.sleep(stop - began)
            await service.stop()
            t, want = began, []
            for i in range(len(plan) * 20):
                if t > stop:
                    break
                dur = plan[i % len(plan)][0]
                want.append(t)
                t += dur + interval
            got = [c[0] for c in client.calls]
            case.check(got == want, "schedule", f"{got} instead of {want}",
                       plan=plan)
            case.event("sendings", len(got))
            case.check(not client.running, "running", "after stop")
            extra = asyncio.all_tasks() - before
            case.check(not extra, "tasks-left", repr(extra)[:300])
            await asyncio.sleep(3 * interval)
            case.check(len(client.calls) == len(want), "send-after-stop", "")
            case.event("stops")

    run_virtual(main)


SCENARIOS = [
    Scenario(tracer, quick=56, timeout=90),
    Scenario(profiler, quick=200, timeout=30),
    Scenario(carbon, quick=200, timeout=30),
]
