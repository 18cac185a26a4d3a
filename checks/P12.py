from vf import vwall

vwall.install()

import asyncio  # noqa: E402
import calendar  # noqa: E402
import logging  # noqa: E402
import os  # noqa: E402
import time  # noqa: E402
from datetime import datetime, timedelta, timezone  # noqa: E402

import aiomisc  # noqa: E402
from aiomisc.cron import CronCallback  # noqa: E402
from aiomisc.service.cron import CronService  # noqa: E402

from vf.core import Scenario  # noqa: E402
from vf.util import Boom  # noqa: E402
from vf.vloop import run_virtual, steps  # noqa: E402

RULE = (
    "random cron specifications (5 and 6 fields) started at random wall "
    "clock times, functions of random durations and failures, timers late "
    "by a random latency, stopped and restarted; every call is compared to "
    "a brute force evaluation of the specification; distinct by spec, start "
    "and durations"
)


class Errors(logging.Handler):
    """Collects the errors of the calls which are logged."""

    def __init__(self):
        super().__init__(logging.ERROR)
        self.excs = []
        self.log = logging.getLogger("aiomisc.recurring")

    def emit(self, record):
        self.excs.append(record.exc_info[1])

    def __enter__(self):
        self.log.addHandler(self)
        self.propagate, self.log.propagate = self.log.propagate, False
        return self

    def __exit__(self, *_):
        self.log.removeHandler(self)
        self.log.propagate = self.propagate


class Field:
    def __init__(self, rng, low, high, kinds):
        kind = rng.choice(kinds)
        full = range(low, high + 1)
        if kind == "*":
            self.text, self.values = "*", set(full)
        elif kind == "step":
            n = rng.choice([2, 3, 5, 7, 10, 15])
            self.text, self.values = f"*/{n}", set(full[::n])
        elif kind == "one":
            v = rng.choice(full)
            self.text, self.values = str(v), {v}
        elif kind == "list":
            vs = sorted(rng.sample(full, min(3, len(full))))
            self.text, self.values = ",".join(map(str, vs)), set(vs)
        else:
            a, b = sorted(rng.sample(full, 2))
            self.text, self.values = f"{a}-{b}", set(range(a, b + 1))
        self.kind = kind


class Spec:
    def __init__(self, rng):
        seconds = rng.random() < 0.4
        many = ["*", "*", "step", "step", "list", "range", "one"]
        rare = ["*", "*", "*", "*", "list", "range", "step", "one"]
        self.second = Field(rng, 0, 59, many) if seconds else None
        self.minute = Field(rng, 0, 59, many)
        self.hour = Field(rng, 0, 23, rare)
        star = ["*"]
        which = rng.choice(["none", "none", "dom", "dow", "month"])
        if which == "dom":
            self.dom = Field(rng, 1, 28, ["list", "range", "one"])
        else:
            self.dom = Field(rng, 1, 31, star)
        # (croniter itself may skip the days when some are beyond 28)
        self.month = Field(rng, 1, 12,
                           ["list", "range"] if which == "month"
                           else star)
        self.dow = Field(rng, 0, 6,
                         ["list", "range", "one"] if which == "dow"
                         else star)
        parts = [self.minute, self.hour, self.dom, self.month, self.dow]
        if seconds:
            parts.append(self.second)
        self.text = " ".join(p.text for p in parts)

    def next(self, ts):
        """The first matching moment strictly after ts (brute force)."""
        step = 1 if self.second else 60
        t = (int(ts) // step + 1) * step
        for _ in range(400 * 24 * 60):
            tm = time.gmtime(t)
            if (
                tm.tm_mon not in self.month.values or
                tm.tm_mday not in self.dom.values or
                (tm.tm_wday + 1) % 7 not in self.dow.values
            ):
                t = (t // 86400 + 1) * 86400
                continue
            if tm.tm_hour not in self.hour.values:
                t = (t // 3600 + 1) * 3600
                continue
            if tm.tm_min not in self.minute.values:
                t = (t // 60 + 1) * 60
                continue
            if self.second and tm.tm_sec not in self.second.values:
                t += 1
                continue
            return t
        return None


def use_zone(case):
    """The specifications are in UTC, whatever the local zone is."""
    zone = case.rng.choice([
        "UTC0", "UTC0", "XXX-5", "XXX+9:30", "EST5EDT,M3.2.0,M11.1.0",
        "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3",
    ])
    before = os.environ.get("TZ")

    def restore():
        if before is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = before
        time.tzset()
    case.defer(restore)
    os.environ["TZ"] = zone
    time.tzset()
    case.trace(zone)


def cron(case):
    rng = case.rng
    use_zone(case)
    spec = Spec(rng)
    base = calendar.timegm((
        rng.randint(2023, 2031), rng.choice([1, 2, 2, 6, 12]),
        rng.choice([1, 15, 27, 28]), rng.choice([0, 12, 23]),
        rng.choice([0, 30, 59]), rng.choice([0, 30, 59]),
    )) + rng.choice([0.001, 0.25, 0.5, 0.999]) - 1000.0
    plan = [
        (rng.choice([0, 0, 0, 0.5, 1.5, 30.25, 61, 200, 4000]),
         rng.choice(["ok", "ok", "raise", "cancel"]))
        for _ in range(40)
    ]
    sync = rng.random() < 0.2
    shield = rng.random() < 0.25
    suppress = rng.choice([(), (), (Boom,), (KeyError, Exception),
                           (KeyError,)])
    late = rng.choice([0.0001, 0.003, 0.02])
    count = rng.choice([3, 8, 25])
    rounds = rng.choice([1, 1, 2])
    case.trace(spec.text, base, sync, late, count, shield, suppress,
               *plan[:5])
    case.describe(spec=spec.text, start=base + 1000, sync=sync,
                  plan=plan[:5], count=count)
    calls = []

    def wall():
        return vwall.WALL.now()

    def begin(args, kwargs):
        case.check((args, kwargs) == ((1,), {"k": 2}), "arguments", "")
        if calls and calls[-1][1] is None:
            case.note("overlap", "two calls run at once")
        rec = [wall(), None, False]
        calls.append(rec)
        return rec, plan[(len(calls) - 1) % len(plan)]

    def finish(kind):
        if kind == "raise":
            raise Boom(1)
        if kind == "cancel":
            raise asyncio.CancelledError

    async def afunc(*args, **kwargs):
        rec, (dur, kind) = begin(args, kwargs)
        try:
            await asyncio.sleep(dur)
            rec[2] = True
        finally:
            rec[1] = wall()
        finish(kind)

    def sfunc(*args, **kwargs):
        rec, (_, kind) = begin(args, kwargs)
        rec[1], rec[2] = wall(), True
        finish(kind)

    async def main():
        loop = asyncio.get_running_loop()
        vwall.WALL.loop, vwall.WALL.base = loop, base
        cb = CronCallback(sfunc if sync else afunc, 1, k=2)
        for r in range(rounds):
            calls.clear()
            started = wall()
            errors.excs.clear()
            kw = {"shield": shield} if shield or rng.random() < 0.5 else {}
            if suppress:
                kw["suppress_exceptions"] = suppress
            cb.start(spec.text, loop=loop, **kw)
            if rng.random() < 0.3:
                try:
                    cb.start("* * * * *")
                except asyncio.InvalidStateError:
                    pass
                else:
                    case.fail("started-twice", "")
            first = spec.next(started)
            if first is None:
                case.trivial()
                break
            # until enough calls, then stop at a random moment
            while len([c for c in calls if c[1]]) < count:
                ref = calls[-1][1] or calls[-1][0] if calls else started
                nxt = spec.next(max(ref, wall() - 5000))
                await asyncio.sleep(max(nxt - wall(), 0.5) + 0.1)
                if wall() - started > 400 * 86400:
                    break
            await asyncio.sleep(rng.choice([0, 0, 0.3, 3, 45]))
            await steps(rng.randint(0, 3))
            stopped = wall()
            fut = cb.stop()
            try:
                await fut
            except asyncio.CancelledError:
                pass
            n = len(calls)
            if shield:
                # the running call is not interrupted
                await asyncio.sleep(86400)
                case.check(all(c[2] for c in calls), "shield",
                           "a shielded call was interrupted",
                           plan=case.sample)
            case.check(not calls or calls[-1][1] is not None,
                       "running-after-stop", "")
            await asyncio.sleep(rng.choice([1, 86400]))
            case.check(len(calls) == n, "call-after-stop", "")
            failed = [
                i for i, c in enumerate(calls)
                if c[2] and plan[i % len(plan)][1] == "raise"
            ] if not issubclass(Boom, tuple(suppress)) else []
            case.check(len(errors.excs) == len(failed), "errors-logged",
                       f"{len(errors.excs)} errors were logged, "
                       f"{len(failed)} calls failed", plan=case.sample)
            verify(started, stopped)
            case.event("rounds")

    def verify(started, stopped):
        t = started
        for i, (s, e, full) in enumerate(calls):
            want = spec.next(t)
            case.check(
                want <= s <= want + 0.1, "call-time",
                f"call {i} at {datetime.fromtimestamp(s, timezone.utc)} "
                f"instead of {datetime.fromtimestamp(want, timezone.utc)}",
                plan=case.sample,
            )
            t = e
        want = spec.next(t)
        if calls and (not calls[-1][2] or calls[-1][1] > stopped):
            case.event("call_interrupted")
        else:
            case.check(want >= stopped - 0.2, "missed-call",
                       f"no call at {want}", stopped=stopped,
                       plan=case.sample)
        case.event("calls", len(calls))
    try:
        with Errors() as errors:
            run_virtual(main, latency=lambda: late * (0.01 + rng.random()),
                        max_steps=10 ** 7)
    finally:
        vwall.WALL.loop = None


def bad_spec(case):
    rng = case.rng
    spec = rng.choice(["", "nope", "* * * *", "61 * * * *", "* 25 * * *"])

    async def main():
        cb = CronCallback(lambda: None)
        try:
            cb.start(spec)
        except (ValueError, KeyError):
            case.event("rejected")
        else:
            case.fail("accepted-bad-spec", spec)
    case.trace(spec)
    run_virtual(main)


def calendar_edges(case):
    """Month ends, leap days, new year and 31sts."""
    rng = case.rng
    use_zone(case)
    text, y0, wants = rng.choice([
        ("0 0 29 2 *", (2023, 3, 1), [(2024, 2, 29), (2028, 2, 29)]),
        ("0 0 1 1 *", (2025, 1, 2), [(2026, 1, 1), (2027, 1, 1)]),
        ("0 0 31 * *", (2025, 3, 31), [(2025, 5, 31), (2025, 7, 31),
                                       (2025, 8, 31), (2025, 10, 31)]),
        ("0 0 28 2 *", (2024, 2, 29), [(2025, 2, 28), (2026, 2, 28)]),
        ("59 23 31 12 *", (2024, 12, 31), [(2024, 12, 31, 23, 59),
                                           (2025, 12, 31, 23, 59)]),
    ])
    case.trace(text)
    calls = []

    async def main():
        loop = asyncio.get_running_loop()
        vwall.WALL.loop = loop
        vwall.WALL.base = calendar.timegm(y0 + (0, 0, 0)) - 999.5
        cb = CronCallback(lambda: calls.append(vwall.WALL.now()))
        cb.start(text)
        end = calendar.timegm((wants[-1] + (0, 0))[:5] + (0,)) + 5
        await asyncio.sleep(end - vwall.WALL.now())
        cb.stop().add_done_callback(lambda f: f.cancelled())
        await asyncio.sleep(0)
    try:
        run_virtual(main, latency=lambda: 0.001)
    finally:
        vwall.WALL.loop = None
    want = [calendar.timegm((w + (0, 0))[:5] + (0,)) for w in wants]
    case.check(
        len(want) == len(calls) and
        all(0 <= c - w < 0.1 for c, w in zip(calls, want)),
        "call-time", f"{text}: {calls} instead of {want}",
    )
    case.event("calls", len(calls))


def service(case):
    """CronService: every registered function is called by its own spec until
    the service is stopped."""
    rng = case.rng
    use_zone(case)
    specs = [Spec(rng) for _ in range(rng.randint(1, 4))]
    for sp in specs:
        # often enough to be seen
        sp.hour = Field(rng, 0, 23, ["*"])
        sp.dom = Field(rng, 1, 31, ["*"])
        sp.month = Field(rng, 1, 12, ["*"])
        sp.dow = Field(rng, 0, 6, ["*"])
        parts = [sp.minute, sp.hour, sp.dom, sp.month, sp.dow]
        sp.text = " ".join(
            p.text for p in parts + ([sp.second] if sp.second else [])
        )
    base = calendar.timegm((2026, 5, 31, 23, 20, 0)) - 999.75
    durs = [rng.choice([0, 0.5, 90]) for _ in specs]
    cleanup = rng.choice([0, 0, 2])
    length = rng.choice([3600, 7200, 600])
    case.trace(*[sp.text for sp in specs], *durs, length)
    case.describe(specs=[sp.text for sp in specs], durations=durs)
    calls = [[] for _ in specs]
    shields = [rng.random() < 0.3 for _ in specs]
    suppress = [rng.choice([(), (Boom,), (KeyError,)]) for _ in specs]
    svc = CronService()

    def register(i):
        async def func():
            rec = [vwall.WALL.now(), None, False]
            calls[i].append(rec)
            try:
                await asyncio.sleep(durs[i])
                rec[2] = True
            finally:
                if not rec[2]:
                    await asyncio.sleep(cleanup)
                rec[1] = vwall.WALL.now()
            if i % 2:
                raise Boom(i)
        kw = {}
        if shields[i] or rng.random() < 0.3:
            kw["shield"] = shields[i]
        if suppress[i]:
            kw["suppress_exceptions"] = suppress[i]
        svc.register(func, sp.text, **kw)

    for i, sp in enumerate(specs):
        register(i)

    async def main():
        loop = asyncio.get_running_loop()
        vwall.WALL.loop, vwall.WALL.base = loop, base
        async with aiomisc.entrypoint(svc, log_config=False):
            started = vwall.WALL.now()
            await asyncio.sleep(length)
            stopping = vwall.WALL.now()
        stopped = vwall.WALL.now()
        counts = [len(c) for c in calls]
        await asyncio.sleep(7200)
        case.check([len(c) for c in calls] == counts, "call-after-stop", "")
        for i, sp in enumerate(specs):
            t = started
            for s, e, full in calls[i]:
                want = sp.next(t)
                case.check(want <= s <= want + 0.1, "call-time",
                           f"{sp.text}: {s} instead of {want}")
                case.check(e is not None, "running-after-stop", "")
                t = e
            if shields[i]:
                case.check(all(c[2] for c in calls[i]), "shield",
                           "a shielded call was interrupted")
            else:
                case.check(all(c[1] <= stopped for c in calls[i]),
                           "running-after-stop", "")
            if not calls[i] or (calls[i][-1][2]
                                and calls[i][-1][1] <= stopped):
                case.check(sp.next(t) >= stopping - 0.1, "missed-call",
                           sp.text)
            case.event("calls", len(calls[i]))
            want = sum(c[2] for c in calls[i]) if (
                i % 2 and Boom not in suppress[i]) else 0
            got = sum(e.args == (i,) for e in errors.excs)
            case.check(got == want, "errors-logged",
                       f"{got} errors were logged, {want} calls failed")
    try:
        with Errors() as errors:
            run_virtual(main, latency=lambda: 0.001 * rng.random(),
                        max_steps=10 ** 7)
    finally:
        vwall.WALL.loop = None
    for bad in ("", "nope", "61 * * * *"):
        try:
            svc.register(main, bad)
        except TypeError:
            pass
        else:
            case.fail("accepted-bad-spec", bad)


SCENARIOS = [
    Scenario(service, 60),
    Scenario(cron, 500),
    Scenario(bad_spec, 10),
    Scenario(calendar_edges, 30),
]
