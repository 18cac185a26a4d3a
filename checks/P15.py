import asyncio

import aiomisc

from vf.core import Scenario
from vf.util import Boom
from vf.vloop import run_virtual

RULE = (
    "entrypoints with random services (start durations, start events, "
    "background start(), failures, stop durations and failures), services "
    "added and stopped in the middle, bodies returning or raising, in "
    "virtual time; distinct by plan"
)
G = 1 / 8


class Log:
    def __init__(self):
        self.events = []

    def __call__(self, kind, who=None, extra=None):
        self.events.append(
            (asyncio.get_running_loop().time() - 1000, kind, who, extra),
        )

    def index(self, kind, who):
        out = [i for i, e in enumerate(self.events) if e[1:3] == (kind, who)]
        return out

    def time(self, kind, who):
        return self.events[self.index(kind, who)[0]][0]


class Plan:
    def __init__(self, rng, fail_start=False):
        self.kind = rng.choice(["plain", "event", "event_forever", "late"])
        self.event_at = rng.randint(0, 6) * G
        self.end_at = self.event_at + rng.choice([1, 3, 10, 50]) * G
        self.bg_fail = rng.random() < 0.2
        self.fail = fail_start
        self.cleanup = rng.choice([0, 0, 2]) * G
        self.stop_dur = rng.choice([0, 0, 1, 4, 9]) * G
        self.stop_fail = rng.choice([None] * 5 + ["raise"])
        if self.fail:
            self.kind = "plain"

    def ready_at(self):
        return self.event_at

    def __repr__(self):
        return repr(sorted(self.__dict__.items()))


def make(case, log, name, plan):
    class Svc(aiomisc.Service):
        async def start(self):
            log("start", name)
            case.check(self.loop is asyncio.get_running_loop(), "loop", "")
            case.check(self.context is not None, "context", "")
            try:
                if plan.event_at:
                    await asyncio.sleep(plan.event_at)
                if plan.fail:
                    raise Boom(name)
                if plan.kind == "plain":
                    return
                self.start_event.set()
                log("event", name)
                if plan.kind == "event_forever":
                    await asyncio.sleep(10 ** 6)
                await asyncio.sleep(plan.end_at - plan.event_at)
                if plan.bg_fail:
                    raise Boom(name)
            except asyncio.CancelledError:
                log("start_cancelled", name)
                if plan.cleanup:
                    await asyncio.sleep(plan.cleanup)
                raise
            finally:
                log("start_end", name)

        async def stop(self, exception=None):
            log("stop", name, exception)
            try:
                if plan.stop_dur:
                    await asyncio.sleep(plan.stop_dur)
                if plan.stop_fail:
                    raise Boom(("stop", name))
            finally:
                log("stop_end", name)
    svc = Svc()
    svc.vf_name = name
    return svc


def names(svcs):
    return frozenset(s.vf_name for s in svcs)


def connect(case, log, ep, fail=None):
    def receiver(kind):
        async def func(entrypoint, services):
            case.expect(entrypoint is ep, "signal-args", kind)
            log(kind, names(services))
            await asyncio.sleep(0)
            log(kind + "_end", names(services))
            if fail == kind:
                raise Boom(kind)
        return func
    for kind in ("pre_start", "post_start", "pre_stop", "post_stop"):
        getattr(ep, kind).connect(receiver(kind))


def once(case, log, kind, who, n=1):
    idx = log.index(kind, who)
    case.check(len(idx) == n, f"{kind}-count",
               f"{kind} of {who} happened {len(idx)} times", plan=case.sample)
    return idx[0] if idx else None


def judge_start(case, log, group, plans, t_call, t_ready, failed):
    """One start of a group of services"""
    a = once(case, log, "pre_start", group)
    a_end = once(case, log, "pre_start_end", group)
    b = once(case, log, "post_start", group)
    want = t_call
    fails = [p.event_at for n in group for p in [plans[n]] if p.fail]
    for n in group:
        s = once(case, log, "start", n)
        case.check(a_end < s, "pre_start-late",
                   f"{n} was started before pre_start ended",
                   plan=case.sample)
        case.check(log.events[s][0] == t_call, "start-time",
                   f"{n} started {log.events[s][0] - t_call}s late",
                   plan=case.sample)
        case.check(s < b, "post_start-early", "", plan=case.sample)
        want = max(want, t_call + plans[n].ready_at())
    if fails:
        want = t_call + min(fails)
        case.check(failed, "start-failure-lost",
                   "the entrypoint started though a service failed",
                   plan=case.sample)
    else:
        case.check(not failed, "start-failed", "", plan=case.sample)
    case.check(t_ready == want, "start-wait",
               f"entered after {t_ready - t_call}s instead of "
               f"{want - t_call}s", plan=case.sample)
    case.check(log.events[b][0] == want, "post_start-time",
               f"{log.events[b][0]} {want}", plan=case.sample)
    del a


def judge_stop(case, log, group, plans, t_call, t_done, exc):
    a_end = once(case, log, "pre_stop_end", group)
    b = once(case, log, "post_stop", group)
    times = set()
    end = t_call
    for n in group:
        s = once(case, log, "stop", n)
        e = once(case, log, "stop_end", n)
        case.check(a_end < s, "pre_stop-late", f"{n}", plan=case.sample)
        case.check(e < b, "post_stop-early",
                   f"post_stop was sent before {n} has stopped",
                   plan=case.sample)
        case.check(log.events[s][3] is exc, "stop-exception",
                   f"{log.events[s][3]!r} instead of {exc!r}",
                   plan=case.sample)
        times.add(log.events[s][0])
        case.check(
            log.events[e][0] == log.events[s][0] + plans[n].stop_dur,
            "stop-interrupted", f"{n} stopped after "
            f"{log.events[e][0] - log.events[s][0]}s", plan=case.sample)
        end = max(end, log.events[e][0])
    case.check(len(times) <= 1, "stop-not-concurrent", f"{times}",
               plan=case.sample)
    if times:
        slack = max(plans[n].cleanup for n in group)
        case.check(t_call <= min(times) <= t_call + slack + max(
            [p.cleanup for p in plans.values()]), "stop-late",
            f"{times} {t_call}", plan=case.sample)
    case.check(t_done >= end, "stop-not-awaited",
               f"{t_done} < {end}", plan=case.sample)
    return end


def lifecycle(case):
    rng = case.rng
    n = rng.choice([0, 1, 2, 3, 5])
    dynamic = rng.choice([0, 0, 1, 2])
    plans = {f"s{i}": Plan(rng) for i in range(n)}
    extra = []
    for d in range(dynamic):
        group = {}
        for i in range(rng.randint(1, 3)):
            group[f"d{d}.{i}"] = Plan(rng)
        extra.append((rng.choice([0, 1, 5, 20]) * G, group,
                      rng.random() < 0.6, rng.choice([0, 3, 30]) * G))
        plans.update(group)
    body = rng.choice(["ok", "ok", "raise", "cancelled"])
    dur = rng.choice([0, 2, 40]) * G
    watch = rng.choice(["early", "late", "none"])
    case.trace(n, body, dur, watch, *[repr(p) for p in plans.values()])
    case.describe(services={k: repr(p) for k, p in plans.items()},
                  body=body, dur=dur)
    log = Log()

    async def main():
        loop = asyncio.get_running_loop()

        def now():
            return loop.time() - 1000
        svcs = {k: make(case, log, k, p) for k, p in plans.items()}
        first = [svcs[f"s{i}"] for i in range(n)]
        ep = aiomisc.entrypoint(*first, log_config=False,
                                catch_signals=())
        connect(case, log, ep)
        alive = set()
        boom = Boom("body")
        stopped = {}
        stopping = {}
        started = {}
        t_exit = None
        watcher = None
        error = None
        outer = None
        t0 = now()
        try:
            async with ep:
                judge_start(case, log, names(first), plans, t0, now(), False)
                case.check(aiomisc.entrypoint.get_current() is ep,
                           "current", "")
                for sig in (ep.pre_start, ep.post_stop):
                    try:
                        sig.connect(main)
                    except RuntimeError:
                        pass
                    else:
                        case.fail("signal-not-frozen", "")
                alive |= set(names(first))
                if watch == "early":
                    watcher = asyncio.ensure_future(ep.closing())
                for wait, group, stop, gap in extra:
                    await asyncio.sleep(wait)
                    mine = [svcs[k] for k in group]
                    t = now()
                    await ep.start_services(*mine)
                    judge_start(case, log, names(mine), plans, t, now(),
                                False)
                    alive |= set(group)
                    case.check(names(ep.services) == alive, "services",
                               f"{names(ep.services)} {alive}",
                               plan=case.sample)
                    if stop:
                        await asyncio.sleep(gap)
                        sub = mine[:max(1, len(mine) - 1)]
                        t = now()
                        failing = [plans[s.vf_name] for s in sub
                                   if plans[s.vf_name].stop_fail]
                        try:
                            await ep.stop_services(*sub)
                        except Boom as e:
                            case.check(failing and e.token[0] == "stop",
                                       "stop-error", repr(e))
                        else:
                            case.check(not failing, "stop-error-lost", "",
                                       plan=case.sample)
                        judge_stop(case, log, names(sub), plans, t, now(),
                                   None)
                        slack = max(plans[s.vf_name].cleanup for s in sub)
                        stop_dur = max(plans[s.vf_name].stop_dur
                                       for s in sub)
                        case.check(
                            t + stop_dur <= now() <= t + stop_dur + slack,
                            "stop-time", "", plan=case.sample)
                        stopping.update(
                            {s.vf_name: (t, now()) for s in sub})
                        alive -= set(names(sub))
                        case.check(names(ep.services) == alive,
                                   "services", "", plan=case.sample)
                        case.event("dynamic_stop")
                await asyncio.sleep(dur)
                if watcher is not None:
                    case.check(not watcher.done(), "closing-early", "")
                t_exit = now()
                started.update({k: plans[k] for k in alive})
                if body == "raise":
                    error = boom
                    raise boom
                if body == "cancelled":
                    error = asyncio.CancelledError()
                    raise error
        except (Boom, asyncio.CancelledError) as e:
            outer = e
        t_done = now()
        failing = [k for k in started if plans[k].stop_fail]
        if failing:
            case.check(isinstance(outer, Boom) and
                       outer.token[0] == "stop", "stop-error-lost",
                       repr(outer), plan=case.sample)
        else:
            case.check(outer is error, "body-error",
                       f"{outer!r} instead of {error!r}", plan=case.sample)
        end = judge_stop(case, log, frozenset(started), plans, t_exit,
                         t_done, error)
        case.check(not ep.services, "services", "after the stop")
        # starts running in background have been cancelled and awaited
        for k, p in plans.items():
            s = log.time("start", k)
            idx = log.index("start_end", k)
            t_stop, t_stopped = stopping.get(k, (t_exit, None))
            running = p.kind == "event_forever" or (
                p.kind != "plain" and s + p.end_at > t_stop)
            if k in stopping and p.kind != "plain" and (
                s + p.end_at == t_stop
            ):
                continue     # at the same instant
            if running and t_stopped is not None:
                case.check(len(log.index("start_cancelled", k)) == 1,
                           "start-not-cancelled", k, plan=case.sample)
                case.check(t_stop <= log.events[idx[0]][0] <= t_stopped,
                           "start-survives-stop", k, plan=case.sample)
            elif running:
                case.check(len(log.index("start_cancelled", k)) == 1,
                           "start-not-cancelled", k, plan=case.sample)
                case.check(log.events[idx[0]][0] == t_exit + p.cleanup,
                           "start-cancel-time", k, plan=case.sample)
                end = max(end, t_exit + p.cleanup)
            elif p.kind == "plain" or s + p.end_at < t_stop:
                case.check(not log.index("start_cancelled", k),
                           "start-cancelled", k, plan=case.sample)
            case.check(len(idx) == 1, "start-not-ended", k,
                       plan=case.sample)
        case.check(t_done == end or t_done <= end + max(
            [p.cleanup for p in plans.values()] + [0]), "exit-time",
            f"{t_done} instead of {end}", plan=case.sample)
        if watch != "none":
            if watcher is None:
                watcher = asyncio.ensure_future(ep.closing())
            await asyncio.sleep(G)
            case.check(watcher.done(), "closing-not-set", watch)
        await asyncio.sleep(100)
        for k in plans:
            once(case, log, "stop", k, 1)
        left = asyncio.all_tasks() - {asyncio.current_task()}
        case.check(not left, "leaked-tasks", f"{left}", plan=case.sample)
        case.event("services", len(plans))
        del stopped
    run_virtual(main)


def failing_start(case):
    """A failing start() fails entering, whatever the others do."""
    rng = case.rng
    n = rng.choice([1, 2, 4])
    plans = {f"s{i}": Plan(rng) for i in range(n)}
    bad = rng.sample(sorted(plans), rng.randint(1, n))
    for b in bad:
        plans[b] = Plan(rng, fail_start=True)
    dynamic = rng.random() < 0.5
    case.trace(dynamic, *[repr(p) for p in plans.values()])
    case.describe(services={k: repr(p) for k, p in plans.items()})
    log = Log()

    async def main():
        loop = asyncio.get_running_loop()
        svcs = [make(case, log, k, p) for k, p in plans.items()]
        ep = aiomisc.entrypoint(*([] if dynamic else svcs),
                                log_config=False, catch_signals=())
        connect(case, log, ep)
        t0 = 0
        try:
            async with ep:
                case.check(dynamic, "start-failure-lost", "",
                           plan=case.sample)
                t0 = loop.time() - 1000
                await ep.start_services(*svcs)
                case.fail("start-failure-lost", "", plan=case.sample)
        except Boom as e:
            first = min(plans[b].event_at for b in bad)
            case.check(e.token in bad and plans[e.token].event_at == first
                       or e.token[0] == "stop",
                       "start-error", repr(e), plan=case.sample)
        if not dynamic:
            judge_start(case, log, names(svcs), plans, t0,
                        loop.time() - 1000, True)
        case.event("failed_starts")
    run_virtual(main)


def stop_while_starting(case):
    """Services whose start() is still in progress are cancelled, awaited
    and stopped by leaving the entrypoint or by stop_services."""
    rng = case.rng
    plans, groups = {}, []
    for g in range(rng.choice([1, 1, 2])):
        group = {f"g{g}.{i}": Plan(rng, rng.random() < 0.15)
                 for i in range(rng.randint(1, 3))}
        groups.append((rng.choice([0, 0, 2]) * G, group))
        plans.update(group)
    for p in plans.values():
        p.stop_fail = None
    # never at the instant of another event
    t_act = rng.randint(0, 8) * G + G / 2
    act = rng.choice(["exit", "exit", "raise", "stop"])
    case.trace(act, t_act, *[repr(p) for p in plans.values()],
               *[g[0] for g in groups])
    case.describe(services={k: repr(p) for k, p in plans.items()}, act=act,
                  t_act=t_act, waits=[g[0] for g in groups])
    log = Log()

    async def main():
        loop = asyncio.get_running_loop()
        svcs = {k: make(case, log, k, p) for k, p in plans.items()}
        ep = aiomisc.entrypoint(log_config=False, catch_signals=())
        starters = []
        boom = Boom("body") if act == "raise" else None
        outer = None

        async def starter(wait, group):
            await asyncio.sleep(wait)
            if loop.time() - 1000 > t_act:
                return
            await ep.start_services(*[svcs[k] for k in group])
        try:
            async with ep:
                for wait, group in groups:
                    starters.append(
                        loop.create_task(starter(wait, group)))
                await asyncio.sleep(t_act)
                begun = {k: log.time("start", k) for k in plans
                         if log.index("start", k)}
                if act == "stop":
                    await ep.stop_services(*[svcs[k] for k in begun])
                    t_done = loop.time() - 1000
                    for k in begun:
                        once(case, log, "stop_end", k)
                    for s in starters:
                        s.cancel()
                    await asyncio.gather(*starters, return_exceptions=True)
                if boom is not None:
                    raise boom
            if act != "stop":
                t_done = loop.time() - 1000
        except Boom as e:
            outer = e
            t_done = loop.time() - 1000
        case.check(outer is boom, "body-error", repr(outer),
                   plan=case.sample)
        slack = max(p.cleanup for p in plans.values())
        for k, t in begun.items():
            p = plans[k]
            ends = t + (p.event_at if p.kind == "plain" or p.fail
                        else p.end_at)
            idx = log.index("start_end", k)
            case.check(len(idx) == 1 and log.events[idx[0]][0] <= t_done,
                       "start-survives-stop", k, plan=case.sample)
            if p.kind == "event_forever" or ends > t_act + slack:
                once(case, log, "start_cancelled", k)
                case.event("cancelled_starts")
            elif ends < t_act:
                once(case, log, "start_cancelled", k, 0)
            stop = log.index("stop", k)
            if p.fail and ends < t_act + slack:
                case.check(len(stop) <= 1, "stop-count", k,
                           plan=case.sample)
                continue
            once(case, log, "stop", k)
            end = once(case, log, "stop_end", k)
            case.check(idx[0] < stop[0], "stopped-before-start-ended", k,
                       plan=case.sample)
            case.check(log.events[stop[0]][3] is boom, "stop-exception",
                       k, plan=case.sample)
            case.check(log.events[stop[0]][0] <= t_act + 2 * slack,
                       "stop-late", k, plan=case.sample)
            case.check(log.events[end][0] ==
                       log.events[stop[0]][0] + p.stop_dur <= t_done,
                       "stop-interrupted", k, plan=case.sample)
        done, pending = await asyncio.wait(starters, timeout=1000)
        case.check(not pending, "start-hangs", "start_services never ends",
                   plan=case.sample)
        for s in starters:
            if not s.cancelled() and s.exception() is not None:
                case.check(isinstance(s.exception(), Boom), "start-error",
                           repr(s.exception()), plan=case.sample)
        left = asyncio.all_tasks() - {asyncio.current_task()}
        case.check(not left, "leaked-tasks", f"{left}", plan=case.sample)
        case.event("stops_while_starting")
    run_virtual(main)


def receivers(case):
    """Errors of the receivers are reported; class level receivers are
    inherited by every entrypoint."""
    rng = case.rng
    kind = rng.choice(["pre_start", "post_start", "pre_stop", "post_stop"])
    plans = {"s": Plan(rng), "t": Plan(rng)}
    for p in plans.values():
        p.stop_fail = None
    case.trace(kind, *[repr(p) for p in plans.values()])
    log = Log()
    classlog = []

    async def main():
        svcs = [make(case, log, k, p) for k, p in plans.items()]

        async def klass(entrypoint, services):
            classlog.append(names(services))
        aiomisc.entrypoint.PRE_START.connect(klass)
        try:
            ep = aiomisc.entrypoint(*svcs, log_config=False,
                                    catch_signals=())
        finally:
            aiomisc.entrypoint.PRE_START.disconnect(klass)
        connect(case, log, ep, kind)
        try:
            async with ep:
                await asyncio.sleep(1)
        except Boom as e:
            case.check(e.token == kind, "receiver-error", repr(e))
        else:
            case.fail("receiver-error-lost", kind)
        case.check(kind == "pre_start" or classlog == [names(svcs)],
                   "class-receiver",
                   f"{classlog}")
        if kind == "pre_start":
            case.check(not log.index("start", "s"), "started", "")
        if kind in ("post_stop",):
            for k in plans:
                once(case, log, "stop_end", k)
        case.event("receiver_errors")
    run_virtual(main)


QUICK_SCALE = 5
SCENARIOS = [
    Scenario(lifecycle, 3000),
    Scenario(failing_start, 500),
    Scenario(stop_while_starting, 1500),
    Scenario(receivers, 100),
]
