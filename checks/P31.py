import asyncio
import gc
import logging
import sys
import threading
import time

import aiomisc
import aiomisc.aggregate
import aiomisc.backoff
import aiomisc.circuit_breaker
import aiomisc.context
import aiomisc.counters
import aiomisc.iterator_wrapper
import aiomisc.process_pool
import aiomisc.recurring
import aiomisc.thread_pool
from aiomisc.counters import Statistic, get_statistics

from vf import wfuncs
from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import Boom, eventually, eventually_sync
from vf.vloop import run_real, run_virtual

RULE = (
    "random statistics created, changed, collected and dropped, also by "
    "threads at once; random workloads of each component whose counters are "
    "compared with what the workload saw; distinct by plan"
)

# (the module is hidden by the function with the same name)
AGGREGATE = sys.modules["aiomisc.aggregate"]


def living(kind):
    return [o for o in gc.get_objects() if isinstance(o, kind)]


def rows(*kind):
    return [(r.kind, r.name, r.metric, r.value) for r in
            get_statistics(*kind)]


def named(name, *kind):
    """{metric: value} of the only statistics with this name."""
    found = [r for r in get_statistics(*kind) if r.name == name]
    out = {}
    for r in found:
        out.setdefault(r.metric, []).append(r.value)
    return {k: v[0] if len(v) == 1 else v for k, v in out.items()}


def model(case):
    """Collected statistics are exactly those of the living instances."""
    rng = case.rng
    shapes = []
    for _ in range(rng.randint(1, 4)):
        fields = {}
        for name in rng.sample("abcdefg", rng.randint(1, 4)):
            fields[name] = rng.choice([int, float, int, float, str, object])
        if not any(f in (int, float) for f in fields.values()):
            fields["z"] = int
        shapes.append((rng.randint(-1, len(shapes) - 1), fields))
    ops = []
    for _ in range(rng.randint(5, 60)):
        ops.append((rng.choice(["new", "new", "inc", "inc", "inc", "dec",
                                "set", "drop", "collect", "kind",
                                "lazy"]),
                    rng.random(), rng.random(), rng.randint(1, 9)))
    case.describe(shapes=[(b, {k: v.__name__ for k, v in f.items()})
                          for b, f in shapes], ops=ops)
    plan = case.sample
    classes, metrics = [], []
    for n, (base, fields) in enumerate(shapes):
        parent = classes[base] if base >= 0 else Statistic
        classes.append(type(parent)(
            f"VF{n}", (parent,), {"__annotations__": dict(fields)}))
        inherited = metrics[base] if base >= 0 else set()
        metrics.append(inherited | {
            k for k, v in fields.items() if v in (int, float)})
    live, count = [], 0

    def expected(kinds=None):
        out = []
        for stat, name, cls, values in live:
            if kinds is None or issubclass(classes[cls], kinds):
                out += [(classes[cls], name, m, v)
                        for m, v in values.items()]
        return out

    def key(row):
        return (row[0].__name__, str(row[1]), row[2], row[3])

    def compare(got, want, what):
        case.check(sorted(got, key=key) == sorted(want, key=key), what,
                   plan=plan, got=[(str(r[1]), r[2], r[3]) for r in
                                   sorted(got, key=key)][:20],
                   want=[(str(r[1]), r[2], r[3]) for r in
                         sorted(want, key=key)][:20])
        case.event("collected")

    for op, x, y, v in ops:
        if op == "new" or not live:
            cls = int(x * len(classes))
            name = f"n{count}" if y < 0.8 else None
            count += 1
            stat = classes[cls](name) if name else classes[cls]()
            live.append([stat, name, cls, dict.fromkeys(metrics[cls], 0)])
            stat = None
            continue
        item = live[int(x * len(live))]
        metric = sorted(item[3])[int(y * len(item[3]))]
        if op == "inc":
            setattr(item[0], metric, getattr(item[0], metric).__iadd__(v)) \
                if v % 2 else exec(f"s.{metric} += v",
                                   {"s": item[0], "v": v})
            item[3][metric] += v
            case.check(getattr(item[0], metric) == item[3][metric],
                       "metric does not equal its value", plan=plan)
        elif op == "dec":
            exec(f"s.{metric} -= v", {"s": item[0], "v": v})
            item[3][metric] -= v
        elif op == "set":
            setattr(item[0], metric, v)
            item[3][metric] = v
        elif op == "drop":
            live.remove(item)
            del item
        elif op == "collect":
            compare(rows(*classes), expected(), "collected statistics differ")
            ours = [r for r in rows() if r[0] in classes]
            compare(ours, expected(), "statistics of all kinds differ")
        elif op == "kind":
            cls = classes[int(x * len(classes))]
            compare(rows(cls), expected((cls,)),
                    "statistics of one kind differ")
        elif op == "lazy":
            # created while the others are being collected
            gen = get_statistics(*classes)
            got = [next(gen)]
            extra = [c(f"extra{n}") for n, c in enumerate(classes)]
            new = type(Statistic)("VFNew", (Statistic,),
                                  {"__annotations__": {"q": int}})
            n = new()
            try:
                got += list(gen)
            except Exception as e:
                case.fail("collecting fails when instances are created",
                          plan=plan, exc=repr(e))
            got = [tuple(r) for r in got
                   if not (r.name or "").startswith("extra")]
            compare(got, expected(), "lazily collected statistics differ")
            del extra, n, new
            gc.collect()
        item = None
    live.clear()
    stat = item = None
    gc.collect()
    case.check(rows(*classes) == [], "dropped statistics are collected",
               plan=plan)


def concurrent(case):
    """Collecting while threads create, change and drop instances."""
    rng = case.rng
    threads = rng.randint(1, 4)
    per = rng.choice([50, 200])
    keep = rng.randint(1, 20)
    case.describe(threads=threads, per=per, keep=keep)

    class VFLong(Statistic):
        a: int
        b: float

    class VFShort(VFLong):
        c: int

    kept = [VFLong(f"k{i}") for i in range(keep)]
    for i, s in enumerate(kept):
        s.a += i
    errors, collected = [], []
    stop = threading.Event()

    def churn(t):
        try:
            mine = []
            for i in range(per):
                s = VFShort(f"t{t}-{i}")
                s.c += 1
                mine.append(s)
                if i % 3 == 0:
                    mine.pop(0)
                if i % 50 == 49:
                    type(Statistic)("VFDyn", (VFShort,),
                                    {"__annotations__": {"d": int}})()
        except Exception as e:
            errors.append(repr(e))

    def collect():
        try:
            while not stop.is_set():
                collected.append(rows(VFLong))
        except Exception as e:
            errors.append(repr(e))

    with maybe_inject(case, aiomisc.counters, rate=0.05):
        ts = [threading.Thread(target=churn, args=(t,), daemon=True)
              for t in range(threads)]
        c = threading.Thread(target=collect, daemon=True)
        c.start()
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
        stop.set()
        c.join(40)
    case.check(not errors, "collecting or creating fails", plan=case.sample,
               errors=errors[:3])
    case.check(not c.is_alive() and not any(t.is_alive() for t in ts),
               "collecting hangs", plan=case.sample)
    for got in collected:
        mine = [r for r in got if r[0] is VFLong]
        case.check(sorted((r[1], r[2], r[3]) for r in mine) == sorted(
            [(f"k{i}", "a", i) for i in range(keep)] +
            [(f"k{i}", "b", 0) for i in range(keep)]),
            "living statistics are missing or repeated", plan=case.sample,
            n=len(mine))
        seen = [(r[1], r[2]) for r in got if r[0] is not VFLong and r[1]]
        case.check(len(seen) == len(set(seen)), "statistics are repeated",
                   plan=case.sample)
    case.event("collected", len(collected))
    case.event("created", threads * per)


def thread_pool(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    size = rng.randint(1, 5)
    plans = [rng.choice(["ok", "ok", "fail", "base", "slow"])
             for _ in range(rng.randint(1, 40))]
    cancel = [rng.random() < 0.2 for _ in plans]
    case.describe(kind=kind, size=size, plans=plans, cancel=cancel)
    name = f"vf-pool-{case.seed}"

    async def main():
        loop = asyncio.get_running_loop()
        pool = aiomisc.ThreadPoolExecutor(max_workers=size,
                                          statistic_name=name)
        ran, failed, slept = [], [], []
        kind_ = aiomisc.thread_pool.ThreadPoolStatistic

        def body(n):
            begin = time.monotonic()
            try:
                if plans[n] == "slow":
                    time.sleep(0.004)
                if plans[n] == "fail":
                    failed.append(n)
                    raise Boom(n)
                if plans[n] == "base":
                    failed.append(n)
                    raise SystemExit(n)
                return n
            finally:
                slept.append(time.monotonic() - begin)
                ran.append(n)

        with maybe_inject(case, aiomisc.thread_pool):
            futures = [loop.run_in_executor(pool, body, n)
                       for n in range(len(plans))]
            case.check(named(name, kind_)["submitted"] == len(plans),
                       "submitted is not the number of calls",
                       plan=case.sample)
            await asyncio.sleep(rng.choice([0, 0.002]))
            for f, c in zip(futures, cancel):
                if c:
                    f.cancel()
            begin = time.monotonic()
            await asyncio.wait(futures)
            # cancelled ones might still be running
            await eventually(lambda: named(name, kind_)["done"] == len(ran))
            s = named(name, kind_)
            case.check(s["submitted"] == len(plans), "submitted",
                       plan=case.sample, got=s)
            case.check(s["done"] == len(ran) and s["error"] == len(failed)
                       and s["success"] == len(ran) - len(failed),
                       "counters are not what happened", plan=case.sample,
                       got=s, ran=len(ran), failed=len(failed))
            total = sum(slept)
            case.check(s["sum_time"] >= total - 0.001 * len(ran),
                       "sum_time is less than the calls took",
                       plan=case.sample, got=s, total=total)
            live = sum(f"from pool {name}" in t.name
                       for t in threading.enumerate())
            case.check(0 < s["threads"] <= size and
                       await eventually(lambda: named(name, kind_)["threads"]
                                        == live),
                       "threads is not the number of threads",
                       plan=case.sample, got=s, live=live)
            await asyncio.get_running_loop().run_in_executor(
                None, pool.shutdown)
            case.check(await eventually(
                lambda: named(name, kind_)["threads"] == 0),
                "threads are counted after the shutdown", plan=case.sample)
        case.event("call", len(ran))

    run_real(main, kind=kind)


def iterator(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    n = rng.randint(0, 40)
    size = rng.choice([0, 1, 3, 10])
    take = rng.choice([n, n, rng.randint(0, n)])
    fail = rng.random() < 0.3
    case.describe(kind=kind, n=n, size=size, take=take, fail=fail)
    name = f"vf-iter-{case.seed}"
    stat_kind = aiomisc.iterator_wrapper.IteratorWrapperStatistic

    async def main():
        produced = []

        def gen():
            for i in range(n):
                produced.append(i)
                yield i
            if fail:
                raise Boom("gen")

        with maybe_inject(case, aiomisc.iterator_wrapper):
            wrapper = aiomisc.iterator_wrapper.IteratorWrapper(
                gen, max_size=size, statistic_name=name)
            case.check(named(name, stat_kind)["queue_size"] == size,
                       "queue_size is not the configured one",
                       plan=case.sample, got=named(name, stat_kind))
            got = []
            try:
                async with wrapper:
                    if take or not n:
                        async for item in wrapper:
                            got.append(item)
                            s = named(name, stat_kind)
                            case.check(s["yielded"] == len(got),
                                       "yielded is not the number of items",
                                       plan=case.sample, got=s)
                            if len(got) == take and take < n:
                                break
            except Boom:
                case.check(fail, "failed from nowhere", plan=case.sample)
            case.check(await eventually(
                lambda: named(name, stat_kind)["started"] == 0),
                "finished iterator is counted as started", plan=case.sample)
            s = named(name, stat_kind)
            case.check(s["yielded"] == len(got) and
                       len(got) <= s["enqueued"] <= len(produced),
                       "counters are not what happened", plan=case.sample,
                       got=s, taken=len(got), produced=len(produced))
            if len(got) == n and not fail:
                case.check(s["enqueued"] == n, "enqueued is not the number "
                           "of items", plan=case.sample, got=s)
        case.event("item", len(got))

    run_real(main, kind=kind)


def timed(case):
    """Aggregation, retries, recurring calls, contexts and breakers."""
    rng = case.rng
    what = rng.choice(["aggregate", "backoff", "retry", "recurring",
                       "context", "breaker"])
    calls = rng.randint(1, 15)
    outcomes = [rng.choice(["ok", "ok", "fail", "other"])
                for _ in range(60)]
    durations = [rng.choice([0, 0, 1 / 8, 3 / 8]) for _ in range(60)]
    max_count = rng.choice([None, 1, 2, 5])
    tries = rng.choice([1, 2, 4])
    leeway = rng.choice([50, 125.0, 1000])
    case.describe(what=what, calls=calls, outcomes=outcomes[:20],
                  durations=durations[:20], max_count=max_count,
                  tries=tries, leeway=leeway)
    name = f"vf-{what}-{case.seed}"
    plan = case.sample

    def check(got, **want):
        bad = {k: (got.get(k), v) for k, v in want.items()
               if got.get(k) != v}
        case.check(not bad, f"{what}: counters are not what happened",
                   plan=plan, bad=bad)
        case.event(what)

    async def aggregate():
        seen = {"ok": 0, "fail": 0}

        async def func(*args):
            n = seen["ok"] + seen["fail"]
            if outcomes[n] == "ok":
                seen["ok"] += 1
            else:
                seen["fail"] += 1
                raise Boom(n)
            return [a for a in args]

        agg = AGGREGATE.Aggregator(
            func, leeway_ms=leeway, max_count=max_count,
            statistic_name=name)
        await asyncio.gather(*[agg.aggregate(i) for i in range(calls)],
                             return_exceptions=True)
        got = named(name, AGGREGATE.AggregateStatistic)
        check(got, success=seen["ok"], error=seen["fail"],
              done=seen["ok"] + seen["fail"], leeway_ms=float(leeway),
              max_count=max_count or 0)

    async def backoff():
        seen = []

        async def func():
            n = len(seen)
            await asyncio.sleep(durations[n])
            seen.append(outcomes[n])
            if outcomes[n] == "fail":
                raise Boom(n)
            if outcomes[n] == "other":
                raise KeyError(n)

        if what == "retry":
            wrapped = aiomisc.asyncretry(
                tries, exceptions=(Boom,), statistic_name=name)(func)
            kind = aiomisc.backoff.RetryStatistic
        else:
            wrapped = aiomisc.asyncbackoff(
                None, None, 0, Boom, max_tries=tries,
                statistic_name=name)(func)
            kind = aiomisc.backoff.BackoffStatistic
        loop = asyncio.get_running_loop()
        spent = 0
        for _ in range(calls):
            begin = loop.time()
            try:
                await wrapped()
            except (Boom, KeyError):
                pass
            spent += loop.time() - begin
            if len(seen) > 40:
                break
        got = named(name, kind)
        check(got, attempts=len(seen), done=len(seen),
              errors=seen.count("fail"), cancels=0)
        case.check(abs(got["sum_time"] - spent) < 1 / 8,
                   "sum_time is not the time spent", plan=plan,
                   got=got["sum_time"], spent=spent)

    async def recurring():
        seen = []

        async def func():
            n = len(seen)
            await asyncio.sleep(durations[n])
            seen.append(outcomes[n])
            if outcomes[n] == "fail":
                raise Boom(n)
            if outcomes[n] == "other":
                raise KeyError(n)

        cb = aiomisc.recurring.RecurringCallback(func, name=name)
        done = asyncio.Event()

        def strategy(_):
            if len(seen) >= calls:
                done.set()
                raise aiomisc.recurring.StrategyStop
            return 1 / 8

        task = cb.start(strategy, suppress_exceptions=(KeyError,))
        await asyncio.wait([asyncio.ensure_future(task)])
        kind = aiomisc.recurring.RecurringCallbackStatistic
        got = named(name, kind)
        check(got, call_count=len(seen), done=seen.count("ok"),
              fail=len(seen) - seen.count("ok"),
              sum_time=float(sum(durations[:len(seen)])))

    async def context():
        loop = asyncio.get_running_loop()
        before = {id(s) for s in
                  living(aiomisc.context.ContextStatistic)}
        ctx = aiomisc.context.Context(loop)
        gets = sets = 0
        for i in range(calls):
            if outcomes[i] == "ok":
                ctx[f"k{i}"] = i
                sets += 1
            else:
                ctx[f"k{i}"]
                gets += 1
        new = [s for s in living(aiomisc.context.ContextStatistic)
               if id(s) not in before]
        new[0].name = name
        check(named(name, aiomisc.context.ContextStatistic),
              get=gets, set=sets)
        await asyncio.sleep(0)
        ctx.close()

    async def breaker():
        cb = aiomisc.CircuitBreaker(
            error_ratio=0.25, response_time=1, broken_time=1,
            recovery_time=1, passing_time=1, statistic_name=name)
        seen = dict(passing=0, broken=0, recovering=0, ran=0)
        total = ran = 0
        for n in range(min(60, calls * 4)):
            await asyncio.sleep(1 / 8)
            called = []

            def func():
                called.append(1)
                if outcomes[n] != "ok":
                    raise Boom(n)

            try:
                cb.call(func)
            except (Boom, aiomisc.CircuitBroken):
                pass
            total += 1
            ran += len(called)
            state = cb.state.name.lower()
            seen[state] += 1
            if state == "recovering":
                seen["ran"] += len(called)
        got = named(name, aiomisc.circuit_breaker.CircuitBreakerStatistic)
        check(got, call_count=total, call_passing=seen["passing"],
              call_broken=seen["broken"],
              call_recovering=seen["recovering"],
              call_recovering_ok=seen["ran"],
              call_recovering_failed=seen["recovering"] - seen["ran"],
              error_ratio_threshold=0.25)

    bodies = dict(aggregate=aggregate, backoff=backoff, retry=backoff,
                  recurring=recurring, context=context, breaker=breaker)
    logging.getLogger("aiomisc").disabled = True
    logging.getLogger("aiomisc.recurring").disabled = True
    run_virtual(bodies[what])


def process_pool(case):
    rng = case.rng
    size = rng.randint(1, 3)
    plans = [rng.choice(["ok", "ok", "fail"])
             for _ in range(rng.randint(1, 12))]
    cancel = [rng.random() < 0.25 for _ in plans]
    case.describe(size=size, plans=plans, cancel=cancel)
    kind = aiomisc.process_pool.ProcessPoolStatistic
    errors = []

    class Handler(logging.Handler):
        def emit(self, record):
            errors.append(record.getMessage())

    async def main():
        loop = asyncio.get_running_loop()
        before = {id(s) for s in living(kind)}
        pool = aiomisc.ProcessPoolExecutor(max_workers=size)
        new = [s for s in living(kind) if id(s) not in before]
        name = new[0].name = f"vf-proc-{case.seed}"
        handler = Handler()
        log = logging.getLogger("concurrent.futures")
        log.addHandler(handler)
        try:
            case.check(named(name, kind)["processes"] == size,
                       "processes is not the size of the pool",
                       plan=case.sample, got=named(name, kind))
            futures = [
                loop.run_in_executor(
                    pool, wfuncs.getpid if p == "ok" else wfuncs.explode)
                for p in plans]
            for f, c in zip(futures, cancel):
                if c:
                    f.cancel()
            await asyncio.wait(futures)
            await loop.run_in_executor(None, pool.shutdown)
            ok = sum(not f.cancelled() and f.exception() is None
                     for f in futures)
            bad = sum(not f.cancelled() and f.exception() is not None
                      for f in futures)
            lost = sum(f.cancelled() for f in futures)

            def settled():
                s = named(name, kind)
                return (s["success"] >= ok and s["error"] >= bad and
                        s["done"] == s["success"] + s["error"])

            await eventually(settled)
            s = named(name, kind)
            case.check(
                s["submitted"] == len(plans) and
                ok <= s["success"] <= ok + lost and
                bad <= s["error"] <= bad + lost and
                s["success"] + s["error"] == s["done"] <= len(plans),
                "counters are not what happened", plan=case.sample, got=s,
                ok=ok, bad=bad, lost=lost)
            case.check(not errors, "statistics of a cancelled call fail",
                       plan=case.sample, errors=errors[:2])
        finally:
            log.removeHandler(handler)
        case.event("call", len(plans))

    run_real(main, kind="asyncio")


SCENARIOS = [
    Scenario(model, quick=600),
    Scenario(concurrent, quick=60),
    Scenario(thread_pool, quick=120),
    Scenario(iterator, quick=120),
    Scenario(timed, quick=600),
    Scenario(process_pool, quick=25, timeout=90),
]
