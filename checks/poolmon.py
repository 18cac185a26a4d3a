"""Workload and monitor of the PoolBase checks (virtual time)."""
import asyncio

from aiomisc.pool import PoolBase

from vf.util import BaseBoom, Boom, outcome_of
from vf.vloop import run_virtual, steps

GRID = 1 / 8


class Inst:
    def __init__(self, n, t):
        self.n, self.created = n, t
        self.holder = None
        self.checks = 0         # running checks
        self.verdict = None     # of the last check
        self.discarded = False
        self.destroyed = 0
        self.destroy_done = False
        self.destroying = False

    def __repr__(self):
        return f"Inst{self.n}"


class Run:
    def __init__(self, case, cancels=True, failures=True, recycle=True):
        rng = self.rng = case.rng
        self.case = case
        self.maxsize = rng.choice([1, 1, 2, 2, 3, 5])
        self.recycle = (
            rng.choice([None, 1, 2, 5]) if recycle else None
        )
        self.pfail = rng.choice([0, 0.1, 0.3]) if failures else 0
        self.pcheck = rng.choice([0, 0.1, 0.4]) if failures else 0
        self.n = rng.choice([3, 8, 20, 40])
        self.durs = rng.choice([[0], [0, 0, 1], [0, 1, 3], [1, 2, 9]])
        self.insts = []
        self.creating = 0
        self.checking = 0
        self.held = {}
        self.waiting = {}       # client -> True when blocked in the pool
        self.create_booms = []
        self.seen_booms = []
        self.closing = False
        self.calm = False
        clients = []
        t = 0
        for i in range(self.n):
            t += rng.choice([0, 0, 0, 1, 2, 8]) * GRID
            hold = rng.choice([0, 0, 1, 3, 8, 20]) * GRID
            mode = rng.choice(["ok"] * 4 + ["raise", "base"])
            cancel = None
            if cancels and rng.random() < 0.3:
                cancel = (
                    t + rng.choice([0, 0.5, 1, 1.5, 2.5, 6.5]) * GRID,
                    rng.randint(0, 7),
                )
            clients.append((t, hold, mode, cancel))
        self.clients = clients
        case.describe(maxsize=self.maxsize, recycle=self.recycle,
                      pfail=self.pfail, pcheck=self.pcheck, durs=self.durs,
                      clients=clients[:10])
        case.trace(self.maxsize, self.recycle, self.pfail, self.pcheck,
                   *self.durs, *clients)

    def now(self):
        return asyncio.get_running_loop().time()

    def dur(self):
        return self.rng.choice(self.durs) * GRID

    def bound(self):
        case, pool = self.case, self.pool
        if self.closing:
            return
        case.check(len(self.held) <= self.maxsize, "maxsize",
                   f"{len(self.held)} instances in use, "
                   f"maxsize {self.maxsize}", plan=case.sample)
        case.check(len(pool) + self.creating <= self.maxsize, "maxsize",
                   f"{len(pool)} instances and {self.creating} being created"
                   f", maxsize {self.maxsize}", plan=case.sample)

    def build(self):
        run, case, rng = self, self.case, self.rng

        class Pool(PoolBase):
            async def _create_instance(self):
                run.creating += 1
                try:
                    run.bound()
                    d = run.dur()
                    if d:
                        await asyncio.sleep(d)
                    if not run.calm and rng.random() < run.pfail:
                        boom = Boom(len(run.create_booms))
                        run.create_booms.append(boom)
                        raise boom
                finally:
                    run.creating -= 1
                inst = Inst(len(run.insts), run.now())
                run.insts.append(inst)
                case.event("created")
                return inst

            async def _check_instance(self, inst):
                case.expect(isinstance(inst, Inst), "foreign-instance",
                           repr(inst))
                case.expect(inst.holder is None and not inst.checks,
                           "shared-instance",
                           f"{inst} is offered while it is in use",
                           plan=case.sample)
                case.expect(not inst.discarded and not inst.destroyed,
                           "dead-instance",
                           f"{inst} is offered after it was discarded",
                           plan=case.sample)
                inst.checks += 1
                inst.verdict = None
                run.checking += 1
                try:
                    d = run.dur()
                    if d:
                        await asyncio.sleep(d)
                    x = rng.random()
                    if not run.calm and x < run.pcheck:
                        inst.verdict = False
                        inst.discarded = True
                        case.event("check_failed")
                        if x < run.pcheck / 2:
                            raise Boom("check")
                        return False
                    inst.verdict = True
                    return True
                finally:
                    inst.checks -= 1
                    run.checking -= 1

            async def _destroy_instance(self, inst):
                case.expect(inst.destroyed == 0, "destroyed-twice",
                           repr(inst), plan=case.sample)
                inst.destroyed += 1
                case.event("destroyed")
                if not run.closing:
                    case.expect(inst.holder is None and not inst.checks,
                               "destroyed-in-use", repr(inst),
                               plan=case.sample)
                    if not inst.discarded:
                        case.expect(
                            run.recycle and
                            run.now() - inst.created > run.recycle,
                            "destroyed-early",
                            f"{inst} aged {run.now() - inst.created}",
                            plan=case.sample)
                        inst.discarded = True
                inst.destroying = True
                try:
                    d = run.dur() if run.destroy_dur is None else run.destroy_dur
                    if d:
                        await asyncio.sleep(d)
                    if rng.random() < run.pfail:
                        raise Boom("destroy")
                except asyncio.CancelledError:
                    # it takes some time to give up
                    await asyncio.sleep(run.destroy_cleanup)
                    raise
                finally:
                    inst.destroying = False
                inst.destroy_done = True

        kw = {} if self.recycle is None else {"recycle": self.recycle}
        self.destroy_dur = None
        self.destroy_cleanup = 0
        self.pool = Pool(maxsize=self.maxsize, **kw)
        return self.pool

    async def client(self, i, hold, mode):
        case = self.case
        self.waiting[i] = True
        token = None
        got = None
        try:
            try:
                cm = self.pool.acquire()
                async with cm as inst:
                    got = inst
                    self.waiting.pop(i)
                    case.event("acquired")
                    case.check(isinstance(inst, Inst), "foreign-instance",
                               repr(inst))
                    case.check(inst.holder is None, "shared-instance",
                               f"{inst} given to {i} and {inst.holder}",
                               plan=case.sample)
                    case.check(inst.verdict is True, "unchecked-instance",
                               f"{inst} {inst.verdict}", plan=case.sample)
                    case.check(not inst.destroyed, "dead-instance",
                               repr(inst), plan=case.sample)
                    inst.holder = i
                    self.held[i] = inst
                    self.bound()
                    try:
                        if hold:
                            await asyncio.sleep(hold)
                        if mode == "raise":
                            token = Boom(i)
                            raise token
                        if mode == "base":
                            token = BaseBoom(i)
                            raise token
                    finally:
                        if not self.closing:
                            case.check(not inst.destroyed,
                                       "destroyed-in-use", repr(inst),
                                       plan=case.sample)
                        case.check(inst.holder == i, "shared-instance",
                                   f"{inst} of {i} is used by {inst.holder}",
                                   plan=case.sample)
                        inst.holder = None
                        inst.verdict = None
                        self.held.pop(i)
                case.check(token is None, "swallowed",
                           "the error of the body is lost")
            except (Boom, BaseBoom) as e:
                if token is None:
                    case.check(got is None, "wrong-error",
                               f"{e!r} without an error in the body")
                    case.check(e in self.create_booms, "wrong-error",
                               repr(e), plan=case.sample)
                    case.check(e not in self.seen_booms, "duplicate-error",
                               repr(e))
                    self.seen_booms.append(e)
                    return "create-failed"
                case.check(e is token, "wrong-error", repr(e))
                return mode
            except asyncio.CancelledError:
                case.check(token is None, "swallowed", "")
                raise
            try:
                async with cm:
                    case.fail("context-reused", "")
            except RuntimeError:
                case.event("reuse_refused")
            return "ok"
        finally:
            self.waiting.pop(i, None)

    def conserving(self):
        """Nobody may wait while there is capacity."""
        busy = len(self.held) + self.checking + self.creating
        # those creating or checking are themselves among the waiting
        blocked = len(self.waiting) - self.checking - self.creating
        self.case.check(
            blocked <= 0 or busy >= self.maxsize, "idle-capacity",
            f"{blocked} clients wait, {busy} of {self.maxsize} slots used",
            plan=self.case.sample,
        )
        self.case.event("probes")

    async def workload(self, probe=True):
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        tasks = {}
        used = set()

        async def start(i, t, hold, mode, cancel):
            await asyncio.sleep(t)
            tasks[i] = loop.create_task(self.client(i, hold, mode))

        async def canceller(i, t, k):
            await asyncio.sleep(t)
            await steps(k)
            if i in tasks and not tasks[i].done():
                tasks[i].cancel()
                used.add(i)
                self.case.event("cancelled")
        jobs = []
        for i, (t, hold, mode, cancel) in enumerate(self.clients):
            jobs.append(loop.create_task(start(i, t, hold, mode, cancel)))
            if cancel:
                jobs.append(loop.create_task(canceller(i, *cancel)))

        async def prober():
            await asyncio.sleep(GRID / 4)
            while True:
                self.conserving()
                await asyncio.sleep(GRID)
        p = loop.create_task(prober()) if probe else None
        for j in jobs:
            await j
        pending = [t for t in tasks.values()]
        limit = t0 + 100000
        while any(not t.done() for t in pending):
            done, rest = await asyncio.wait(
                pending, timeout=10000 * GRID,
                return_when=asyncio.FIRST_EXCEPTION,
            )
            if p is not None and p.done():
                p.result()
            for t in done:
                if not t.cancelled() and t.exception():
                    raise t.exception()
            self.case.check(loop.time() < limit, "starved",
                            f"{len(rest)} clients never got an instance",
                            plan=self.case.sample)
        if p is not None:
            if p.done():
                p.result()
            p.cancel()
        for i, t in tasks.items():
            o = outcome_of(t)
            if o[0] == "exc":
                raise o[1]
            if o[0] == "cancelled":
                self.case.check(i in used, "spontaneous-cancel", str(i),
                                plan=self.case.sample)
        self.case.check(
            all(b in self.seen_booms for b in self.create_booms) or used,
            "lost-error", "a failed creation was not reported",
        )
        return tasks

    async def full(self):
        """All of the capacity is still there."""
        self.calm = True
        got = []
        done = asyncio.Event()

        async def one():
            async with self.pool.acquire() as inst:
                got.append(inst)
                self.case.check(
                    len(set(map(id, got))) == len(got), "shared-instance",
                    "")
                if len(got) == self.maxsize:
                    done.set()
                await done.wait()
        try:
            await asyncio.wait_for(
                asyncio.gather(*[one() for _ in range(self.maxsize)]),
                10000,
            )
        except asyncio.TimeoutError:
            self.case.fail(
                "lost-capacity",
                f"only {len(got)} of {self.maxsize} can be acquired",
                plan=self.case.sample,
            )
        self.case.event("full_capacity")

    async def close(self, timeout=None):
        """-> duration; every instance has been destroyed exactly once"""
        self.closing = True
        t0 = self.now()
        before = sum(1 for i in self.insts if not i.destroyed)
        timed_out = False
        try:
            await self.pool.close(timeout=timeout)
        except asyncio.TimeoutError:
            timed_out = True
        self.case.check(not [i for i in self.insts if i.destroying],
                        "destroying-after-close",
                        "close() has ended, destroying has not",
                        plan=self.case.sample)
        self.case.event("closed_with", before)
        took = self.now() - t0
        return took, timed_out

    def go(self, main):
        return run_virtual(main, start=1000.0)
