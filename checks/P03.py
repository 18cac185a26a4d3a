import asyncio
import threading
import time
from functools import partial

import aiomisc
import aiomisc.thread_pool as tp_mod
from aiomisc.thread_pool import run_in_executor, run_in_new_thread

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import VAR, VAR2, Boom, Log, Token, eventually, policy

RULE = (
    "random trees of calls crossing between coroutines and threads "
    "(threaded, threaded_separate, run_in_new_thread, sync_await, "
    "wait_coroutine, sync_wait_coroutine) with results, errors, "
    "cancellations and context variables, preemption injected; distinct by "
    "the call tree and the observed order of events"
)


def run(coro, pool_size, kind, **kw):
    return aiomisc.run(
        coro, pool_size=pool_size, policy=policy(kind), log_config=False,
        **kw,
    )


class Tree:
    """A random tree of calls alternating between loop and threads."""

    def __init__(self, case, rng, depth):
        self.case, self.rng = case, rng
        self.n = 0
        self.log = Log()
        self.loop_thread = None
        self.loop = None
        self.root = self.make(depth, "async")

    def make(self, depth, side):
        rng = self.rng
        self.n += 1
        node = {
            "id": self.n, "side": side,
            "out": rng.choice(["ok", "ok", "ok", "raise"]),
            "dur": rng.choice([0, 0, 0.001]),
            "kids": [],
            "via": rng.choice(
                ["threaded", "separate", "new"] if side == "sync" else
                ["sync_await", "wait_coroutine", "sync_wait_coroutine"],
            ),
        }
        if depth:
            other = "sync" if side == "async" else "async"
            for _ in range(rng.choice([1, 1, 2, 3])):
                node["kids"].append(self.make(depth - 1, other))
        self.case.trace(node["id"], side, node["out"], node["via"])
        return node

    # what calling the node gives, whoever calls it
    def expect(self, node):
        if node["out"] == "raise":
            return ("raise", node["id"])
        return ("ok", node["id"])

    def verify(self, kid, got):
        self.case.check(
            got == self.expect(kid), "wrong-outcome",
            f"call {kid['id']} via {kid['via']}", got=got,
            want=self.expect(kid),
        )

    def enter(self, node, args, kwargs):
        me = threading.get_ident()
        self.log("enter", node["id"])
        in_loop = me == self.loop_thread
        self.case.check(in_loop == (node["side"] == "async"), "wrong-thread",
                        f"{node['via']}: in the loop's thread: {in_loop}")
        self.case.check(VAR.get() == node["id"], "context",
                        f"{node['via']} {node['id']}", got=VAR.get())
        self.case.check(args == (node, "x") and kwargs == {"kw": node["id"]},
                        "arguments", node["via"], got=(args, kwargs))

    def leave(self, node):
        self.log("leave", node["id"])
        if node["out"] == "raise":
            raise Boom(node["id"])
        return node["id"]

    async def async_node(self, *args, **kwargs):
        node = args[0]
        self.enter(node, args, kwargs)
        self.case.check(asyncio.get_running_loop() is self.loop,
                        "foreign-loop", node["via"])
        await asyncio.sleep(node["dur"])

        async def one(kid):
            VAR.set(kid["id"])
            if kid["via"] == "threaded":
                aw = aiomisc.threaded(self.sync_node)(
                    kid, "x", kw=kid["id"])
            elif kid["via"] == "separate":
                aw = aiomisc.threaded_separate(self.sync_node)(
                    kid, "x", kw=kid["id"])
            else:
                aw = run_in_new_thread(
                    self.sync_node, args=(kid, "x"),
                    kwargs={"kw": kid["id"]},
                )
            try:
                return ("ok", await aw)
            except Boom as e:
                return ("raise", e.token)
        outs = await asyncio.gather(*[one(k) for k in node["kids"]])
        for kid, got in zip(node["kids"], outs):
            self.verify(kid, got)
        return self.leave(node)

    def sync_node(self, *args, **kwargs):
        node = args[0]
        self.enter(node, args, kwargs)
        time.sleep(node["dur"])
        for kid in node["kids"]:
            VAR.set(kid["id"])
            a, kw = (kid, "x"), {"kw": kid["id"]}
            try:
                if kid["via"] == "sync_await":
                    got = aiomisc.sync_await(self.async_node, *a, **kw)
                elif kid["via"] == "wait_coroutine":
                    got = aiomisc.wait_coroutine(
                        self.async_node(*a, **kw),
                        loop=self.rng.choice([None, self.loop]),
                    )
                else:
                    got = aiomisc.sync_wait_coroutine(
                        self.rng.choice([None, self.loop]),
                        self.async_node, *a, **kw)
                got = ("ok", got)
            except Boom as e:
                got = ("raise", e.token)
            self.verify(kid, got)
        return self.leave(node)


def call_tree(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    depth = rng.randint(1, 4)
    tree = Tree(case, rng, depth)
    case.describe(calls=tree.n, depth=depth, loop=kind)

    async def main():
        tree.loop_thread = threading.get_ident()
        tree.loop = asyncio.get_running_loop()
        VAR.set(1)
        try:
            await tree.async_node(tree.root, "x", kw=1)
        except Boom as e:
            case.check(e.token == 1, "wrong-outcome", str(e.token))
    # the pool is big enough for every blocked call
    with maybe_inject(case, tp_mod, rate=0.01) as inj:
        run(main(), max(4, tree.n), kind)
        case.event("preemptions", inj.delays)
    for i in range(1, tree.n + 1):
        case.check(tree.log.count("enter", i) == 1, "executed",
                   f"call {i} executed {tree.log.count('enter', i)} times")
    case.event("calls", tree.n)
    case.trace(*tree.log.events)


def cancelled_coroutine(case):
    """A thread waiting for a coroutine which is cancelled is released."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    n = rng.randint(1, 6)
    how = [rng.choice(["self", "raise", "task", "none"]) for _ in range(n)]
    case.trace(kind, *how)
    case.describe(how=how)
    tasks = {}

    async def coro(i):
        tasks[i] = asyncio.current_task()
        if how[i] == "raise":
            raise asyncio.CancelledError
        if how[i] == "self":
            tasks[i].cancel()
        await asyncio.sleep(0.02 if how[i] == "none" else 30)
        return i

    def in_thread(i):
        try:
            via = i % 3
            if via == 0:
                return aiomisc.sync_await(coro, i)
            if via == 1:
                return aiomisc.wait_coroutine(coro(i))
            return aiomisc.sync_wait_coroutine(None, coro, i)
        except asyncio.CancelledError:
            return "cancelled"

    async def main():
        calls = [
            asyncio.ensure_future(aiomisc.threaded(in_thread)(i))
            for i in range(n)
        ]
        await eventually(lambda: len(tasks) == n)
        for i in range(n):
            if how[i] == "task":
                tasks[i].cancel()
        done, pending = await asyncio.wait(calls, timeout=20)
        case.check_soft(not pending, "thread-not-released",
                        "a thread waits for a cancelled coroutine forever",
                        how=how)
        for i, c in enumerate(calls):
            want = i if how[i] == "none" else "cancelled"
            case.check(c.result() == want, "wrong-outcome", how[i],
                       got=c.result())
            case.event("waits_" + how[i])
    with maybe_inject(case, tp_mod, rate=0.01):
        run(main(), n + 2, kind)


def cancelled_caller(case):
    """Cancelling the awaiting caller returns control at once, while the
    thread runs its function to the end, and other calls are not affected."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    n = rng.randint(1, 6)
    vias = [rng.choice(["threaded", "separate", "new"]) for _ in range(n)]
    gone = [rng.random() < 0.5 for _ in range(n)]
    case.trace(kind, *zip(vias, gone))
    gate = threading.Event()
    case.defer(gate.set)
    log = Log()
    tokens = [Token(i) for i in range(n)]

    def work(i):
        log("start", i)
        gate.wait(30)
        log("end", i)
        return tokens[i]

    async def call(i):
        VAR2.set(i)
        if vias[i] == "threaded":
            return await aiomisc.threaded(work)(i)
        if vias[i] == "separate":
            return await aiomisc.threaded_separate(work)(i)
        return await run_in_new_thread(work, args=(i,))

    async def main():
        calls = [asyncio.ensure_future(call(i)) for i in range(n)]
        ok = await eventually(lambda: len(log.of("start")) == n)
        case.check_soft(ok, "not-started", "", vias=vias)
        for i in range(n):
            if gone[i]:
                calls[i].cancel()
        if any(gone):
            done, pending = await asyncio.wait(
                [c for i, c in enumerate(calls) if gone[i]], timeout=10,
            )
            case.check_soft(not pending, "cancel-delayed", "")
        gate.set()
        await asyncio.wait(calls)
        for i, c in enumerate(calls):
            if gone[i]:
                case.check(c.cancelled(), "cancelled-outcome", vias[i])
            else:
                case.check(c.result() is tokens[i], "wrong-outcome", vias[i])
        ok = await eventually(lambda: len(log.of("end")) == n)
        case.check_soft(ok, "aborted", "a function was not run to the end")
        case.check(len(log.of("start")) == n, "executed-twice", "")
        case.event("callers_cancelled", sum(gone))
    with maybe_inject(case, tp_mod, rate=0.01):
        run(main(), n + 1, kind)


def separate_from_pool(case):
    """threaded_separate / run_in_new_thread never wait for the pool."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    size = rng.randint(1, 3)
    n = rng.randint(1, 10)
    case.trace(kind, size, n)
    gate = threading.Event()
    case.defer(gate.set)
    idents = Log()

    def work(i):
        idents("ran", i, threading.get_ident(),
               threading.current_thread().daemon)
        return i

    detach = rng.random() < 0.5

    async def main():
        busy = [
            asyncio.ensure_future(aiomisc.threaded(gate.wait)(30))
            for _ in range(size + 2)
        ]
        await asyncio.sleep(0.005)
        sep = (
            aiomisc.threaded_separate(work, detach=detach)
            if rng.random() < 0.5 else aiomisc.threaded_separate(detach)(work)
        )
        calls = [
            asyncio.ensure_future(sep(i)) if rng.random() < 0.5 else
            run_in_new_thread(work, args=(i,), detach=detach)
            for i in range(n)
        ]
        done, pending = await asyncio.wait(calls, timeout=20)
        case.check_soft(not pending, "waits-for-pool", "")
        for i, c in enumerate(calls):
            case.check(c.result() == i, "wrong-outcome", str(i))
        for e in idents.of("ran"):
            case.check(e[3] == detach, "detach", "daemon flag")
        gate.set()
        await asyncio.wait(busy)
        case.event("calls", n)
    with maybe_inject(case, tp_mod, rate=0.01):
        run(main(), size, kind)


def lazy_call(case):
    """A threaded function called without a running loop runs once, when it
    is awaited."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    log = Log()
    n = rng.randint(1, 5)
    case.trace(kind, n)

    def work(i, *more, key=None):
        log("ran", i)
        if i % 2:
            raise Boom(i)
        return (i, more, key)
    wrapped = aiomisc.threaded(work)
    lazies, want = [], []
    for i in range(n):
        args = (i, *range(rng.randint(0, 2)))
        kwargs = {"key": Token(i)} if rng.random() < 0.5 else {}
        want.append((i, args[1:], kwargs.get("key")))
        lazies.append(
            wrapped(*args, **kwargs) if rng.random() < 0.5 else
            run_in_executor(work, args=args, kwargs=kwargs))
    case.check(not log.events, "ran-early", "")

    async def main():
        res = await asyncio.gather(*lazies, return_exceptions=True)
        for i, r in enumerate(res):
            case.check(
                (isinstance(r, Boom) and r.token == i) if i % 2
                else r == want[i],
                "wrong-outcome", str(i), got=r,
            )
    run(main(), 2, kind)
    case.check(sorted(e[1] for e in log.events) == list(range(n)),
               "executed", str(log.events))
    case.event("calls", n)


class Callable:
    def __init__(self, func):
        self.func = func

    def __call__(self, *args, **kwargs):
        return self.func(*args, **kwargs)

    def method(self, *args, **kwargs):
        return self.func(*args, **kwargs)


def callables(case):
    """Any callable is run by every bridge with exactly its arguments."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    log = Log()
    plan = [(
        rng.choice(["function", "lambda", "partial", "object", "method",
                    "class"]),
        rng.choice(["threaded", "separate", "new", "executor"]),
        rng.randint(0, 2), rng.choice([(), ("func",), ("args", "loop")]),
    ) for _ in range(rng.randint(1, 6))]
    case.describe(calls=plan)
    case.trace(kind, *plan)

    async def one(i, what, bridge, extra, keys):
        token = Token(i)

        def function(*args, **kwargs):
            log("ran", i, threading.get_ident())
            return (args, kwargs)

        class Class:
            def __new__(cls, *args, **kwargs):
                return function(*args, **kwargs)
        args = (token, *range(extra))
        kwargs = {k: Token(k) for k in keys}
        func = {
            "function": function,
            "lambda": lambda *a, **k: function(*a, **k),
            "partial": partial(function, "bound", func=1, own=2),
            "object": Callable(function),
            "method": Callable(function).method,
            "class": Class,
        }[what]
        want = (args, kwargs)
        if what == "partial":
            want = (("bound", *args), {"func": 1, "own": 2, **kwargs})
        try:
            if bridge == "threaded":
                got = await aiomisc.threaded(func)(*args, **kwargs)
            elif bridge == "separate":
                got = await aiomisc.threaded_separate(func)(*args, **kwargs)
            elif bridge == "new":
                got = await run_in_new_thread(func, args, kwargs)
            else:
                got = await run_in_executor(func, None, args, kwargs)
        except Exception as e:
            got = e
        case.check(got == want, "wrong-outcome", f"{what} by {bridge}",
                   got=got, want=want)

    async def main():
        me = threading.get_ident()
        await asyncio.gather(*[one(i, *p) for i, p in enumerate(plan)])
        case.check(all(e[2] != me for e in log.of("ran")), "wrong-side",
                   "a call ran in the thread of the event loop")
    run(main(), 2, kind)
    case.check(sorted(e[1] for e in log.of("ran")) == list(range(len(plan))),
               "executed", str(log.events))
    case.event("calls", len(plan))


QUICK_SCALE = 5
SCENARIOS = [
    Scenario(call_tree, 300),
    Scenario(cancelled_coroutine, 120, timeout=90),
    Scenario(cancelled_caller, 120),
    Scenario(separate_from_pool, 80),
    Scenario(lazy_call, 60),
    Scenario(callables, 80),
]
