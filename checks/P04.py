import asyncio
import random
import threading
import time

import aiomisc
import aiomisc.iterator_wrapper as iw_mod
import aiomisc.thread_pool as tp_mod
from aiomisc.iterator_wrapper import IteratorWrapper

from vf.core import Scenario
from vf.inject import maybe_inject
from vf.util import BaseBoom, Boom, Token, policy

RULE = (
    "threaded iterables over generators and iterators of random length, "
    "speed, error position and queue size, consumed at random speeds, one or "
    "several at once, with preemption injected in the queue and its reader; "
    "distinct by plan and by the observed lookahead profile"
)


def run(coro, pool_size, kind):
    return aiomisc.run(
        coro, pool_size=pool_size, policy=policy(kind), log_config=False,
    )


class Source:
    def __init__(self, case, rng, max_size):
        self.case, self.max_size = case, max_size
        self.n = rng.choice([0, 1, 2, 3, 5, 10, 30, 100])
        self.error_at = (
            rng.randint(0, self.n) if rng.random() < 0.3 else None
        )
        self.style = rng.choice(
            ["gen", "gen", "iter", "list", "args", "raises", "not-iterable"],
        )
        if self.style == "list":
            self.error_at = None
        # no iterator at all: the function raises or returns something else
        if self.style in ("raises", "not-iterable"):
            self.n = self.error_at = 0
        self.error = rng.choice([
            Boom, Boom, Boom, Boom, BaseBoom, asyncio.CancelledError,
        ])
        self.slow = rng.choice([0, 0, 0, 0.0005, 0.003])
        self.consumer = rng.choice([0, 0, 0.0005, 0.003])
        # items of which some are equal, false or look like control values
        pool = [None, 0, "", (), False, StopIteration, Ellipsis]
        self.items = [
            rng.choice(pool) if rng.random() < 0.3 else Token(i)
            for i in range(self.n)
        ]
        self.produced = 0
        self.requested = 0
        self.ahead = 0
        self.seed = rng.random()
        self.threads = set()
        self.finished = 0
        case.trace(self.n, self.error_at, self.style, self.slow,
                   self.consumer, max_size)

    def plan(self):
        return dict(n=self.n, error_at=self.error_at, style=self.style,
                    error=self.error.__name__,
                    slow=self.slow, consumer=self.consumer,
                    max_size=self.max_size)

    def tick(self, i):
        self.threads.add(threading.get_ident())
        if self.slow:
            time.sleep(self.slow)
        if self.error_at == i:
            raise self.error(i)
        self.produced += 1
        ahead = self.produced - self.requested
        self.ahead = max(self.ahead, ahead)

    def gen(self):
        try:
            for i, item in enumerate(self.items):
                self.tick(i)
                yield item
            if self.error_at == self.n:
                raise self.error(self.n)
        finally:
            self.finished += 1

    def gen_args(self, a, *, b):
        self.case.check((a, b) == (1, 2), "arguments", str((a, b)))
        yield from self.gen()

    def iterator(self):
        src = self

        class It:
            i = 0

            def __iter__(self):
                return self

            def __next__(self):
                if self.i >= src.n:
                    if src.error_at == src.n:
                        raise src.error(src.n)
                    raise StopIteration
                src.tick(self.i)
                self.i += 1
                return src.items[self.i - 1]
        return It()

    def as_list(self):
        return list(self.items)

    def raises(self):
        self.threads.add(threading.get_ident())
        if self.slow:
            time.sleep(self.slow)
        raise self.error(0)

    def not_iterable(self):
        self.threads.add(threading.get_ident())
        if self.slow:
            time.sleep(self.slow)
        return 17

    def make(self, rng):
        ms = self.max_size
        if self.style == "args":
            how = rng.choice(["it", "sep", "threaded"])
            if how == "threaded" and ms == 0:
                return aiomisc.threaded(self.gen_args)(1, b=2)
            deco = (
                aiomisc.threaded_iterable_separate if how == "sep"
                else aiomisc.threaded_iterable
            )
            return deco(max_size=ms)(self.gen_args)(1, b=2)
        func = {"gen": self.gen, "iter": self.iterator,
                "list": self.as_list, "raises": self.raises,
                "not-iterable": self.not_iterable}[self.style]
        how = rng.choice(["it", "sep", "wrapper", "int"])
        if how == "wrapper":
            return IteratorWrapper(func, max_size=ms)
        if how == "int":
            return aiomisc.threaded_iterable(ms)(func)()
        if how == "sep":
            return aiomisc.threaded_iterable_separate(max_size=ms)(func)()
        return aiomisc.threaded_iterable(max_size=ms)(func)()

    async def consume(self):
        rng = random.Random(self.seed)
        got = []
        error = None
        it = self.make(rng)
        manual = rng.random() < 0.5
        use_with = rng.random() < 0.5

        async def body():
            nonlocal error
            try:
                ait = aiter(it)
                while True:
                    self.requested += 1
                    if manual:
                        item = await ait.__anext__()
                    else:
                        item = await anext(ait)
                    got.append(item)
                    if self.consumer and rng.random() < 0.5:
                        await asyncio.sleep(self.consumer)
                    elif rng.random() < 0.1:
                        await asyncio.sleep(0)
            except StopAsyncIteration:
                pass
            except (Boom, BaseBoom, TypeError,
                    asyncio.CancelledError) as e:
                error = e
        if use_with:
            async with it:
                await body()
        else:
            await body()
        case = self.case
        last = self.n if self.error_at is None else self.error_at
        case.check(
            len(got) == last and
            all(a is b for a, b in zip(got, self.items)),
            "wrong-sequence", str(self.plan()), got=got[-3:], n=len(got),
        )
        if self.error_at is None:
            case.check(error is None, "spurious-error", repr(error))
        else:
            case.check(
                isinstance(error, TypeError) if self.style == "not-iterable"
                else type(error) is self.error and
                error.args == (self.error_at,),
                "lost-error", str(self.plan()), got=repr(error),
            )
        if self.style != "list":
            case.check(threading.get_ident() not in self.threads,
                       "ran-in-loop-thread", "")
        if self.max_size and self.style != "list":
            case.check(
                self.ahead <= self.max_size + 1, "lookahead",
                f"{self.ahead} items ahead, max_size={self.max_size}",
            )
        if self.style in ("gen", "args"):
            case.check(self.finished == 1, "not-finalised",
                       str(self.finished))
        # the end is sticky
        try:
            more = await asyncio.wait_for(it.__anext__(), 20)
        except StopAsyncIteration:
            pass
        else:
            case.fail("extra-item", repr(more))
        case.event("items", len(got))
        case.event("errors", error is not None)
        case.trace(self.ahead)


def single(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    src = Source(case, rng, rng.choice([0, 0, 1, 1, 2, 3, 8, 64]))
    case.describe(loop=kind, **src.plan())
    with maybe_inject(case, iw_mod, tp_mod, prob=0.7) as inj:
        run(src.consume(), 2, kind)
        case.event("preemptions", inj.delays)


def several(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    n = rng.randint(2, 6)
    srcs = [Source(case, rng, rng.choice([0, 1, 2, 8])) for _ in range(n)]
    pool = rng.choice([1, 2, n])
    case.describe(loop=kind, pool=pool, sources=[s.plan() for s in srcs])

    async def main():
        # never wait for each other: a smaller pool just serialises them
        await asyncio.gather(*[s.consume() for s in srcs])
    with maybe_inject(case, iw_mod, tp_mod) as inj:
        run(main(), pool, kind)
        case.event("preemptions", inj.delays)


def stalled_consumer(case):
    """While nobody reads, the producer stops at max_size + 1 items, and
    then nothing is lost."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    ms = rng.choice([1, 2, 3, 5])
    n = ms + rng.randint(2, 20)
    taken = rng.randint(0, n - ms - 2)
    case.trace(kind, ms, n, taken)
    produced = []

    def gen():
        for i in range(n):
            produced.append(i)
            yield i

    async def main():
        it = aiomisc.threaded_iterable(max_size=ms)(gen)()
        ait = aiter(it)
        got = []
        for _ in range(taken):
            got.append(await anext(ait))
        await asyncio.sleep(0.25)
        case.check(
            len(produced) <= taken + ms + 1, "lookahead",
            f"produced {len(produced)} after {taken} taken, max_size {ms}",
        )
        if taken:
            case.event("stalled_full", len(produced) == taken + ms + 1)
        async for x in ait:
            got.append(x)
        case.check(got == list(range(n)), "wrong-sequence", str(got))
    run(main(), 2, kind)


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(single, 500),
    Scenario(several, 120),
    Scenario(stalled_consumer, 25),
]
