"""Event loops for the monitors.

VirtualLoop: an asyncio loop whose clock jumps to the next timer whenever
nothing is ready.  A loop with nothing ready, no timers and no file events is
deadlocked, which is reported at once and deterministically (Stuck).
"""
import asyncio
import selectors


class Stuck(Exception):
    """Nothing can ever happen again, but the main coroutine has not ended."""


class Livelock(Exception):
    """Too many loop iterations without the main coroutine ending."""


class _VSelector(selectors.DefaultSelector):
    vloop = None

    def select(self, timeout=None):
        loop = self.vloop
        loop.steps += 1
        if loop.steps > loop.max_steps:
            raise Livelock(f"{loop.steps} iterations, time {loop.vtime}")
        events = super().select(0)
        if events:
            return events
        if timeout is None:
            if loop.external:
                # threads may still wake the loop up: wait in real time
                events = super().select(loop.external)
                if events:
                    return events
            raise Stuck(f"deadlock at virtual time {loop.vtime}")
        if timeout > 0:
            sched = loop._scheduled
            if sched:
                loop.vtime = max(
                    loop.vtime, sched[0]._when + loop.latency(),
                )
            else:
                loop.vtime += timeout
        return []


class VirtualLoop(asyncio.SelectorEventLoop):
    def __init__(self, start=1000.0, max_steps=2_000_000, external=0):
        self.vtime = start
        self.steps = 0
        self.max_steps = max_steps
        self.external = external
        self.unhandled = []
        sel = _VSelector()
        super().__init__(sel)
        sel.vloop = self
        self.set_exception_handler(
            lambda _, ctx: self.unhandled.append(ctx),
        )

    def time(self):
        return self.vtime

    @staticmethod
    def latency():
        """How late a timer fires"""
        return 0


def run_virtual(coro_func, *args, start=1000.0, max_steps=2_000_000,
                external=0, latency=None):
    """Runs coro_func(*args) in a fresh virtual loop, cancels leftovers."""
    loop = VirtualLoop(start, max_steps, external)
    if latency is not None:
        loop.latency = latency
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro_func(*args))
    finally:
        try:
            loop.max_steps = loop.steps + 100000
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            if pending:
                try:
                    loop.run_until_complete(
                        asyncio.wait(pending, timeout=60),
                    )
                except (Stuck, Livelock):
                    pass
            try:
                loop.run_until_complete(loop.shutdown_asyncgens())
            except (Stuck, Livelock):
                pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()


async def steps(n):
    """Lets the loop make n iterations."""
    import asyncio as a
    for _ in range(n):
        await a.sleep(0)


def real_loop(kind="asyncio"):
    if kind == "uvloop":
        import uvloop
        return uvloop.new_event_loop()
    return asyncio.SelectorEventLoop()


def run_real(coro_func, *args, kind="asyncio", executor=None, debug=False):
    """Runs coro_func in a fresh real-time loop; leftovers are cancelled."""
    loop = real_loop(kind)
    loop.set_debug(debug)
    asyncio.set_event_loop(loop)
    if executor is not None:
        loop.set_default_executor(executor)
    try:
        return loop.run_until_complete(coro_func(*args))
    finally:
        try:
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            if pending:
                loop.run_until_complete(asyncio.wait(pending, timeout=5))
            loop.run_until_complete(loop.shutdown_asyncgens())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
