"""The program interrupted by the P16 check: argv[1] is a JSON plan."""
import asyncio
import json
import os
import signal
import sys
import threading
import time

import aiomisc

plan = json.loads(sys.argv[1])


def say(*args):
    os.write(1, (json.dumps([time.monotonic(), *args]) + "\n").encode())


class Svc(aiomisc.Service):
    idx: int
    stop_dur: float
    forever: bool

    async def start(self):
        say("start", self.idx)
        if self.forever:
            self.start_event.set()
            try:
                await asyncio.sleep(3600)
            finally:
                say("start_end", self.idx)

    async def stop(self, exception=None):
        say("stop", self.idx, repr(exception))
        end = time.monotonic() + self.stop_dur
        try:
            while time.monotonic() < end:
                await asyncio.sleep(0.01)
            say("stopped", self.idx)
        finally:
            say("stop_end", self.idx)


async def background(i):
    try:
        await asyncio.sleep(3600)
    finally:
        say("background_end", i)


async def body():
    for i in range(plan["background"]):
        asyncio.ensure_future(background(i))
        await asyncio.sleep(0)
    say("ready")
    try:
        if plan["twice"]:
            # both come before the loop gets to handle the first one
            await asyncio.sleep(plan["delay"])
            for sig in plan["twice"]:
                os.kill(os.getpid(), sig)
        await asyncio.sleep(plan["body"])
        if plan["raise"]:
            raise ValueError("body")
    finally:
        say("body_end")
    return 42


async def own():
    async with aiomisc.entrypoint(*services, **kwargs):
        r = await body()
    say("closed")
    return r


services = [
    Svc(idx=i, stop_dur=d, forever=f)
    for i, (d, f) in enumerate(plan["services"])
]
if plan["policy"] == "uvloop":
    import uvloop
    policy = uvloop.EventLoopPolicy()
else:
    policy = asyncio.DefaultEventLoopPolicy()
kwargs = dict(
    log_config=plan["log"], shutdown_timeout=plan["timeout"], policy=policy,
    pool_size=2,
)
if plan["signals"]:
    kwargs["catch_signals"] = tuple(plan["signals"])


def main():
    form = plan["form"]
    before = {
        s: signal.getsignal(s)
        for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1)
    }
    try:
        try:
            if form == "run":
                r = aiomisc.run(body(), *services, **kwargs)
                say("result", r)
            elif form == "forever":
                with aiomisc.entrypoint(*services, **kwargs) as loop:
                    task = loop.create_task(body())
                    loop.run_forever()
                say("closed", loop.is_closed())
                del task
            else:
                asyncio.set_event_loop_policy(policy)
                say("result", asyncio.run(own()))
        finally:
            say("unwound")
            after = {s: signal.getsignal(s) for s in before}
            say("handlers", before == after)
            say("threads", threading.active_count())
    except ValueError as e:
        say("error", str(e))
        sys.exit(3)


if __name__ == "__main__":
    main()
