"""The program run by the P33 check: argv[1] is a JSON plan."""
import asyncio
import json
import os
import random
import signal
import sys
import time

import aiomisc
from aiomisc.service.sdwatchdog import SDWatchdogService

plan = json.loads(sys.argv[1])
rng = random.Random(plan["seed"])


def say(what, **kw):
    kw.update(t=time.time(), what=what)
    os.write(1, (json.dumps(kw) + "\n").encode())


class Svc(aiomisc.Service):
    idx: int
    start_dur: float
    stop_dur: float

    async def start(self):
        say("start", i=self.idx)
        await asyncio.sleep(self.start_dur)
        say("started", i=self.idx)

    async def stop(self, exception=None):
        say("stop", i=self.idx)
        await asyncio.sleep(self.stop_dur)
        say("stopped", i=self.idx)


class Dog(SDWatchdogService):
    async def start(self):
        say("dog_start")
        await super().start()
        say("dog_started")

    async def stop(self, exception=None):
        say("dog_stop")
        await super().stop(exception)
        say("dog_stopped")


async def lag():
    while True:
        t = time.time()
        await asyncio.sleep(0.005)
        d = time.time() - t - 0.005
        if d > 0.01:
            say("lag", start=t, d=d)


async def body(ep):
    task = asyncio.ensure_future(lag())
    say("body")
    end = time.time() + plan["body"]
    for block in plan["blocks"]:
        await asyncio.sleep(block["after"])
        t = time.time()
        time.sleep(block["d"])
        say("block", start=t, end=time.time())
    if plan["extra"]:
        extra = Svc(idx=100, start_dur=0.02, stop_dur=0.02)
        await ep.start_services(extra)
        if plan["extra"] > 1:
            await ep.stop_services(extra)
        say("extra_done")
    await asyncio.sleep(max(0, end - time.time()))
    task.cancel()
    say("body_end")
    if plan["end"] == "raise":
        raise RuntimeError("body")
    if plan["end"].startswith("SIG"):
        os.kill(os.getpid(), getattr(signal, plan["end"]))
        await asyncio.sleep(30)


def main():
    services = [
        Svc(idx=i, start_dur=a, stop_dur=b)
        for i, (a, b) in enumerate(plan["services"])
    ]
    if plan["dog"] is not None:
        kw = {}
        if plan["interval"] is not None:
            kw["watchdog_interval"] = plan["interval"]
        services.insert(plan["dog"], Dog(**kw))
    ep = aiomisc.entrypoint(
        *services, log_config=False,
        catch_signals=(signal.SIGINT, signal.SIGTERM),
    )
    try:
        with ep as loop:
            loop.run_until_complete(body(ep))
    except RuntimeError as e:
        say("error", error=repr(e))
    except (KeyboardInterrupt, asyncio.CancelledError) as e:
        say("interrupted", error=repr(e))
    say("closed")


if __name__ == "__main__":
    main()
