"""The program run by the P35 check: argv[1] is a JSON plan."""
import asyncio
import json
import random
import sys
import time

import aiomisc
import grpc
import grpc.aio
from aiomisc.service.grpc_server import GRPCService

plan = json.loads(sys.argv[1])
calls, stuck = plan["calls"], plan["stuck"]
WAIT = 30
events, problems = [], []
running = set()
peak = [0]
got = {}


class Boom(Exception):
    pass


def bad(cond, what):
    if not cond:
        problems.append(what)


def payload(n, size):
    return random.Random(n).randbytes(size)


async def connects(port):
    try:
        _, w = await asyncio.open_connection("127.0.0.1", port)
    except ConnectionError:
        return False
    w.close()
    return True


def log(what, n=None):
    events.append((time.monotonic(), what, n))


async def work(n):
    c = calls[n]
    log("start", n)
    running.add(n)
    peak[0] = max(peak[0], len(running))
    try:
        await asyncio.sleep(c["d"])
        if c["fail"]:
            raise Boom(n)
        log("done", n)
        return payload(n, c["size"])
    except asyncio.CancelledError:
        log("cancelled", n)
        raise
    finally:
        running.discard(n)


async def unary(request, context):
    return request + await work(int(request))


async def stream(request, context):
    n = int(request)
    data = await work(n)
    for i in range(calls[n]["items"]):
        await asyncio.sleep(0)
        yield b"%d:%d:" % (n, i) + data


async def bidi(requests, context):
    async for r in requests:
        n, i = map(int, r.split(b":"))
        if not i:
            await work(n)
        yield r


async def call(n, channels):
    c = calls[n]
    await asyncio.sleep(c["at"])
    ch = channels[c["port"] % len(channels)]
    name = str(n).encode()
    kw = dict(timeout=WAIT)
    got[n] = None
    try:
        if c["kind"] == "unary":
            got[n] = await ch.unary_unary("/vf.Svc/Unary")(name, **kw)
        elif c["kind"] == "stream":
            out = []
            async for item in ch.unary_stream("/vf.Svc/Stream")(
                    name, **kw):
                out.append(item)
            got[n] = out
        else:
            async def send():
                for i in range(c["items"]):
                    yield b"%d:%d" % (n, i)
            out = []
            async for item in ch.stream_stream("/vf.Svc/Bidi")(
                    send(), **kw):
                out.append(item)
            got[n] = out
    except grpc.aio.AioRpcError as e:
        got[n] = e
    finally:
        if got[n] is None:
            got[n] = "aborted"

async def stop_it(ep, svc):
    try:
        await asyncio.wait_for(ep.stop_services(svc), WAIT)
    except asyncio.TimeoutError:
        bad(False, "stop never ends")
    except Exception as e:
        bad(False, f"stop fails: {e!r}")


def make():
    svc = GRPCService(
        reflection=plan["reflection"], GRACEFUL_STOP_TIME=plan["grace"],
        maximum_concurrent_rpcs=plan["limit"],
    )
    svc.add_generic_rpc_handlers([
        grpc.method_handlers_generic_handler("vf.Svc", {
            "Unary": grpc.unary_unary_rpc_method_handler(unary),
            "Stream": grpc.unary_stream_rpc_method_handler(stream),
            "Bidi": grpc.stream_stream_rpc_method_handler(bidi),
        }),
    ])
    return svc, [svc.add_insecure_port("127.0.0.1:0")
                 for _ in range(plan["ports"])]


async def interrupted(svc, futures):
    async with aiomisc.entrypoint(log_config=False, catch_signals=()) as ep:
        task = asyncio.ensure_future(ep.start_services(svc))
        for _ in range(plan["ticks"]):
            await asyncio.sleep(0)
        await stop_it(ep, svc)
        done, _ = await asyncio.wait([task], timeout=WAIT)
        bad(done, "start never ends")
        for f in futures:
            if f.done():
                bad(not await connects(f.result()),
                    "service listens after the stop")


async def main(ep, svc, futures):
    bad(all(f.done() for f in futures), "ports are not known")
    ports = [f.result() for f in futures]
    bad(len(set(ports)) == len(ports), "ports are the same")
    channels = [grpc.aio.insecure_channel(f"127.0.0.1:{p}") for p in ports]
    tasks = [asyncio.ensure_future(call(n, channels))
             for n in range(len(calls))]

    async def abort(n):
        if calls[n]["abort"] is not None:
            await asyncio.wait(
                [tasks[n]], timeout=calls[n]["at"] + calls[n]["abort"])
            tasks[n].cancel()

    aborts = [asyncio.ensure_future(abort(n)) for n in range(len(calls))]
    if plan["stop"] is None:
        todo = [t for n, t in enumerate(tasks) if not (stuck and not n)]
        await asyncio.wait(
            todo or [asyncio.ensure_future(asyncio.sleep(0.3))])
    else:
        await asyncio.sleep(plan["stop"])
    log("stop")
    if plan["how"] == "stop_services":
        await stop_it(ep, svc)
        log("stopped")
    return ports, channels, tasks, aborts


async def after(ports, channels, tasks, aborts):
    end = time.monotonic() + 5
    while running and time.monotonic() < end:
        await asyncio.sleep(0.01)
    bad(not running, "handler runs after the stop")
    for port in ports:
        bad(not await connects(port), "service listens after the stop")
    _, pending = await asyncio.wait(tasks, timeout=WAIT)
    bad(not pending, "client's call never ends")
    await asyncio.gather(*aborts)
    for ch in channels:
        await ch.close()


async def program(svc=None, futures=None):
    if svc is None:
        svc, futures = make()
    if plan["when"] != "normal":
        return await interrupted(svc, futures)
    async with aiomisc.entrypoint(
        svc, log_config=False, catch_signals=(),
    ) as ep:
        state = await main(ep, svc, futures)
    log("stopped")
    await after(*state)


def judge(n):
    out, c = got[n], calls[n]
    if out == "aborted":
        return "aborted", None, None
    if isinstance(out, grpc.aio.AioRpcError):
        return "error", out.code().name, None
    data = payload(n, c["size"])
    if c["kind"] == "unary":
        want = str(n).encode() + data
    elif c["kind"] == "stream":
        want = [b"%d:%d:" % (n, i) + data for i in range(c["items"])]
    else:
        want = [b"%d:%d" % (n, i) for i in range(c["items"])]
    return "answered", None, out == want


if __name__ == "__main__":
    loop, _ = aiomisc.utils.create_default_event_loop()
    asyncio.set_event_loop(loop)
    loop.run_until_complete(
        program(*make()) if plan["outside"] else program())
    print(json.dumps(dict(
        events=events, bad=problems, got={n: judge(n) for n in got},
        peak=peak[0],
    )), flush=True)
