import asyncio
import os
import random
import socket
import ssl
import subprocess
import sys
import json
import time

import aiohttp
import aiohttp.web
import aiomisc
from aiomisc.service.aiohttp import AIOHTTPService, AIOHTTPSSLService
from aiomisc.service.asgi import ASGIHTTPService, ASGIHTTPSSLService
from aiomisc.service.uvicorn import UvicornService

from vf.core import Scenario
from vf.util import Boom, eventually, own_host
from vf.vloop import run_real

RULE = (
    "random HTTP, HTTPS, ASGI, uvicorn and gRPC services in an entrypoint "
    "with random clients (slow requests, disconnects, wrong certificates), "
    "started, failing to start and stopped (also while starting) at random "
    "moments; programs receiving signals; distinct by plan"
)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WAIT = 30
SLACK = 1.5


def cert(name):
    return os.path.join(HERE, "data", "certs", name)


PAIR = dict(cert=cert("server.pem"), key=cert("server.key"))
KINDS = ["aiohttp", "aiohttp-ssl", "asgi", "asgi-ssl", "uvicorn"]


def payload(n, size):
    return random.Random(n).randbytes(size)


class App:
    """Both an ASGI application and a set of handlers of aiohttp."""

    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.running = set()

    def log(self, what, n=None):
        self.events.append((time.monotonic(), what, n))

    def of(self, what):
        return [e[2] for e in self.events if e[1] == what]

    def time(self, what, n=None):
        return next((e[0] for e in self.events if e[1:] == (what, n)), None)

    async def work(self, n):
        r = self.plan["requests"][n]
        self.log("start", n)
        self.running.add(n)
        try:
            await asyncio.sleep(r["d"])
            if r["fail"]:
                raise Boom(n)
            self.log("done", n)
            return payload(n, r["size"])
        except asyncio.CancelledError:
            self.log("cancelled", n)
            raise
        finally:
            self.running.discard(n)

    async def starting(self, *_):
        await asyncio.sleep(self.plan["startup"])
        self.log("startup")

    async def shutdown(self, *_):
        self.log("shutdown")

    async def handler(self, request):
        n = int(request.match_info["n"])
        body = await request.read()
        return aiohttp.web.Response(body=await self.work(n) + body)

    def application(self):
        app = aiohttp.web.Application()
        app.router.add_route("*", "/{n}", self.handler)
        app.on_startup.append(self.starting)
        app.on_cleanup.append(self.shutdown)
        return app

    async def __call__(self, scope, receive, send):
        if scope["type"] == "lifespan":
            while True:
                m = await receive()
                if m["type"] == "lifespan.startup":
                    await self.starting()
                    if self.plan["fail"] == "startup":
                        await send({"type": "lifespan.startup.failed"})
                        return
                    await send({"type": "lifespan.startup.complete"})
                elif m["type"] == "lifespan.shutdown":
                    await self.shutdown()
                    await send({"type": "lifespan.shutdown.complete"})
                    return
        n = int(scope["path"].rsplit("/", 1)[1])
        extra = b""
        while True:
            m = await receive()
            extra += m.get("body", b"")
            if not m.get("more_body"):
                break
        body = await self.work(n) + extra
        await send({"type": "http.response.start", "status": 200, "headers": [
            (b"content-length", str(len(body)).encode()),
        ]})
        await send({"type": "http.response.body", "body": body})


def make_service(plan, app, sock):
    kind = plan["kind"]
    kw = dict(sock=sock)
    if kind != "uvicorn":
        kw.update(shutdown_timeout=plan["timeout"])
        if kind.startswith("aiohttp"):
            kw.update(handler_cancellation=plan["cancellation"])
    if kind.endswith("-ssl"):
        kw.update(PAIR, ca=cert("goodca.pem"),
                  require_client_cert=plan["require"],
                  verify=plan["verify"])
    base = {
        "aiohttp": AIOHTTPService, "aiohttp-ssl": AIOHTTPSSLService,
        "asgi": ASGIHTTPService, "asgi-ssl": ASGIHTTPSSLService,
        "uvicorn": UvicornService,
    }[kind]

    async def create(self):
        app.log("create")
        await asyncio.sleep(plan["create"])
        if plan["fail"] == "create":
            raise Boom("create")
        return app.application() if kind.startswith("aiohttp") else app

    name = ("create_asgi_app" if kind.startswith("asgi")
            else "create_application")
    return type("Svc", (base,), {name: create})(**kw)


def make_plan(rng):
    kind = rng.choice(KINDS)
    timeout = rng.choice([1, 2])
    n = rng.randint(1, 8)
    requests = [dict(
        at=rng.choice([0, 0, 0.05, 0.1, 0.2]),
        d=rng.choice([0, 0, 0.05, 0.2, 0.4]), fail=rng.random() < 0.1,
        size=rng.choice([0, 1, 1000, 300000]),
        body=rng.choice([0, 0, 10, 70000]),
        abort=rng.choice([None, None, None, 0.03, 0.1]),
        identity=rng.choice([None, "client", "client", "evilclient",
                             "selfsigned", "expiredclient"]),
        tls12=rng.random() < 0.1,
        client=rng.randrange(3), twice=rng.random() < 0.3,
    ) for _ in range(n)]
    stuck = rng.random() < 0.15 and kind.startswith("aiohttp")
    if stuck:
        requests[0].update(d=60, abort=None, fail=False, identity="client",
                           tls12=False)
    return dict(
        kind=kind, timeout=timeout, requests=requests, stuck=stuck,
        require=rng.random() < 0.6, verify=rng.random() < 0.5,
        cancellation=rng.random() < 0.6,
        startup=rng.choice([0, 0, 0.05, 0.15]),
        create=rng.choice([0, 0, 0.05]), fail=None,
        # aiohttp's client has no TLS over unix sockets
        sock="tcp" if kind.endswith("-ssl") else rng.choice(["tcp", "unix"]),
        stop=rng.choice([0.02, 0.1, 0.25, 0.5, None]),
        how=rng.choice(["stop_services", "exit"]),
        loop=rng.choice(["asyncio", "uvloop"]),
    )


def make_sock(case, plan):
    if plan["sock"] == "tcp":
        sock = aiomisc.bind_socket(address=own_host(), port=0)
    else:
        sock = aiomisc.bind_socket(
            socket.AF_UNIX, socket.SOCK_STREAM,
            address=os.path.join(case.tmp(), "s"))
    case.defer(sock.close)
    address = sock.getsockname()
    return sock, address


async def connects(address):
    try:
        if isinstance(address, str):
            _, w = await asyncio.open_unix_connection(address)
        else:
            _, w = await asyncio.open_connection(*address)
    except (ConnectionError, FileNotFoundError):
        return False
    w.close()
    return True


def connector(address):
    if isinstance(address, str):
        return aiohttp.UnixConnector(address, limit=0)
    return aiohttp.TCPConnector(limit=0)


def context(plan, identity, tls12=False):
    if not plan["kind"].endswith("-ssl"):
        return {}, True
    ctx = ssl.create_default_context(cafile=cert("goodca.pem"))
    if identity:
        ctx.load_cert_chain(cert(identity + ".pem"), cert(identity + ".key"))
    if tls12:
        # refused by default
        ctx.maximum_version = ssl.TLSVersion.TLSv1_2
    return (dict(ssl=ctx, server_hostname="localhost"),
            (not plan["require"] or identity == "client") and not tls12)


def http(case):
    plan = make_plan(case.rng)
    if plan["kind"].startswith("aiohttp") and case.rng.random() < 0.3:
        # a client which hangs up long before its answer
        plan["requests"][0].update(
            at=0, d=0.4, body=0, abort=0.15, twice=False, identity="client",
            tls12=False, fail=False)
        plan.update(stop=0.7, stuck=False)
    case.sample = plan
    app = App(plan)
    got = {}

    async def request(n, sessions, address):
        r = plan["requests"][n]
        kw, ok = context(plan, r["identity"], r["tls12"])
        key = r["client"], r["identity"], r["tls12"]
        await asyncio.sleep(r["at"])
        if key not in sessions:
            sessions[key] = aiohttp.ClientSession(
                connector=connector(address))
        host = "localhost" if isinstance(address, str) else \
            f"{address[0]}:{address[1]}"
        scheme = "https" if kw else "http"
        data = payload(-n - 1, r["body"])
        got[n] = None
        try:
            # a reused connection which is being closed is the client's risk
            async with sessions[key].post(
                f"{scheme}://{host}/{n}", data=data,
                timeout=aiohttp.ClientTimeout(total=WAIT), **kw,
            ) as response:
                body = await response.read()
                got[n] = (response.status, body)
        except aiohttp.ClientError as e:
            got[n] = e
        except asyncio.TimeoutError:
            case.fail("request has no answer", plan=plan, n=n,
                      events=app.events)
        finally:
            if got[n] is None:
                got[n] = "aborted"

    async def main():
        sock, address = make_sock(case, plan)
        svc = make_service(plan, app, sock)
        sessions = {}

        def finished():
            # aiohttp_asgi leaves requests of disconnected clients alone
            running = {n for n in app.running if not (
                plan["kind"].startswith("asgi") and
                plan["requests"][n]["abort"] is not None)}
            case.check(not running, "handler runs after the stop", plan=plan,
                       running=running, events=app.events)

        async with aiomisc.entrypoint(svc, log_config=False,
                                      catch_signals=()) as ep:
            case.check(await connects(address), "service is started, but it "
                       "does not listen", plan=plan)
            case.check(app.of("startup") == [None], "application is not "
                       "started", plan=plan, events=app.events)
            tasks = [asyncio.ensure_future(request(n, sessions, address))
                     for n in range(len(plan["requests"]))]

            async def abort(n):
                r = plan["requests"][n]
                if r["abort"] is None:
                    return
                await asyncio.wait([tasks[n]], timeout=r["at"] + r["abort"])
                tasks[n].cancel()

            aborts = [asyncio.ensure_future(abort(n))
                      for n in range(len(tasks))]
            if plan["stop"] is None:
                await asyncio.wait([
                    t for n, t in enumerate(tasks)
                    if not (plan["stuck"] and n == 0)] or [
                        asyncio.ensure_future(asyncio.sleep(0.3))])
            else:
                if plan["kind"].endswith("-ssl"):
                    # aiohttp forgets connections doing their handshakes
                    await eventually(lambda: all(
                        t.done() or n in app.of("start")
                        for n, t in enumerate(tasks)))
                await asyncio.sleep(plan["stop"])
            app.log("stop")
            if plan["how"] == "stop_services":
                try:
                    await asyncio.wait_for(ep.stop_services(svc), WAIT)
                except asyncio.TimeoutError:
                    case.fail("stop never ends", plan=plan, events=app.events)
                app.log("stopped")
                finished()
                case.check(not await connects(address), "service listens "
                           "after the stop", plan=plan)
        if plan["how"] == "exit":
            app.log("stopped")
            finished()
            case.check(not await connects(address), "service listens "
                       "after the stop", plan=plan)
        done, pending = await asyncio.wait(tasks, timeout=WAIT)
        case.check(not pending, "client's request never ends", plan=plan,
                   events=app.events)
        await asyncio.gather(*aborts)
        for s in sessions.values():
            await s.close()

    run_real(main, kind=plan["loop"])
    events = app.events

    def bad(cond, what, **kw):
        case.check(cond, what, plan=plan, events=[
            (round(t - events[0][0], 3), *e) for t, *e in events], **kw)

    for what in ("create", "startup", "shutdown"):
        bad(len(app.of(what)) == 1, "not called once: " + what)
    stop, stopped = app.time("stop"), app.time("stopped")
    took = stopped - stop
    for n, r in enumerate(plan["requests"]):
        _, ok = context(plan, r["identity"], r["tls12"])
        starts = app.of("start").count(n)
        outcome = got.get(n)
        bad(starts <= 1, "request is handled twice", n=n)
        if not ok:
            bad(not starts and not isinstance(outcome, tuple),
                "request of a client without the certificate is handled",
                n=n, outcome=repr(outcome)[:200])
            case.event("unauthorized")
            continue
        if isinstance(outcome, tuple):
            status, body = outcome
            bad(starts == 1, "answer of nobody", n=n, status=status)
            if r["fail"]:
                bad(status == 500, "wrong status of the failed request", n=n,
                    status=status)
            elif status != 500 or not plan["stuck"]:
                want = payload(n, r["size"]) + payload(-n - 1, r["body"])
                bad((status, body == want) == (200, True), "wrong answer",
                    n=n, status=status, size=len(body))
            case.event("answered")
            continue
        if outcome == "aborted":
            case.event("aborted")
            if (plan["kind"].startswith("aiohttp") and starts and
                    not r["body"] and r["abort"] < r["d"] - 0.1):
                t = app.time("start", n)
                if t + r["d"] < stop - 0.1:
                    what = "cancelled" if plan["cancellation"] else "done"
                    bad(n in app.of(what) or r["fail"], "wrong end of the "
                        "handler of the disconnected client", n=n)
                    case.event("handler " + what)
            continue
        # the connection is failed
        t = app.time("start", n)
        case.event("failed")
        if t is not None:
            limit = plan["timeout"] if plan["kind"] != "uvicorn" else 1000
            bad(t + r["d"] > stop + limit - 0.6, "request being handled is "
                "lost", n=n, outcome=repr(outcome)[:200])
        elif plan["stop"] is None and not (plan["stuck"] and n == 0):
            bad(False, "request is lost", n=n, outcome=repr(outcome)[:200])
    # aiohttp waits twice, the second time for the cancelled handlers
    if took > 2 * plan["timeout"] + SLACK + (
            max(r["d"] for r in plan["requests"] if r["d"] < 50)
            if plan["kind"] == "uvicorn" and
            any(r["d"] < 50 for r in plan["requests"]) else 0):
        case.soft("stop takes too long", took=took, plan=plan,
                  events=events)
    if not plan["kind"].startswith("asgi"):
        bad(events[-1][1] == "stopped", "service works after the stop")


def starting(case):
    """The start fails, or the service is stopped while it starts."""
    rng = case.rng
    plan = make_plan(rng)
    plan.update(
        fail=rng.choice([None, "create", "startup"]), requests=[],
        startup=rng.choice([0, 0.05, 0.2]), create=rng.choice([0, 0.05, 0.2]),
        after=rng.choice([0, 0.001, 0.03, 0.08, 0.3]),
        ticks=rng.randint(0, 30), stop=rng.random() < 0.7,
    )
    if plan["kind"] != "uvicorn" and plan["fail"] == "startup":
        plan["fail"] = "create"
    case.sample = plan
    app = App(plan)

    async def main():
        sock, address = make_sock(case, plan)
        svc = make_service(plan, app, sock)
        other = App(dict(plan, fail=None))
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            del other
            task = asyncio.ensure_future(ep.start_services(svc))
            if plan["stop"]:
                await asyncio.wait([task], timeout=plan["after"])
                for _ in range(plan["ticks"]):
                    await asyncio.sleep(0)
            else:
                await asyncio.wait([task], timeout=WAIT)
            was = task.done()
            error = was and not task.cancelled() and task.exception()
            try:
                await asyncio.wait_for(ep.stop_services(svc), WAIT)
            except asyncio.TimeoutError:
                case.fail("stop never ends", plan=plan, events=app.events)
            done, _ = await asyncio.wait([task], timeout=WAIT)
            case.check(bool(done), "start never ends", plan=plan,
                       events=app.events)
            if was:
                case.event("started" if error is None else "failed")
                case.check((error is not None) == bool(plan["fail"]), "wrong outcome "
                           "of the start", plan=plan, error=repr(error),
                           events=app.events)
            else:
                case.event("interrupted")
            case.check(not await connects(address), "service listens after "
                       "the stop", plan=plan, was=was, events=app.events)
            want = 1 if app.of("startup") and plan["fail"] != "startup" else 0
            if was or plan["kind"] == "uvicorn":
                case.check(len(app.of("shutdown")) == want, "application is "
                           "not shut down", plan=plan, events=app.events)
            seen = len(app.events)
        await asyncio.sleep(0)
        case.check(len(app.events) == seen, "service works after the stop",
                   plan=plan, events=app.events)

    run_real(main, kind=plan["loop"])


def rpc(case):
    """gRPC: calls, streams, errors, cancellations, stop at any moment."""
    rng = case.rng
    calls = [dict(
        at=rng.choice([0, 0, 0.05, 0.15]), d=rng.choice([0, 0.05, 0.2, 0.4]),
        kind=rng.choice(["unary", "unary", "stream", "bidi"]),
        fail=rng.random() < 0.12, abort=rng.choice([None, None, None, 0.05]),
        size=rng.choice([0, 1, 1000, 100000]), items=rng.randint(0, 5),
        port=rng.randrange(3),
    ) for _ in range(rng.randint(1, 8))]
    stuck = rng.random() < 0.2
    if stuck:
        calls[0].update(d=60, abort=None, fail=False, kind="unary")
    plan = dict(
        calls=calls, stuck=stuck, grace=0.7 if stuck else rng.choice([2, 5]),
        stop=rng.choice([0.03, 0.1, 0.3, None]), reflection=rng.random() < 0.3,
        ports=rng.randint(1, 3), how=rng.choice(["stop_services", "exit"]),
        when=rng.choice(["normal"] * 5 + ["early"] * 2),
        limit=rng.choice([None, None, 100]), ticks=rng.randint(3, 12),
        outside=rng.random() < 0.5,
    )
    if rng.random() < 0.1 and not stuck:
        calls[:] = [dict(
            at=0, d=0.6, kind="unary", fail=False, abort=None, size=1,
            items=0, port=0) for _ in range(12)]
        plan.update(limit=1, stop=None, when="normal", reflection=False)
    case.sample = plan
    env = dict(os.environ, PYTHONPATH=os.environ.get("VF_REPO", "/repo"))
    proc = subprocess.Popen(
        [sys.executable, os.path.join(HERE, "vf", "rpc_target.py"),
         json.dumps(plan)], cwd=case.tmp(), env=env, text=True,
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
    )
    try:
        out, err = proc.communicate(timeout=80)
    except subprocess.TimeoutExpired:
        proc.kill()
        out, err = proc.communicate()
    line = (out.splitlines() or [""])[-1]
    case.check(line.startswith("{"), "the program failed", plan=plan,
               out=out[-300:], err=err[-900:])
    r = json.loads(line)
    events = r["events"]

    def bad(cond, what, **kw):
        case.check(cond, what, plan=plan, r=r, **kw)

    bad(not r["bad"], str(r["bad"] and r["bad"][0]))
    if plan["when"] != "normal":
        return case.event("interrupted")

    if plan["limit"] == 1:
        # (grpc itself lets a few more in, and refuses others)
        bad(r["peak"] < 8, "limit of calls at a time is not respected")
        case.event("limited")
    stop = next(e[0] for e in events if e[1] == "stop")
    stopped = next(e[0] for e in events if e[1] == "stopped")
    limit = plan["grace"] if stuck else 0.4
    if stopped - stop > limit + SLACK + 2:
        case.soft("stop takes too long", plan=plan, took=stopped - stop)
    for n, c in enumerate(calls):
        kind, out, right = r["got"][str(n)]
        starts = [e[0] for e in events if e[1:] == ["start", n]]
        bad(len(starts) <= 1, "called twice", n=n)
        case.event(out if kind == "error" else kind)
        if kind == "aborted":
            continue
        if kind == "error":
            # (grpc resets the stream of a failed call which is still sending,
            # and the client might see the reset first)
            if c["fail"] and starts and (
                out == "UNKNOWN" or (c["kind"], out) == ("bidi", "INTERNAL")
            ):
                continue
            if plan["limit"] == 1:
                bad(not starts, "call being handled is lost", n=n)
                continue
            if starts:
                bad(starts[0] + c["d"] > stop + plan["grace"] - 0.3,
                    "call being handled is lost", n=n)
            else:
                bad(plan["stop"] is not None or stuck and not n,
                    "call is lost", n=n)
            continue
        bad(right, "wrong answer", n=n)
        bad(not c["fail"] or c["kind"] == "bidi" and not c["items"],
            "failed call is answered", n=n)


PROGRAM = """
import asyncio, json, os, signal, sys, time
import aiomisc
from aiomisc.service.uvicorn import UvicornService
from aiomisc.service.aiohttp import AIOHTTPService
from aiomisc.service.asgi import ASGIHTTPService
plan = json.loads(sys.argv[1])

def say(*a):
    os.write(1, (json.dumps(a) + "\\n").encode())

async def app(scope, receive, send):
    while scope["type"] == "lifespan":
        m = await receive()
        say(m["type"])
        await send({"type": m["type"] + ".complete"})
        if m["type"].endswith("shutdown"):
            return

class Uvicorn(UvicornService):
    async def create_application(self):
        return app

class Asgi(ASGIHTTPService):
    async def create_asgi_app(self):
        return app

class Other(aiomisc.Service):
    async def start(self):
        pass
    async def stop(self, exc=None):
        await asyncio.sleep(plan["stop_dur"])
        say("other stopped")

def make(i):
    sock = aiomisc.bind_socket(address="127.0.0.1", port=0)
    return dict(uvicorn=Uvicorn, asgi=Asgi)[plan["kinds"][i]](sock=sock)

async def body(ep):
    for i in range(len(plan["kinds"])):
        if plan["dynamic"][i]:
            await ep.start_services(make(i))
    await asyncio.sleep(plan["at"])
    say("signal")
    os.kill(os.getpid(), getattr(signal, plan["signal"]))
    try:
        await asyncio.sleep(30)
        say("survived")
    finally:
        say("body end")

services = [make(i) for i, d in enumerate(plan["dynamic"]) if not d]
ep = aiomisc.entrypoint(*services, Other(), log_config=False)
try:
    with ep as loop:
        if plan["form"] == "complete":
            loop.run_until_complete(body(ep))
        else:
            task = loop.create_task(body(ep))
            loop.run_forever()
except (KeyboardInterrupt, asyncio.CancelledError) as e:
    pass
say("closed")
"""


def signals(case):
    """Services leave the signals to the entrypoint."""
    rng = case.rng
    n = rng.randint(1, 3)
    plan = dict(
        kinds=[rng.choice(["uvicorn", "uvicorn", "asgi"]) for _ in range(n)],
        dynamic=[rng.random() < 0.5 for _ in range(n)],
        at=rng.choice([0, 0.05, 0.2]), stop_dur=rng.choice([0, 0.1]),
        signal=rng.choice(["SIGINT", "SIGTERM"]),
        form=rng.choice(["complete", "forever"]),
    )
    case.sample = plan
    env = dict(os.environ, PYTHONPATH=os.environ.get("VF_REPO", "/repo"))
    proc = subprocess.Popen(
        [sys.executable, "-c", PROGRAM, json.dumps(plan)], cwd=case.tmp(),
        env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, text=True,
    )
    try:
        out, err = proc.communicate(timeout=25)
    except subprocess.TimeoutExpired:
        proc.kill()
        out, err = proc.communicate()
        case.fail("the program ignores the signal", plan=plan, out=out,
                  err=err[-500:])
    says = [json.loads(line)[0] for line in out.splitlines()]
    case.check("Traceback" not in err, "the program failed", plan=plan,
               err=err[-800:], says=says)
    for what, count in [
        ("lifespan.startup", n), ("lifespan.shutdown", n), ("closed", 1),
        ("other stopped", 1), ("survived", 0), ("body end", 1),
    ]:
        case.check(says.count(what) == count, "wrong end of the program",
                   plan=plan, what=what, says=says, err=err[-500:])
    case.event("interrupted programs")


SCENARIOS = [
    Scenario(http, quick=60, thorough=1200, timeout=120),
    Scenario(starting, quick=120, thorough=2400, timeout=120),
    Scenario(rpc, quick=80, thorough=1600, timeout=120),
    Scenario(signals, quick=24, thorough=500, timeout=60),
]
