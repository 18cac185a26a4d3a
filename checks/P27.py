import asyncio
import os
import ssl

import aiomisc
from aiomisc.service.tcp import RobustTCPClient, TCPClient
from aiomisc.service.tls import RobustTLSClient

from vf import vloop
from vf.core import Scenario
from vf.util import Boom, eventually, own_host, own_port
from vf.vloop import VirtualLoop, run_real

RULE = (
    "scripted connection attempts (refused, reset, slow, established), "
    "handlers ending, failing or running at random virtual times, stops at "
    "any time, compared with a timed model; reconnecting to real TCP and TLS "
    "servers which drop connections; distinct by plan"
)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 1 / 8


class Pipe(asyncio.Transport):
    def __init__(self, protocol, extra):
        super().__init__(extra)
        self.protocol, self.closed, self.data = protocol, False, b""

    def write(self, data):
        self.data += bytes(data)

    def close(self):
        if not self.closed:
            self.closed = True
            asyncio.get_running_loop().call_soon(
                self.protocol.connection_lost, None)

    abort = close

    def is_closing(self):
        return self.closed


class ScriptLoop(VirtualLoop):
    """Connections are made by a script."""
    script = None
    attempts = None

    async def create_connection(self, protocol_factory, host=None, port=None,
                                **kw):
        n = len(self.attempts)
        delay, outcome = self.script[n % len(self.script)]
        rec = {"n": n, "begin": self.vtime, "end": None, "outcome": outcome,
               "to": (host, port)}
        self.attempts.append(rec)
        try:
            if delay:
                await asyncio.sleep(delay)
        except asyncio.CancelledError:
            rec["outcome"] = "cancelled"
            raise
        finally:
            rec["end"] = self.vtime
        if outcome == "ok":
            protocol = protocol_factory()
            transport = Pipe(protocol, {"n": n})
            protocol.connection_made(transport)
            return transport, protocol
        raise {"refused": ConnectionRefusedError, "reset": ConnectionResetError,
               "aborted": ConnectionAbortedError}[outcome](outcome)


def run_script(script, coro_func):
    loops = []

    class Loop(ScriptLoop):
        def __init__(self, *a, **kw):
            super().__init__(*a, **kw)
            self.script, self.attempts = script, []
            loops.append(self)
    saved = vloop.VirtualLoop
    vloop.VirtualLoop = Loop
    try:
        return vloop.run_virtual(coro_func)
    finally:
        vloop.VirtualLoop = saved


class Handler:
    """What handle_connection does, and the monitor of it."""

    def __init__(self, case, plans, cleanup):
        self.case, self.plans, self.cleanup = case, plans, cleanup
        self.calls = []
        self.active = 0

    async def __call__(self, reader, writer):
        loop = asyncio.get_running_loop()
        i = len(self.calls)
        hold, how = self.plans[i % len(self.plans)]
        rec = {"n": writer.get_extra_info("n"), "begin": loop.time(),
               "end": None, "how": how}
        self.calls.append(rec)
        self.active += 1
        self.case.expect(self.active == 1, "two-connections",
                         f"{self.calls[-2:]}")
        try:
            await asyncio.sleep(hold)
            if how == "raise":
                raise Boom(i)
            if how == "os":
                raise ConnectionResetError(i)
            if how == "forever":
                await asyncio.sleep(10 ** 6)
        except asyncio.CancelledError:
            rec["how"] = "cancelled"
            if self.cleanup:
                await asyncio.sleep(self.cleanup)
            raise
        finally:
            self.active -= 1
            rec["end"] = loop.time()


def grid(rng, top):
    return rng.randint(0, int(top / G)) * G


def random_script(rng, robust):
    good = rng.choice([0.3, 0.6, 0.9, 1])
    out = []
    for _ in range(rng.randint(1, 12)):
        out.append((rng.choice([0, 0, 0, G, 1]), "ok" if rng.random() < good
                    else rng.choice(["refused", "reset", "aborted"])))
    return out


def connect_outcome(script, i, attempts):
    """-> (index after, tries, success)"""
    for k in range(attempts):
        if script[(i + k) % len(script)][1] == "ok":
            return i + k + 1, k + 1, True
    return i + attempts, attempts, False


def robust(case):
    rng = case.rng
    attempts = rng.choice([1, 2, 3, 4, 9])
    retry = rng.choice([0, G, 1, 3, 3, 12])
    reconnect = rng.choice([0.5, 1, 2, 5, 5, 30])
    script = random_script(rng, True)
    plans = [(grid(rng, 4), rng.choice(
        ["raise", "raise", "os", "os", "raise", "return", "forever"]
        if rng.random() < 0.4 else ["raise", "os"]))
        for _ in range(rng.randint(1, 6))]
    cleanup = rng.choice([0, 0, G, 1])
    stop_at = grid(rng, rng.choice([40, 40, 150])) + G / 3
    case.trace(attempts, retry, reconnect, script, plans, cleanup, stop_at)
    case.describe(attempts=attempts, retry=retry, reconnect=reconnect,
                  script=script, handlers=plans, cleanup=cleanup,
                  stop_at=stop_at)
    handler = Handler(case, plans, cleanup)

    class Client(RobustTCPClient):
        connect_attempts = attempts
        connect_retry_timeout = retry
        reconnect_timeout = reconnect

        async def handle_connection(self, reader, writer):
            await handler(reader, writer)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        svc = Client("host.test", 1234)
        started_at = []
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            starting = asyncio.ensure_future(ep.start_services(svc))
            starting.add_done_callback(
                lambda _: started_at.append(loop.time()))
            await asyncio.sleep(stop_at)
            n_att, n_calls = len(loop.attempts), len(handler.calls)
            started = starting.done()
            if not started:
                # the start is interrupted
                starting.cancel()
                await asyncio.wait([starting])
            tstop = loop.time()
            await ep.stop_services(svc)
            took = loop.time() - tstop
            await asyncio.sleep(60)
            case.check(took <= cleanup + 1e-9, "slow-stop", f"{took}",
                       plan=case.sample)
            if not started:
                case.event("interrupted_start")
            case.check(len(loop.attempts) == n_att and
                       len(handler.calls) <= n_calls,
                       "alive-after-stop", f"{loop.attempts[n_att:]}",
                       plan=case.sample)
            case.check(handler.active == 0, "handler-survives-stop", "",
                       plan=case.sample)
        verify(case, loop, t0, t0 + stop_at, script, plans, attempts, retry,
               reconnect, handler, started_at)
    run_script(script, main)


def verify(case, loop, t0, t_stop, script, plans, attempts, retry, reconnect,
           handler, started_at):
    """Walks through the attempts and calls as the contract says."""
    att, calls = loop.attempts, handler.calls
    case.event("attempts", len(att))
    case.event("handled", len(calls))
    ai = ci = 0
    lo = hi = t0           # when the next attempt has to begin
    first_connected = None
    ended = False
    while True:
        # one connect()
        success = False
        for k in range(attempts):
            if ai == len(att):
                case.check(hi + 1e-9 >= t_stop, "no-attempt",
                           f"expected at {lo - t0}..{hi - t0}",
                           attempts=att, calls=calls, plan=case.sample)
                return
            a = att[ai]
            case.check(lo - 1e-9 <= a["begin"] <= hi + 1e-9, "attempt-time",
                       f"attempt {ai} at {a['begin'] - t0}, expected "
                       f"{lo - t0}..{hi - t0}", attempts=att, calls=calls,
                       plan=case.sample)
            case.check(a["to"] == ("host.test", 1234), "address",
                       repr(a["to"]))
            ai += 1
            if a["outcome"] == "cancelled" or a["end"] is None:
                case.check(ai == len(att) and ci == len(calls), "after-cancel",
                           "", attempts=att, plan=case.sample)
                return
            if a["outcome"] == "ok":
                success = True
                break
            lo = hi = a["end"] + retry
        if not success:
            last = att[ai - 1]["end"]
            if first_connected is None:
                # gives up: nothing more may happen
                case.check(ai == len(att) and ci == len(calls),
                           "attempt-after-failure", "", attempts=att,
                           plan=case.sample)
                case.event("gave_up")
                return
            lo, hi = last + reconnect, last + retry + reconnect
            case.event("reconnect_failed")
            continue
        if first_connected is None:
            first_connected = a["end"]
            if first_connected < t_stop:
                case.check(abs(started_at[0] - first_connected) < 1e-9,
                           "late-start", "started at "
                           f"{started_at[0] - t0}, connected at "
                           f"{first_connected - t0}", plan=case.sample)
        if ci == len(calls):
            case.check(a["end"] >= t_stop - 1e-9, "not-handled",
                       f"connection {a}", plan=case.sample)
            return
        c = calls[ci]
        case.check(c["n"] == a["n"] and abs(c["begin"] - a["end"]) < 1e-9,
                   "handler-connection", f"{c} for {a}", plan=case.sample)
        hold, how = plans[ci % len(plans)]
        ci += 1
        if c["how"] == "cancelled":
            case.check(t_stop <= c["end"] + 1e-9, "handler-cancelled",
                       f"{c}", plan=case.sample)
            case.event("stopped_while_handling")
            return
        case.check(abs(c["end"] - c["begin"] - hold) < 1e-9, "hold", repr(c))
        if how == "return":
            case.check(ai == len(att) and ci == len(calls),
                       "reconnect-after-end", "", attempts=att,
                       plan=case.sample)
            case.event("ended")
            return
        lo = hi = c["end"] + reconnect
        case.event("reconnects")


def plain(case):
    """TCPClient: retries, one connection, its failure is reported."""
    rng = case.rng
    attempts = rng.choice([1, 2, 3, 4, 5, 9])
    retry = rng.choice([0, G, 1, 3, 3, 12])
    script = random_script(rng, False)
    plans = [(grid(rng, 4), rng.choice(["raise", "os", "return", "forever"]))]
    cleanup = rng.choice([0, 0, G, 1])
    stop_at = grid(rng, rng.choice([20, 20, 60])) + G / 3
    case.trace(attempts, retry, script, plans, cleanup, stop_at)
    case.describe(attempts=attempts, retry=retry, script=script,
                  handlers=plans, cleanup=cleanup, stop_at=stop_at)
    handler = Handler(case, plans, cleanup)

    class Client(TCPClient):
        connect_attempts = attempts
        connect_retry_timeout = retry

        async def handle_connection(self, reader, writer):
            await handler(reader, writer)

    async def main():
        loop = asyncio.get_running_loop()
        t0 = loop.time()
        svc = Client("host.test", 1234)
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            starting = asyncio.ensure_future(ep.start_services(svc))
            await asyncio.wait([starting], timeout=stop_at)
            now = loop.time()
            if starting.done():
                _, tries, success = connect_outcome(script, 0, attempts)
                error = starting.exception()
                if success:
                    case.check(error is None, "start-failed", repr(error),
                               plan=case.sample)
                    case.check(len(handler.calls) == 1, "not-handled",
                               f"{handler.calls}", plan=case.sample)
                    case.check(
                        abs(now - loop.attempts[-1]["end"]) < 1e-9,
                        "late-start", f"{now - t0}", plan=case.sample)
                else:
                    case.check(isinstance(error, ConnectionError),
                               "failure-not-reported", repr(error),
                               plan=case.sample)
                    case.check(
                        str(error) == script[
                            (tries - 1) % len(script)][1],
                        "wrong-error", repr(error), plan=case.sample)
                    case.event("failed")
                case.check(len(loop.attempts) == tries, "attempts",
                           f"{len(loop.attempts)} instead of {tries}",
                           plan=case.sample)
            else:
                starting.cancel()
                await asyncio.wait([starting])
            await asyncio.sleep(max(0, stop_at - (loop.time() - t0)))
            for a, b in zip(loop.attempts, loop.attempts[1:]):
                case.check(abs(b["begin"] - a["end"] - retry) < 1e-9,
                           "attempt-time", f"{a} {b}", plan=case.sample)
            n = len(loop.attempts)
            calls = len(handler.calls)
            tstop = loop.time()
            await ep.stop_services(svc)
            case.check(loop.time() - tstop <= cleanup + 1e-9, "slow-stop",
                       f"{loop.time() - tstop}", plan=case.sample)
            await asyncio.sleep(30)
            case.check(len(loop.attempts) == n and
                       len(handler.calls) == calls and not handler.active,
                       "alive-after-stop", "", plan=case.sample)
            case.event("attempts", n)
            case.event("handled", calls)
    run_script(script, main)


def real(case):
    """Real servers which drop their clients."""
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    tls = rng.random() < 0.5
    drops = rng.randint(1, 5)
    modes = [rng.choice(["close", "abort", "restart"]) for _ in range(drops)]
    case.trace(kind, tls, modes, rng.random())
    case.describe(loop=kind, tls=tls, modes=modes)
    served = []

    def pem(name):
        return os.path.join(HERE, "data", "certs", name)

    class Mixin:
        reconnect_timeout = 0.01
        connect_retry_timeout = 0.01
        connect_attempts = 3
        active = 0

        async def handle_connection(self, reader, writer):
            self.active += 1
            case.expect(self.active == 1, "two-connections", "")
            try:
                while True:
                    writer.write(b"hello\n")
                    line = await reader.readline()
                    if line != b"hello\n":
                        raise ConnectionError(line)
                    await asyncio.sleep(0.002)
            finally:
                self.active -= 1
                writer.close()

    class Tcp(Mixin, RobustTCPClient):
        pass

    class Tls(Mixin, RobustTLSClient):
        pass

    async def main():
        writers = set()

        async def on_client(reader, writer):
            served.append(0)
            writers.add(writer)
            try:
                while True:
                    line = await reader.readline()
                    if not line:
                        break
                    served[-1] += 1
                    writer.write(line)
            except OSError:
                pass
            finally:
                writers.discard(writer)
                writer.close()
        ctx = None
        if tls:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.load_cert_chain(pem("server.pem"), pem("server.key"))
        # (the certificate is for this address only)
        host = "127.0.0.1" if tls else own_host()
        port = own_port() if tls else 0
        srv = await asyncio.start_server(on_client, host, port, ssl=ctx)
        port = srv.sockets[0].getsockname()[1]
        kw = dict(cert=pem("client.pem"), key=pem("client.key"),
                  ca=pem("goodca.pem")) if tls else {}
        svc = (Tls if tls else Tcp)(host, port, **kw)
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            await asyncio.wait_for(ep.start_services(svc), 20)
            for i, mode in enumerate(modes):
                if not await eventually(
                    lambda: len(served) == i + 1 and served[-1], 20,
                ):
                    case.soft("no-reconnect", f"after {i} drops {served}",
                              plan=case.sample)
                if mode == "restart":
                    srv.close()
                for w in list(writers):
                    if mode == "abort":
                        w.transport.abort()
                    else:
                        w.close()
                if mode == "restart":
                    await asyncio.sleep(rng.choice([0, 0.02, 0.1]))
                    srv = await asyncio.start_server(
                        on_client, host, port, ssl=ctx,
                        reuse_port=True)
                case.event("drops")
            if not await eventually(
                lambda: len(served) == drops + 1 and served[-1], 20,
            ):
                case.soft("no-reconnect", f"{served}", plan=case.sample)
            await asyncio.wait_for(ep.stop_services(svc), 20)
            case.check(svc.active == 0, "handler-survives-stop", "")
            n = len(served)
            await asyncio.sleep(0.05)
            case.check(len(served) == n, "alive-after-stop", "")
        srv.close()
        for w in list(writers):
            w.transport.abort()
    run_real(main, kind=kind)


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(robust, 3000),
    Scenario(plain, 2000),
    Scenario(real, 60, timeout=120),
]
