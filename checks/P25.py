import asyncio
import os
import random
import socket
import ssl
import time

import aiomisc
from aiomisc.service import TCPServer, TLSServer, UDPServer

from vf.core import Scenario
from vf.util import Boom
from vf.util import eventually, own_host, own_port
from vf.vloop import run_real

RULE = (
    "clients of TCP, TLS and UDP servers exchanging random messages, failing, "
    "disconnecting, idling and connecting late, while the server is stopped "
    "(and started again) at random moments; asyncio and uvloop; distinct by "
    "plan"
)
WAIT = 20
CERTS = os.path.join(os.environ.get("VF_REPO", "/repo"), "tests", "certs")


def cert(name):
    return os.path.join(CERTS, name)


class Monitor:
    def __init__(self, case):
        self.case = case
        self.started = {}        # token -> number of handlers
        self.active = {}         # handler id -> token
        self.n = 0
        self.stopped = False     # stop() has returned
        self.cancelled = 0
        self.datagrams = {}

    def begin(self, token):
        self.n += 1
        self.active[self.n] = token
        if self.stopped:
            self.case.note("handler-after-stop",
                           f"{token} started after stop() returned")
        return self.n

    def end(self, n):
        del self.active[n]
        if self.stopped:
            self.case.note("handler-after-stop",
                           "a handler ended after stop() returned")


async def conversation(mon, reader, writer, cleanup):
    """The server's side: the first line says what to do."""
    me = mon.begin(None)
    try:
        head = await reader.readline()
        if not head:
            return
        mode, token = head.decode().split()
        mon.active[me] = token
        mon.started[token] = mon.started.get(token, 0) + 1
        writer.write(head)
        if mode == "raise":
            raise Boom(token)
        if mode == "return":
            return
        if mode == "hold":
            await asyncio.sleep(1000)
        while True:
            line = await reader.readline()
            if not line:
                break
            writer.write(token.encode() + b":" + line)
            await writer.drain()
        if mode == "close":
            writer.close()
    except asyncio.CancelledError:
        mon.cancelled += 1
        if cleanup:
            await asyncio.sleep(cleanup)
        writer.write(b"bye\n")
        raise
    finally:
        mon.end(me)


class Peer:
    """One client."""

    def __init__(self, case, mon, n, plan, sslctx):
        self.case, self.mon, self.n, self.plan = case, mon, n, plan
        self.sslctx = sslctx
        self.token = f"t{n}x{case.seed.replace(':', '_')}"
        self.eof = None
        self.rest = b""
        self.served = False

    async def read(self, coro, what):
        try:
            return await asyncio.wait_for(coro, WAIT)
        except asyncio.TimeoutError:
            self.case.soft("no-answer", f"{what} {self.plan}")

    async def run(self, address, port, stopping):
        plan = self.plan
        await asyncio.sleep(plan["at"])
        late = stopping.is_set()
        try:
            reader, writer = await asyncio.wait_for(asyncio.open_connection(
                address, port, ssl=self.sslctx,
                server_hostname="localhost" if self.sslctx else None), WAIT)
        except OSError as e:
            if not stopping.is_set() and not late:
                self.case.fail("refused", repr(e), plan=plan)
            self.case.event("refused")
            return
        except asyncio.TimeoutError:
            self.case.soft("connect-timeout", repr(plan))
        try:
            await self.talk(reader, writer, stopping)
        except (OSError, asyncio.IncompleteReadError, ssl.SSLError) as e:
            if not stopping.is_set():
                self.case.fail("connection-lost", repr(e), plan=plan)
            self.eof = True
        finally:
            if plan["end"] == "abort":
                writer.transport.abort()
            else:
                writer.close()

    async def talk(self, reader, writer, stopping):
        plan, case, rng = self.plan, self.case, random.Random(self.token)
        mode = plan["mode"]
        if mode == "silent":
            await self.until_eof(reader, stopping)
            return
        head = f"{mode} {self.token}\n".encode()
        writer.write(head)
        got = await self.read(reader.readline(), "greeting")
        if got != head:
            case.check(stopping.is_set(), "wrong-greeting", repr(got),
                       plan=plan)
            self.eof = True
            return
        self.served = True
        case.event("served")
        if mode in ("echo", "close"):
            for i in range(plan["lines"]):
                msg = b"%d-%d-" % (self.n, i) + b"x" * rng.choice(
                    [0, 1, 100, 5000, 60000]) + b"\n"
                writer.write(msg)
                got = await self.read(reader.readline(), "echo")
                want = self.token.encode() + b":" + msg
                if got != want:
                    case.check(stopping.is_set() and (
                        got == b"bye\n" or want.startswith(got)),
                        "wrong-echo", f"{got[:80]}", plan=plan)
                    self.rest = got
                    break
                case.event("echoed")
                await asyncio.sleep(plan["pause"])
        if plan["end"] == "wait":
            await self.until_eof(reader, stopping)

    async def until_eof(self, reader, stopping):
        """Stays connected: the stop of the server has to end it."""
        more = asyncio.ensure_future(reader.read())
        await asyncio.wait([more, asyncio.ensure_future(stopping.wait())],
                           return_when=asyncio.FIRST_COMPLETED)
        done, _ = await asyncio.wait([more], timeout=WAIT)
        if not done:
            more.cancel()
            self.case.soft("connection-survives-stop", f"{self.plan}")
        self.eof = True
        try:
            self.rest += more.result()
        except (OSError, ssl.SSLError):
            pass


def streams(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    tls = rng.random() < 0.4
    own = rng.random() < 0.25
    address = rng.choice([own_host(), own_host(), "::1"])
    rounds = 1 if own else rng.choice([1, 1, 2])
    cleanup = rng.choice([0, 0, 0.01, 0.1])
    duration = rng.choice([0, 0.005, 0.05, 0.15])
    plans = [{
        "mode": rng.choice(["echo", "echo", "close", "hold", "raise",
                            "return", "silent"]),
        "lines": rng.randint(0, 6), "pause": rng.choice([0, 0, 0.01]),
        "end": rng.choice(["wait", "wait", "close", "abort"]),
        "at": rng.choice([0, 0, rng.random() * (duration + 0.05)]),
    } for _ in range(rng.randint(1, 12))]
    raw = rng.choice([0, 0, 1, 2])
    case.trace(kind, tls, own, address, rounds, cleanup, duration, plans, raw)
    case.describe(loop=kind, tls=tls, address=address, rounds=rounds,
                  cleanup=cleanup, duration=duration, clients=plans)
    mon = Monitor(case)

    class Mixin:
        async def handle_client(self, reader, writer):
            await conversation(mon, reader, writer, cleanup)

    class Tcp(Mixin, TCPServer):
        pass

    class Tls(Mixin, TLSServer):
        pass

    async def main():
        family = socket.AF_INET6 if ":" in address else socket.AF_INET
        port = 0
        if address == "::1":
            port = own_port(family, host=address)
        kw = dict(address=address, port=port)
        if own:
            s = socket.socket(family)
            s.bind((address, port))
            kw = dict(sock=s)
        ctx = None
        if tls:
            server = Tls(cert=cert("server.pem"), key=cert("server.key"),
                         **kw)
            ctx = ssl.create_default_context(cafile=cert("ca.pem"))
        else:
            server = Tcp(**kw)
        n = 0
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            for _ in range(rounds):
                mon.stopped = False
                await ep.start_services(server)
                port = server.port
                case.check(server.address == address and port > 0, "address",
                           f"{server.address}:{port}")
                stopping = asyncio.Event()
                peers = [Peer(case, mon, n + i, p, ctx)
                         for i, p in enumerate(plans)]
                n += len(peers)
                tasks = [asyncio.ensure_future(
                    p.run(address, port, stopping)) for p in peers]
                # which do not even begin the handshake
                socks = []
                for _ in range(raw):
                    s = socket.create_connection((address, port))
                    socks.append(s)
                await asyncio.sleep(duration)
                stopping.set()
                t0 = time.monotonic()
                try:
                    await asyncio.wait_for(ep.stop_services(server), WAIT)
                except asyncio.TimeoutError:
                    case.soft("stop-hangs", "", plan=case.sample)
                mon.stopped = True
                case.event("stops")
                case.event("cancelled_handlers", mon.cancelled)
                case.check(
                    not mon.active, "handler-survives-stop",
                    f"{mon.active} {time.monotonic() - t0:.3f}s",
                    plan=case.sample)
                await asyncio.sleep(rng.choice([0, 0.02, 0.1]))
                for t in tasks:
                    await t
                for s in socks:
                    s.close()
                case.check(not mon.active, "handler-after-stop",
                           f"{mon.active}", plan=case.sample)
                for p in peers:
                    if p.served:
                        case.check(
                            mon.started.get(p.token) == 1, "handled-twice",
                            f"{mon.started.get(p.token)}", plan=p.plan)
                    if p.served and p.plan["mode"] == "hold" and p.eof and (
                        not tls
                    ):
                        case.check(p.rest == b"bye\n", "cleanup-lost",
                                   repr(p.rest), plan=p.plan)
                        case.event("bye")
                case.check(
                    all(v == 1 for v in mon.started.values()),
                    "handled-twice", repr(mon.started))
    run_real(main, kind=kind)


class Datagrams(asyncio.DatagramProtocol):
    def __init__(self):
        self.got = []
        self.event = asyncio.Event()

    def connection_made(self, transport):
        self.transport = transport

    def datagram_received(self, data, addr):
        self.got.append((data, addr[:2]))
        self.event.set()

    def error_received(self, exc):
        pass


def datagrams(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    address = rng.choice([own_host(), own_host(), "::1"])
    own = rng.random() < 0.25
    rounds = 1 if own else rng.choice([1, 1, 2])
    sync = rng.random() < 0.2
    cleanup = rng.choice([0, 0, 0.01, 0.05])
    nclients = rng.randint(1, 4)
    batches = [[
        (rng.choice("reeehhs"), rng.choice([0, 1, 10, 500, 1400]))
        for _ in range(rng.randint(1, 8))
    ] for _ in range(rng.randint(1, 4))]
    empties = rng.choice([0, 0, 1, 3])
    case.trace(kind, address, own, rounds, sync, cleanup, nclients, batches,
               empties)
    case.describe(loop=kind, address=address, sync=sync, cleanup=cleanup,
                  clients=nclients, batches=batches, empties=empties)
    mon = Monitor(case)
    seen = {}

    class Async(UDPServer):
        async def handle_datagram(self, data, addr):
            me = mon.begin(data[:20])
            try:
                seen[data, addr[:2]] = seen.get((data, addr[:2]), 0) + 1
                mode = data[:1]
                if mode == b"r":
                    raise Boom(data)
                if mode == b"s":
                    await asyncio.sleep(0.001)
                if mode == b"h":
                    await asyncio.sleep(1000)
                self.sendto(data[::-1], addr)
            except asyncio.CancelledError:
                mon.cancelled += 1
                if cleanup:
                    await asyncio.sleep(cleanup)
                raise
            finally:
                mon.end(me)

    class Sync(UDPServer):
        def handle_datagram(self, data, addr):
            me = mon.begin(data[:20])
            try:
                seen[data, addr[:2]] = seen.get((data, addr[:2]), 0) + 1
                if data[:1] == b"r":
                    raise Boom(data)
                if data[:1] != b"h":
                    self.sendto(data[::-1], addr)
            finally:
                mon.end(me)

    async def main():
        loop = asyncio.get_running_loop()
        family = socket.AF_INET6 if ":" in address else socket.AF_INET
        port = 0
        if address == "::1":
            port = own_port(family, socket.SOCK_DGRAM, address)
        kw = dict(address=address, port=port)
        if own:
            s = socket.socket(family, socket.SOCK_DGRAM)
            s.bind((address, port))
            kw = dict(sock=s)
        server = (Sync if sync else Async)(**kw)
        n = 0
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            for _ in range(rounds):
                mon.stopped = False
                await ep.start_services(server)
                port = server.port
                clients = [await loop.create_datagram_endpoint(
                    Datagrams, remote_addr=(address, port))
                    for _ in range(nclients)]
                case.check(server.address == address and port > 0, "address",
                           f"{server.address}:{port}")
                if empties:
                    # (transports of asyncio don't send them)
                    with socket.socket(family, socket.SOCK_DGRAM) as raw:
                        raw.bind((address, 0))
                        key = b"", raw.getsockname()[:2]
                        for _ in range(empties):
                            raw.sendto(b"", (address, port))
                        if not await eventually(
                                lambda: seen.get(key, 0) >= empties, WAIT):
                            case.soft("empty-datagram-lost",
                                      f"{seen.get(key, 0)} of {empties}")
                        case.event("empty_datagrams", empties)
                    case.check(seen.pop(key) == empties, "handled-twice",
                               "empty datagram")
                for batch in batches:
                    expected = []
                    for tr, proto in clients:
                        proto.got.clear()
                        want = []
                        for mode, size in batch:
                            n += 1
                            data = f"{mode}{n}-".encode() + bytes(
                                [n % 256]) * size
                            tr.sendto(data)
                            here = tr.get_extra_info("sockname")[:2]
                            expected.append((data, here))
                            if mode in "es":
                                want.append(data[::-1])
                        proto.want = want
                    end = loop.time() + WAIT
                    while loop.time() < end:
                        if all(len(p.got) >= len(p.want)
                               for _, p in clients) and all(
                                   k in seen for k in expected):
                            break
                        await asyncio.sleep(0.001)
                    for key in expected:
                        if key not in seen:
                            case.soft("datagram-lost", repr(key[0][:30]))
                        case.check(seen[key] == 1, "handled-twice",
                                   repr(key[0][:30]))
                    for _, p in clients:
                        got = sorted(d for d, _ in p.got)
                        if len(got) < len(p.want):
                            case.soft("reply-lost", f"{len(got)} of "
                                      f"{len(p.want)}")
                        case.check(got == sorted(p.want), "wrong-reply",
                                   f"{got} {p.want}")
                    case.event("datagrams", len(expected))
                own_addrs = {tr.get_extra_info("sockname")[:2]
                             for tr, _ in clients}
                # (a late datagram of another execution might come to the
                # reused port)
                total = sum(v for (data, addr), v in seen.items()
                            if addr in own_addrs or
                            not data.startswith(b"h-late"))
                case.check(set(seen) >= set(expected) and all(
                    v == 1 for (_, addr), v in seen.items()
                    if addr in own_addrs), "invented-datagram", "")
                case.check(total <= n, "invented-datagram",
                           f"{total} of {n}")

                async def late():
                    # goes on sending while the server is stopped
                    for i in range(30):
                        for tr, _ in clients:
                            tr.sendto(b"h-late%d" % i)
                        await asyncio.sleep(0.002)
                sender = asyncio.ensure_future(late())
                await asyncio.sleep(rng.choice([0, 0.003, 0.01]))
                try:
                    await asyncio.wait_for(ep.stop_services(server), WAIT)
                except asyncio.TimeoutError:
                    case.soft("stop-hangs", "", plan=case.sample)
                mon.stopped = True
                case.event("stops")
                case.event("cancelled_handlers", mon.cancelled)
                case.check(not mon.active, "handler-survives-stop",
                           f"{list(mon.active.values())[:5]}",
                           plan=case.sample)
                await sender
                await asyncio.sleep(0.005)
                case.check(not mon.active, "handler-after-stop",
                           f"{list(mon.active.values())[:5]}",
                           plan=case.sample)
                for tr, _ in clients:
                    tr.close()
                n += 30 * len(clients)
                for k in list(seen):
                    if k[0].startswith(b"h-late"):
                        del seen[k]
    run_real(main, kind=kind)


SCENARIOS = [
    Scenario(streams, 400, timeout=120),
    Scenario(datagrams, 250, timeout=120),
]
