import asyncio
import socket
import struct
from collections import Counter

import aiomisc
import dnslib
from aiomisc.service.dns import DNSStore, DNSZone, TCPDNSServer, UDPDNSServer

from checks.dnsmon import CODES, Spec, canon
from vf.core import Scenario
from vf.vloop import run_real

RULE = (
    "random stores of records (all types, up to hundreds per name) served "
    "over UDP and TCP (IPv4/IPv6, asyncio/uvloop) to clients sending "
    "concurrent, pipelined, split, EDNS, unknown-type and malformed requests, "
    "while the store changes between batches; distinct by store and requests"
)
TIMEOUT = 20
UNKNOWN = [65280, 1000, 3, 254]
ZONE = "test."
LONG = ".".join(["z" * 60] * 3) + ".test."


class Store:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        self.store = DNSStore()
        self.zone = DNSZone(ZONE)
        self.store.add_zone(self.zone)
        self.specs = {}

    def fill(self):
        rng = self.rng
        names = ["test.", "a.test.", "b.a.test.", "long" + "g" * 40 + ".test.",
                 LONG]
        for _ in range(rng.randint(1, 12)):
            s = Spec(rng, rng.choice(names), variants=6)
            self.add(s)
        # big answers
        for _ in range(rng.randint(0, 3)):
            name = f"big{rng.randrange(100)}." + rng.choice(
                ["test.", "test.", LONG])
            ttl = rng.choice([1, 300])
            for i in range(rng.choice([10, 25, 28, 29, 30, 60, 250, 900])):
                s = Spec(rng, name, "A", ttl=ttl)
                s.args = s.raw = (f"10.1.{i // 250}.{i % 250}",)
                s.key = ("A", name, repr(s.args), s.cls)
                self.add(s)

    def add(self, s):
        if s.key not in self.specs:
            self.specs[s.key] = s
            self.zone.add_record(s.create())

    def mutate(self):
        rng = self.rng
        for _ in range(rng.randint(0, 4)):
            if self.specs and rng.random() < 0.5:
                s = self.specs.pop(rng.choice(list(self.specs)))
                self.zone.remove_record(s.create())
            else:
                self.add(Spec(rng, "a.test.", variants=6))

    def answers(self, name, qtype):
        return Counter(
            s.wire() for s in self.specs.values()
            if s.name == name and CODES[s.kind] == qtype)

    def query(self):
        rng = self.rng
        r = rng.random()
        if r < 0.7 and self.specs:
            s = rng.choice(list(self.specs.values()))
            name, qtype = s.name, CODES[s.kind]
        elif r < 0.85:
            name = rng.choice(["a.test.", "nx.test.", "other.", "xtest.",
                               "test.com."])
            qtype = rng.choice(list(CODES.values()))
        else:
            name, qtype = "a.test.", rng.choice(UNKNOWN)
        return Query(rng, name, qtype)


class Query:
    def __init__(self, rng, name, qtype):
        self.name, self.qtype = name, qtype
        self.edns = rng.choice([None, None, 0, 512, 513, 1232, 4096, 65535])
        self.rd = rng.randrange(2)
        d = dnslib.DNSRecord(
            # (the garbage has other ids)
            dnslib.DNSHeader(id=rng.randrange(0x200, 0xfff0), rd=self.rd),
            q=dnslib.DNSQuestion(name, qtype))
        self.id = d.header.id
        # other additional records may come around
        self.extra = [
            rng.random() < 0.2 if self.edns is not None or rng.random() < 0.2
            else False for _ in range(2)
        ]
        other = dnslib.RR(name, dnslib.QTYPE.A, rdata=dnslib.A("192.0.2.1"))
        if self.extra[0]:
            d.add_ar(other)
        if self.edns is not None:
            d.add_ar(dnslib.EDNS0(udp_len=self.edns))
        if self.extra[1]:
            d.add_ar(other)
        self.data = d.pack()

    def __repr__(self):
        return f"<{self.name} {self.qtype} edns={self.edns} {self.extra}>"




def judge(case, q, want, reply, udp):
    case.event("replies")
    try:
        d = dnslib.DNSRecord.parse(reply)
    except Exception as e:
        case.fail("malformed-reply", repr(e), query=repr(q), udp=udp)
    h = d.header
    case.check(h.id == q.id, "wrong-id", f"{h.id} instead of {q.id}",
               query=repr(q))
    case.check(h.qr == 1, "not-a-reply", repr(q))
    case.check(h.rd == q.rd, "rd-not-copied", repr(q))
    case.check(
        len(d.questions) == 1 and str(d.q.qname) == q.name and
        d.q.qtype == q.qtype and d.q.qclass == 1,
        "wrong-question", f"{d.q} for {q}")
    got = Counter(canon(rr, reply) for rr in d.rr)
    if q.qtype not in UNKNOWN:
        opts = [rr.edns_len for rr in d.ar
                if rr.rtype == dnslib.QTYPE.OPT]
        case.check(opts == ([] if q.edns is None else [q.edns]), "edns",
                   f"{opts}", query=repr(q))
    limit = 512 if q.edns is None else max(q.edns, 512)
    if q.qtype in UNKNOWN:
        case.check(h.rcode == dnslib.RCODE.SERVFAIL and not got,
                   "unknown-type", f"rcode {h.rcode}", query=repr(q))
        case.event("servfail")
        return
    if not want:
        case.check(h.rcode == dnslib.RCODE.NXDOMAIN and not got and not h.tc,
                   "empty-answer", f"rcode {h.rcode} tc {h.tc} {d.rr}",
                   query=repr(q))
        case.event("nxdomain")
        return
    case.check(h.rcode == 0, "rcode", f"{h.rcode}", query=repr(q))
    if not udp:
        case.check(got == want and not h.tc, "tcp-answers",
                   f"tc={h.tc} {len(d.rr)} of {sum(want.values())}",
                   query=repr(q), missing=list((want - got))[:3],
                   extra=list((got - want))[:3])
        case.event("tcp_answers", len(d.rr))
        return
    case.event("udp_answers", len(d.rr))
    if q.edns is not None:
        case.check(len(reply) <= limit, "larger-than-edns",
                   f"{len(reply)} > {limit}", query=repr(q))
    if h.tc:
        case.event("truncated")
        case.check(not (got - want), "foreign-answers",
                   f"{list(got - want)[:3]}", query=repr(q))
        if len(d.rr) < sum(want.values()):
            # dropped only when it could not have fitted
            case.check(q.edns is not None, "dropped-without-edns", repr(q))
        else:
            case.check(len(reply) > 512, "needlessly-truncated",
                       f"{len(reply)} bytes", query=repr(q))
    else:
        case.check(got == want, "udp-answers",
                   f"{len(d.rr)} of {sum(want.values())}, not marked",
                   query=repr(q), missing=list((want - got))[:3],
                   extra=list((got - want))[:3])
        case.check(len(reply) <= 512 or (
            q.edns is not None and len(reply) <= limit), "not-marked",
            f"{len(reply)} bytes", query=repr(q))


def packed_size(q, want_specs):
    reply = dnslib.DNSRecord.parse(q.data).reply()
    if q.edns is not None:
        reply.add_ar(dnslib.EDNS0(udp_len=q.edns))
    for s in want_specs:
        reply.add_answer(dnslib.RR(s.name, CODES[s.kind], 1, s.ttl,
                                   getattr(dnslib, s.kind)(*s.raw)))
    return len(reply.pack())


class UDPClient(asyncio.DatagramProtocol):
    def __init__(self):
        self.got = asyncio.Queue()

    def connection_made(self, transport):
        self.transport = transport

    def datagram_received(self, data, addr):
        self.got.put_nowait(data)

    def error_received(self, exc):
        self.got.put_nowait(exc)


GARBAGE = [b"", b"\0", b"\xff" * 11, b"\xff" * 40, b"\0" * 12,
           b"\1\2\1\0\0\1\0\0\0\0\0\0\xc0\x0c\0\1\0\1"]


async def udp_batch(case, store, address, port):
    rng = case.rng
    loop = asyncio.get_running_loop()
    transport, proto = await loop.create_datagram_endpoint(
        UDPClient, remote_addr=(address, port))
    try:
        queries = {}
        for _ in range(rng.randint(1, 12)):
            q = store.query()
            if q.id in queries:
                continue
            queries[q.id] = q, store.answers(q.name, q.qtype)
            if rng.random() < 0.2:
                transport.sendto(rng.choice(GARBAGE[1:]))
                case.event("garbage")
            transport.sendto(q.data)
            if rng.random() < 0.3:
                await asyncio.sleep(0)
        while queries:
            try:
                data = await asyncio.wait_for(proto.got.get(), TIMEOUT)
            except asyncio.TimeoutError:
                case.soft("no-udp-reply", repr(queries))
            if isinstance(data, Exception):
                case.soft("udp-error", repr(data))
            if len(data) < 12:
                case.fail("malformed-reply", repr(data))
            ident = struct.unpack("!H", data[:2])[0]
            if ident not in queries:
                # an answer to the garbage is an error at most
                flags = data[3] & 15
                case.check(flags != 0 or not data[6:8].strip(b"\0"),
                           "unexpected-reply", repr(data[:60]))
                continue
            q, want = queries.pop(ident)
            judge(case, q, want, data, True)
            if want and q.qtype not in UNKNOWN:
                specs = [s for s in store.specs.values()
                         if s.name == q.name and CODES[s.kind] == q.qtype]
                size = packed_size(q, specs)
                d = dnslib.DNSRecord.parse(data)
                if size <= 512:
                    case.check(not d.header.tc and len(d.rr) == len(specs),
                               "needlessly-truncated", f"size {size}",
                               query=repr(q))
                    case.event("fits")
                elif q.edns is None or q.edns < size:
                    case.check(d.header.tc, "not-marked", f"size {size}",
                               query=repr(q))
                    case.event("does_not_fit")
                elif len(d.rr) != len(specs):
                    case.fail("dropped", f"{len(d.rr)} of {len(specs)}, "
                              f"size {size}", query=repr(q))
    finally:
        transport.close()


async def tcp_batch(case, store, address, port):
    rng = case.rng
    reader, writer = await asyncio.open_connection(address, port)
    try:
        queries = []
        stream = b""
        for _ in range(rng.randint(1, 12)):
            q = store.query()
            queries.append((q, store.answers(q.name, q.qtype)))
            stream += struct.pack("!H", len(q.data)) + q.data
        ending = rng.choice(["close", "close", "truncated", "garbage", "eof",
                             "half"])
        if ending == "truncated":
            stream += struct.pack("!H", 100) + b"x" * rng.randint(0, 99)
        elif ending == "half":
            stream += b"\0"
        elif ending == "garbage":
            g = rng.choice(GARBAGE)
            stream += struct.pack("!H", len(g)) + g
        case.event("tcp_" + ending)

        async def send():
            pos = 0
            while pos < len(stream):
                n = rng.choice([1, 1, 2, 3, 17, 100, 10000])
                writer.write(stream[pos:pos + n])
                pos += n
                await writer.drain()
                if rng.random() < 0.3:
                    await asyncio.sleep(rng.choice([0, 0, 0.001]))
            if ending in ("eof", "truncated", "half"):
                writer.write_eof()
        sender = asyncio.ensure_future(send())
        try:
            for q, want in queries:
                try:
                    head = await asyncio.wait_for(reader.readexactly(2),
                                                  TIMEOUT)
                    data = await asyncio.wait_for(
                        reader.readexactly(struct.unpack("!H", head)[0]),
                        TIMEOUT)
                except asyncio.TimeoutError:
                    case.soft("no-tcp-reply", repr(q))
                except (asyncio.IncompleteReadError, OSError) as e:
                    case.fail("tcp-connection-lost", repr(e), query=repr(q),
                              ending=ending)
                judge(case, q, want, data, False)
            await sender
            if ending in ("eof", "truncated", "half"):
                try:
                    rest = await asyncio.wait_for(reader.read(), TIMEOUT)
                except asyncio.TimeoutError:
                    case.soft("tcp-not-closed", ending)
                except OSError:
                    rest = b""
                case.check(rest == b"", "unexpected-tcp-data", repr(rest))
        finally:
            sender.cancel()
    finally:
        writer.close()


def serve(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    address = rng.choice(["127.0.0.1", "127.0.0.1", "::1"])
    own = rng.random() < 0.3
    store = Store(case)
    store.fill()
    case.trace(kind, address, own, *map(repr, sorted(store.specs)))
    case.describe(loop=kind, address=address, records=len(store.specs))

    def args(type_):
        if not own:
            return dict(address=address, port=0)
        s = socket.socket(
            socket.AF_INET6 if ":" in address else socket.AF_INET, type_)
        s.bind((address, 0))
        return dict(sock=s)

    async def main():
        udp = UDPDNSServer(store=store.store, **args(socket.SOCK_DGRAM))
        tcp = TCPDNSServer(store=store.store, **args(socket.SOCK_STREAM))
        async with aiomisc.entrypoint(udp, tcp, log_config=False,
                                      catch_signals=()):
            for _ in range(rng.randint(1, 4)):
                jobs = []
                for _ in range(rng.randint(1, 5)):
                    if rng.random() < 0.5:
                        jobs.append(udp_batch(case, store, address, udp.port))
                    else:
                        jobs.append(tcp_batch(case, store, address, tcp.port))
                await asyncio.gather(*jobs)
                store.mutate()
    run_real(main, kind=kind)


SCENARIOS = [Scenario(serve, 300, 6000, timeout=120)]
BUDGET = {"quick": 60, "thorough": 1500}
