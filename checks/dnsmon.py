"""Random DNS records described independently of the code under test."""
from dataclasses import replace

import dnslib
from aiomisc.service.dns import records as R

CODES = {
    "A": 1, "NS": 2, "CNAME": 5, "SOA": 6, "PTR": 12, "MX": 15, "TXT": 16,
    "RP": 17, "AAAA": 28, "SRV": 33, "NAPTR": 35, "DNAME": 39, "DS": 43,
    "SSHFP": 44, "RRSIG": 46, "NSEC": 47, "DNSKEY": 48, "TLSA": 52,
    "CAA": 257, "LOC": 29, "HTTPS": 65,
}
LABELS = ["a", "b", "c", "xa", "ab", "test", "com", "xn--80ak", "_srv",
          "a-b", "0", "q" * 60]


def random_name(rng, depth=4, labels=LABELS):
    return ".".join(
        rng.choice(labels) for _ in range(rng.randint(1, depth))
    ) + "."


class Spec:
    """One record: what was asked for."""

    def __init__(self, rng, name, kind=None, variants=3, ttl=None):
        self.name = name
        self.kind = kind = kind or rng.choice(list(CODES))
        self.ttl = ttl if ttl is not None else rng.choice(
            [0, 1, 60, 3600, 86400, 2 ** 31 - 1])
        v = rng.randrange(variants)
        host = ["h.test.", "a.b.c.", name][v % 3] + ("" if v < 3 else "x.")
        num = [0, 1, 255][v % 3]
        num16 = [0, 1, 255, 256, 65535, 4097][v % 6]
        blob = bytes([v, 255, 0, 7]) * (1 + v)
        self.args, raw = {
            "A": lambda: ((f"10.{v}.0.255",), None),
            "AAAA": lambda: ((f"2001:db8::{v + 1:x}",), None),
            "NS": lambda: ((host,), None),
            "CNAME": lambda: ((host,), None),
            "PTR": lambda: ((host,), None),
            "DNAME": lambda: ((host,), None),
            "MX": lambda: ((host, num16), None),
            "TXT": lambda: (("t" * v * 50 + "x" + str(v),), None),
            "SOA": lambda: (
                (host, "admin.test.", v, 2, 3, 4, 5),
                (host, "admin.test.", (v, 2, 3, 4, 5))),
            "SRV": lambda: ((num16, 300 * v, 65535 - v, host), None),
            "NAPTR": lambda: (
                (num16, 300 * v, "S", "SIP+D2U", "!x!", host),
                (num16, 300 * v, b"S", b"SIP+D2U", b"!x!", host)),
            "LOC": lambda: ((12.25 + v, -56.5, 90.0 + v, 1.0, 2.0, 3.0),
                            None),
            "HTTPS": lambda: (
                (1 + v, host, ["alpn=h2", f"port={443 + v}"]),
                (1 + v, [p.encode() for p in host.split(".") if p],
                 [(1, b"\x02h2"), (3, (443 + v).to_bytes(2, "big"))])),
            "CAA": lambda: ((num, "issue", f"ca{v}.test"), None),
            "DS": lambda: ((num, 5, 1, blob), None),
            "DNSKEY": lambda: ((256 + v, 3, 8, blob), None),
            "RRSIG": lambda: ((1, 8, 3, 60, 2000 + v, 1000, 7, host, blob),
                              None),
            "NSEC": lambda: ((host, ["A", "MX", "TXT"][:1 + v % 3]), None),
            "RP": lambda: ((host, "txt.test."), None),
            "TLSA": lambda: ((num % 4, 1, 1, blob), None),
            "SSHFP": lambda: ((1 + num % 4, 1, blob), None),
        }[kind]()
        self.raw = self.args if raw is None else raw
        self.cls = rng.choice([1] * 12 + [3, 4])
        self.key = (kind, name, repr(self.args), self.cls)

    def create(self):
        rec = getattr(R, self.kind).create(self.name, *self.args,
                                           ttl=self.ttl)
        if self.cls != 1:
            rec = replace(rec, cls=R.DNSClass(self.cls))
        return rec

    def wire(self):
        """What a client has to see in the answer section."""
        rr = dnslib.RR(self.name, CODES[self.kind], self.cls,
                       self.ttl,
                       getattr(dnslib, self.kind)(*self.raw))
        buf = dnslib.DNSBuffer()
        rr.pack(buf)
        buf.offset = 0
        return canon(dnslib.RR.parse(buf), bytes(buf.data))

    def __repr__(self):
        return f"<{self.name} {self.ttl} {self.kind} {self.args}>"


def unpack_name(msg, data):
    """The (maybe compressed) name in some record data of a message"""
    out, hops = [], 0
    while data and data[0] and hops < 100:
        if data[0] >= 0xc0:
            data = msg[(data[0] & 63) << 8 | data[1]:]
            hops += 1
            continue
        out.append(data[1:1 + data[0]].decode())
        data = data[1 + data[0]:]
    return ".".join(out) + "."


def canon(rr, msg):
    data = str(rr.rdata)
    if rr.rtype == CODES["DNAME"]:
        # dnslib does not parse it
        data = unpack_name(msg, bytes(rr.rdata.data))
    return (str(rr.rname), rr.rtype, rr.rclass, rr.ttl, data)


def canon_record(rec):
    """A DNSRecord returned by the store."""
    return (rec.name, int(rec.type), int(rec.cls), rec.ttl, str(rec.data))
