import asyncio
import os
import ssl
import warnings

import aiomisc
from aiomisc.service import TLSServer
from aiomisc.service.tls import RobustTLSClient, TLSClient

from vf.core import Scenario
from vf.util import eventually, own_host
from vf.vloop import run_real

RULE = (
    "TLS servers against clients with good, missing, foreign, expired and "
    "self-signed certificates, old protocol versions, plain text and broken "
    "handshakes; TLS clients against servers with good, foreign, expired, "
    "self-signed and other hosts' certificates; asyncio and uvloop; distinct "
    "by plan"
)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WAIT = 20
V12, V13 = ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3
warnings.simplefilter("ignore")


def cert(name):
    return os.path.join(HERE, "data", "certs", name)


def pair(name):
    return dict(cert=cert(name + ".pem"), key=cert(name + ".key"))


# cipher suites for TLS 1.2, all usable with the ECDSA certificate
STRONG = ("ECDHE-ECDSA-AES256-GCM-SHA384", "ECDHE-ECDSA-CHACHA20-POLY1305",
          "ECDHE-ECDSA-AES128-GCM-SHA256")
WEAK = ("ECDHE-ECDSA-AES256-SHA384", "ECDHE-ECDSA-AES128-SHA256")


def client_context(identity, version, ciphers=None):
    ctx = ssl.create_default_context(cafile=cert("goodca.pem"))
    if ciphers:
        ctx.set_ciphers(":".join(ciphers))
    ctx.minimum_version = ctx.maximum_version = version
    if identity:
        ctx.load_cert_chain(cert(identity + ".pem"), cert(identity + ".key"))
    return ctx


def server(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    require = rng.random() < 0.6
    versions = rng.choice([None, None, (V12, V13), (V12, V12), (V13, V13)])
    low, high = versions or (V13, V13)
    verify = rng.random() < 0.7
    # without a CA no client certificate can be verified
    ca = None if rng.random() < 0.2 else cert("goodca.pem")
    ciphers = rng.choice([None, None, rng.sample(STRONG, 1),
                          rng.sample(STRONG, 2),
                          rng.sample(STRONG + WEAK, 2)])
    allowed = ciphers or STRONG
    attempts = [{
        "ciphers": rng.choice([None, STRONG[:1], STRONG[1:], WEAK[:1], WEAK,
                               STRONG[1:2] + WEAK[1:2]]),
        "how": rng.choice(["tls", "tls", "tls", "tls", "plain", "partial"]),
        "identity": rng.choice([None, "client", "client", "evilclient",
                                "expiredclient", "selfsigned"]),
        "version": rng.choice([V12, V13, V13]),
        "at": rng.choice([0, 0, 0.01, 0.03]),
    } for _ in range(rng.randint(2, 8))]
    case.trace(kind, require, versions, verify, attempts, ciphers, ca)
    case.describe(ca=ca, ciphers=ciphers, loop=kind, require_client_cert=require, attempts=attempts,
                  versions=[str(low), str(high)])
    handled = []
    host = own_host()

    class Server(TLSServer):
        async def handle_client(self, reader, writer):
            obj = writer.get_extra_info("ssl_object")
            peer = writer.get_extra_info("peercert") or {}
            name = dict(x[0] for x in peer.get("subject", ())).get(
                "commonName")
            me = [None, name, obj.version(), obj.cipher()[0]]
            handled.append(me)
            line = await reader.readline()
            me[0] = line
            writer.write(line)
            await writer.drain()
            writer.close()

    async def attempt(i, a, port):
        await asyncio.sleep(a["at"])
        token = f"{i}\n".encode()
        ok = (a["how"] == "tls" and low <= a["version"] <= high and
              (not require or (a["identity"] == "client" and ca)) and
              (a["version"] != V12 or not a["ciphers"] or
               set(a["ciphers"]) & set(allowed)))
        if not a["ciphers"] and not set(allowed) & set(STRONG):
            # whether the default list of this client has one is its own
            # business
            a["ciphers"] = allowed
        case.event("acceptable" if ok else "unacceptable")
        got = None
        writer = None
        try:
            if a["how"] == "tls":
                reader, writer = await asyncio.wait_for(
                    asyncio.open_connection(
                        host, port,
                        ssl=client_context(a["identity"], a["version"],
                                           a["ciphers"]),
                        server_hostname="localhost"), WAIT)
                writer.write(token)
            else:
                reader, writer = await asyncio.open_connection(
                    host, port)
                writer.write(token * 100 if a["how"] == "plain" else
                             b"\x16\x03\x01\x00\x50\x01\x00\x00")
                if a["how"] == "partial":
                    await asyncio.sleep(0.01)
                    writer.write_eof()
            got = await asyncio.wait_for(reader.read(), WAIT)
        except asyncio.TimeoutError:
            case.soft("no-answer", repr(a))
        except OSError as e:
            got = e
        finally:
            if writer is not None:
                writer.close()
        if ok:
            case.check(got == token, "good-client-rejected", repr(got),
                       attempt=a, plan=case.sample)
        else:
            case.check(got != token, "bad-client-served", repr(got),
                       attempt=a, plan=case.sample)
        return ok

    async def main():
        kw = {}
        if versions:
            kw = dict(minimum_version=low, maximum_version=high)
        if ciphers:
            kw["ciphers"] = tuple(ciphers)
        srv = Server(address=host, port=0, ca=ca,
                     require_client_cert=require, verify=verify,
                     **pair("server"), **kw)
        async with aiomisc.entrypoint(srv, log_config=False,
                                      catch_signals=()):
            oks = await asyncio.gather(*[
                attempt(i, a, srv.port) for i, a in enumerate(attempts)])
        case.check(
            len(handled) == sum(map(bool, oks)), "handler-for-rejected",
            f"{handled}", plan=case.sample)
        for token, name, version, cipher in handled:
            case.check(not require or name == "client", "unverified-peer",
                       repr(name), plan=case.sample)
            case.check({"TLSv1.2": V12, "TLSv1.3": V13}[version] >= low,
                       "old-version", version, plan=case.sample)
            case.check(version != "TLSv1.2" or cipher in allowed,
                       "other-cipher", cipher, plan=case.sample)
    run_real(main, kind=kind)


def client(case):
    rng = case.rng
    kind = rng.choice(["asyncio", "uvloop"])
    robust = rng.random() < 0.5
    identity = rng.choice(["server", "server", "otherhost", "evilserver",
                           "selfsigned", "expiredserver"])
    ca = rng.choice(["goodca", "goodca", "goodca", "evilca", None])
    verify = rng.choice([True, True, True, False])
    host = rng.choice(["localhost", "127.0.0.1"])
    version = rng.choice([V13, V13, V13, V12])
    mutual = rng.random() < 0.5
    default = verify and rng.random() < 0.5   # verify is not passed
    case.trace(kind, robust, identity, ca, verify, host, version, mutual,
               default)
    case.describe(loop=kind, robust=robust, server=identity, ca=ca,
                  verify=verify, host=host, version=str(version),
                  mutual=mutual)
    trusted = {"goodca": ("server",), "evilca": ("evilserver",),
               None: ()}[ca]
    ok = version == V13 and (not verify or identity in trusted)
    case.event("acceptable" if ok else "unacceptable")
    connections = []
    received = []
    peers = []

    async def on_client(reader, writer):
        peer = writer.get_extra_info("peercert") or {}
        peers.append(dict(x[0] for x in peer.get("subject", ())).get(
            "commonName"))
        try:
            data = await reader.readline()
            received.append(data)
            writer.write(data)
            await writer.drain()
        except OSError:
            pass
        finally:
            writer.close()

    class Mixin:
        connect_attempts = 2
        connect_retry_timeout = 0.01
        reconnect_timeout = 0.01

        async def handle_connection(self, reader, writer):
            connections.append(None)
            writer.write(b"secret\n")
            connections[-1] = await reader.readline()
            writer.close()

    class Plain(Mixin, TLSClient):
        pass

    class Robust(Mixin, RobustTLSClient):
        pass

    async def main():
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.minimum_version = ctx.maximum_version = version
        ctx.load_cert_chain(cert(identity + ".pem"), cert(identity + ".key"))
        if mutual:
            ctx.verify_mode = ssl.CERT_REQUIRED
            ctx.load_verify_locations(cert("goodca.pem"))
        srv = await asyncio.start_server(on_client, "127.0.0.1", 0, ssl=ctx)
        port = srv.sockets[0].getsockname()[1]
        kw = {} if default else {"verify": verify}
        svc = (Robust if robust else Plain)(
            host, port, ca=cert(ca + ".pem") if ca else None,
            **pair("client"), **kw)
        error = None
        async with aiomisc.entrypoint(log_config=False,
                                      catch_signals=()) as ep:
            try:
                await asyncio.wait_for(ep.start_services(svc), WAIT)
            except asyncio.TimeoutError:
                case.soft("start-hangs", "", plan=case.sample)
            except Exception as e:
                error = e
            if ok:
                case.check(error is None, "good-server-rejected",
                           repr(error), plan=case.sample)
                if not await eventually(
                    lambda: connections and connections[0] is not None,
                    WAIT,
                ):
                    case.soft("good-server-rejected", f"{connections}",
                              plan=case.sample)
                case.check(connections[0] == b"secret\n",
                           "good-server-rejected", repr(connections),
                           plan=case.sample)
                case.check(peers[0] == ("client" if mutual else None),
                           "client-certificate", repr(peers),
                           plan=case.sample)
            else:
                if not robust:
                    case.check(isinstance(error, OSError),
                               "not-reported", repr(error),
                               plan=case.sample)
                await asyncio.sleep(0.02)
                case.check(not connections, "bad-server-trusted",
                           "handle_connection has been called",
                           plan=case.sample)
                case.check(b"secret\n" not in received,
                           "bad-server-trusted", repr(received),
                           plan=case.sample)
        srv.close()
    run_real(main, kind=kind)


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(server, 250, timeout=120),
    Scenario(client, 250, timeout=120),
]
