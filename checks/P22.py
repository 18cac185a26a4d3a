import asyncio
import hashlib
import hmac
import os
import pickle
import stat
import struct

from aiomisc import WorkerPool
from aiomisc_worker import PacketTypes

from checks import wp
from vf import wfuncs
from vf.core import Scenario

RULE = (
    "strangers connecting to the pool's socket with every kind of wrong or "
    "missing credentials, malformed packets, silence and disconnections, "
    "before and while calls are executed; distinct by attacks"
)


def pack(obj):
    data = pickle.dumps(obj)
    return struct.pack("!L", len(data)) + data


def attack_bytes(rng, pool):
    """-> name, bytes"""
    wid = rng.choice(pool.worker_ids)
    good_len = hmac.HMAC(b"x", wid, digestmod=hashlib.sha256).digest()
    kind = rng.choice([
        "wrong_digest", "wrong_digest", "empty_digest", "unknown_id",
        "bad_packet", "bad_initializer", "bad_initializer_unknown",
        "garbage", "truncated", "huge", "empty", "silent", "none_cookie",
        "request", "result", "zero_digest", "pipelined", "short_tuple",
    ])
    pid = rng.choice([os.getpid(), 1, 0, -1])
    auth = PacketTypes.AUTH
    table = {
        "wrong_digest": lambda: pack((auth, wid, good_len, pid)),
        "empty_digest": lambda: pack((auth, wid, b"", pid)),
        "zero_digest": lambda: pack((auth, wid, b"\0" * 32, pid)),
        "none_cookie": lambda: pack((auth, wid, hmac.HMAC(
            b"\0" * 128, wid, digestmod=hashlib.sha256).digest(), pid)),
        "unknown_id": lambda: pack((auth, rng.randbytes(16), good_len, pid)),
        "bad_packet": lambda: pack((rng.choice([PacketTypes.REQUEST,
                                                PacketTypes.AUTH_OK, 7]),
                                    wid, good_len, pid)),
        "bad_initializer": lambda: pack((
            PacketTypes.BAD_INITIALIZER, wid, good_len, pid,
        )) + pack((PacketTypes.EXCEPTION, ValueError("evil"))),
        "bad_initializer_unknown": lambda: pack((
            PacketTypes.BAD_INITIALIZER, b"x", good_len, pid,
        )) + pack((PacketTypes.EXCEPTION, ValueError("evil"))),
        "garbage": lambda: rng.randbytes(rng.randint(1, 300)),
        "truncated": lambda: pack((auth, wid, good_len, pid))[:-5],
        "huge": lambda: b"\xff\xff\xff\xff" + b"x" * 100,
        "empty": lambda: b"\0\0\0\0",
        "silent": lambda: b"",
        "request": lambda: pack((PacketTypes.REQUEST, len, ((),), {})),
        "result": lambda: pack((PacketTypes.RESULT, "evil")),
        "short_tuple": lambda: pack((auth, wid)),
        "pipelined": lambda: pack((auth, wid, good_len, pid)) + pack(
            (PacketTypes.RESULT, "evil")) * 3,
    }
    return kind, table[kind]()


def strangers(case):
    rng = case.rng
    workers = rng.choice([1, 2])
    n = rng.choice([5, 15, 40])
    eof = rng.random() < 0.5
    case.trace(workers, n, eof, rng.random())
    path = case.tmp() + "/log"
    kinds = []

    async def main():
        conns = []
        async with WorkerPool(workers) as pool:
            st = os.stat(pool.address)
            case.check(stat.S_IMODE(st.st_mode) & 0o077 == 0,
                       "socket-permissions", oct(st.st_mode))

            async def attacker():
                await asyncio.sleep(rng.random() * 0.2)
                kind, data = attack_bytes(rng, pool)
                kinds.append(kind)
                try:
                    r, w = await asyncio.open_unix_connection(pool.address)
                    conns.append((r, w))
                    w.write(data)
                    if rng.random() < 0.3:
                        w.close()
                        return
                    if eof and rng.random() < 0.5:
                        w.write_eof()
                    got = b""
                    try:
                        got = await asyncio.wait_for(r.read(10 ** 6), 0.3)
                    except asyncio.TimeoutError:
                        pass
                    except ConnectionError:
                        return
                    if got[4:]:
                        reply = pickle.loads(got[4:])
                        case.check(reply in (PacketTypes.AUTH_FAIL,
                                             PacketTypes.BAD_PACKET),
                                   "stranger-accepted",
                                   f"{kind}: got {reply!r}")
                        case.event("refused")
                except ConnectionError:
                    pass
                case.event("attacks")

            async def one(i):
                await asyncio.sleep(rng.random() * 0.3)
                out = await wp.outcome(pool.create_task(
                    wfuncs.work, path, i, "echo", i, sleep=0.002))
                wp.judge(case, path, i, "echo", i, {}, out)
            if rng.random() < 0.5:
                await wp.full_strength(case, pool, path + ".0")
            await asyncio.wait_for(asyncio.gather(
                *[attacker() for _ in range(n)],
                *[one(i) for i in range(20)],
            ), 60)
            case.check(len(pool.pids) <= workers and
                       os.getpid() not in pool.pids, "stranger-is-worker",
                       f"{pool.pids}")
            await wp.full_strength(case, pool, path)
            case.check(len(pool.pids) == workers, "stranger-is-worker",
                       f"{pool.pids}")
            case.describe(workers=workers, attacks=sorted(set(kinds)))
            t0 = asyncio.get_running_loop().time()
        took = asyncio.get_running_loop().time() - t0
        case.check_soft(took < 10, "close-slow", f"{took}")
        for r, w in conns:
            w.close()
        log = wp.marks(path)
        for i in range(20):
            c = sum(1 for m in log if m[:2] == ("begin", str(i)))
            case.check(c == 1, "execution-count", f"{i}: {c}")
    wp.run(case, main, rng.choice(["asyncio", "uvloop"]))


def tamper(rng, packet, ids):
    kind, wid, digest, pid = packet
    how = rng.choice(["bit", "bit", "bit", "short", "long", "empty", "swap",
                      "other_id", "reverse", "str"])
    if how == "bit":
        n = rng.randrange(len(digest) * 8)
        digest = bytes(b ^ (1 << n % 8 if i == n // 8 else 0)
                       for i, b in enumerate(digest))
    elif how == "short":
        digest = digest[:rng.randrange(1, len(digest))]
    elif how == "long":
        digest += rng.randbytes(rng.randint(1, 4))
    elif how == "empty":
        digest = b""
    elif how == "swap":
        digest = digest[16:] + digest[:16]
    elif how == "reverse":
        digest = digest[::-1]
    elif how == "str":
        digest = digest.hex()
    elif how == "other_id":
        # the digest of one worker does not fit another one
        others = [i for i in ids if i != wid]
        wid = rng.choice(others) if others else rng.randbytes(16)
    return how, (kind, wid, digest, pid)


def middleman(case):
    """Credentials of genuine workers are changed on their way."""
    rng = case.rng
    workers = rng.choice([1, 2, 3])
    todo = rng.randint(1, 8)
    case.trace(workers, todo, rng.random())
    path = case.tmp() + "/log"
    hows = []

    async def main():
        pool = WorkerPool(workers)
        real, pool.address = pool.address, case.tmp() + "/mitm"
        writers = []
        left = [todo]

        async def pipe(reader, writer):
            try:
                while data := await reader.read(65536):
                    writer.write(data)
                    await writer.drain()
            except ConnectionError:
                pass
            finally:
                writer.close()

        async def on_client(reader, writer):
            writers.append(writer)
            up_reader, up = await asyncio.open_unix_connection(real)
            writers.append(up)
            head = await reader.readexactly(4)
            data = await reader.readexactly(struct.unpack("!L", head)[0])
            if left[0] > 0:
                left[0] -= 1
                how, bad = tamper(rng, pickle.loads(data), pool.worker_ids)
                hows.append(how)
                before = set(pool.pids)
                up.write(pack(bad))
                try:
                    got = await asyncio.wait_for(up_reader.read(10 ** 6), 0.3)
                except asyncio.TimeoutError:
                    got = b""
                except ConnectionError:
                    got = b""
                if got[4:]:
                    reply = pickle.loads(got[4:])
                    case.check(reply in (PacketTypes.AUTH_FAIL,
                                         PacketTypes.BAD_PACKET),
                               "stranger-accepted", f"{how}: got {reply!r}")
                case.check(bad[3] not in pool.pids or bad[3] in before,
                           "stranger-is-worker", f"{how}: {pool.pids}")
                case.event("refused")
                up.close()
                # (a worker whose connection is merely lost isn't replaced)
                writer.write(pack(PacketTypes.AUTH_FAIL))
                writer.write_eof()
                return
            up.write(head + data)
            await asyncio.gather(pipe(reader, up), pipe(up_reader, writer))

        srv = await asyncio.start_unix_server(on_client, pool.address)
        async with pool:
            async def one(i):
                out = await wp.outcome(pool.create_task(
                    wfuncs.work, path, i, "echo", i, sleep=0.002))
                wp.judge(case, path, i, "echo", i, {}, out)
            await asyncio.wait_for(asyncio.gather(
                *[one(i) for i in range(10)]), 60)
            await wp.full_strength(case, pool, path)
            case.check(len(pool.pids) == workers, "stranger-is-worker",
                       f"{pool.pids}")
            case.check(len(hows) == todo, "not-tampered", f"{hows} {todo}")
            case.describe(workers=workers, hows=hows)
        srv.close()
        for w in writers:
            w.close()
    wp.run(case, main, rng.choice(["asyncio", "uvloop"]))


SCENARIOS = [Scenario(strangers, 100, 1500, timeout=120),
             Scenario(middleman, 40, 800, timeout=120)]
