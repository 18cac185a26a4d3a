import asyncio
import gc
import os
import socket
import subprocess
import sys
import threading
import time
import warnings

import aiomisc
from aiomisc.utils import create_default_event_loop

from vf.core import Inconclusive, Scenario

RULE = (
    "bind_socket with random addresses, families, types, ports (free, taken, "
    "reused), options and flags: every attribute of the socket is read back "
    "and clients connect to it, failures are checked for leaks; event loops "
    "created with random sizes, policies and flags in fresh threads and "
    "inside running loops; distinct by parameters"
)


def fds():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            pass
    return {k: v for k, v in out.items() if v.startswith("socket:")}


def has_ipv6():
    try:
        with socket.socket(socket.AF_INET6) as sock:
            sock.bind(("::1", 0))
        return True
    except OSError:
        return False


OPTIONS = [
    ("SOL_SOCKET", "SO_KEEPALIVE", (0, 1)),
    ("SOL_SOCKET", "SO_BROADCAST", (0, 1)),
    ("SOL_SOCKET", "SO_PRIORITY", (0, 1, 3)),
    ("SOL_SOCKET", "SO_OOBINLINE", (0, 1)),
    ("SOL_SOCKET", "SO_REUSEADDR", (0, 1)),
    ("SOL_SOCKET", "SO_REUSEPORT", (0, 1)),
    ("IPPROTO_TCP", "TCP_NODELAY", (0, 1)),
    ("IPPROTO_TCP", "TCP_KEEPIDLE", (7, 60)),
    ("IPPROTO_TCP", "TCP_DEFER_ACCEPT", (0,)),
]


def pick_options(rng, stream, inet):
    out = {}
    for level, name, values in OPTIONS:
        if rng.random() < 0.3:
            if level == "IPPROTO_TCP" and not (stream and inet):
                continue
            if name == "SO_REUSEPORT" and not inet:
                continue
            out[getattr(socket, level), getattr(socket, name)] = (
                rng.choice(values)
            )
    return out


def echo(case, server, client, stream, where):
    """A client reaches the socket."""
    if stream:
        server.listen(4)
        client.settimeout(5)
        client.connect(where)
        end = time.monotonic() + 10
        while True:
            try:
                conn, _ = server.accept()
                break
            except BlockingIOError:
                if time.monotonic() > end:
                    raise Inconclusive("no connection")
                time.sleep(0.001)
        with conn:
            conn.settimeout(5)
            client.sendall(b"ping")
            case.check(conn.recv(16) == b"ping", "no-data", "")
    else:
        client.sendto(b"ping", where)
        end = time.monotonic() + 10
        while True:
            try:
                data = server.recv(16)
                break
            except BlockingIOError:
                if time.monotonic() > end:
                    raise Inconclusive("no datagram")
                time.sleep(0.001)
        case.check(data == b"ping", "no-data", repr(data))


def bind(case):
    rng = case.rng
    v6 = has_ipv6()
    tmp = case.tmp()
    for _ in range(rng.randint(2, 6)):
        kinds = ["v4", "v4", "any4", "unix"] + (["v6", "any6"] if v6 else [])
        kind = rng.choice(kinds)
        inet = kind != "unix"
        stream = rng.random() < 0.6
        family = {"v4": socket.AF_INET, "any4": socket.AF_INET,
                  "unix": socket.AF_UNIX}.get(kind, socket.AF_INET6)
        typ = socket.SOCK_STREAM if stream else socket.SOCK_DGRAM
        address = {
            "v4": f"127.0.0.{rng.randint(1, 250)}", "any4": "0.0.0.0",
            "v6": "::1", "any6": "::",
        }.get(kind) or os.path.join(tmp, f"s{rng.randrange(10 ** 9)}")
        args = (family, typ)
        if inet and stream and rng.random() < 0.6:
            args = ()
        elif rng.random() < 0.2:
            args += (rng.choice(
                [0, socket.IPPROTO_TCP] if inet and stream else [0],
            ),)
        kw = {"address": address}
        reuse_addr = rng.choice([None, True, False])
        reuse_port = rng.choice([None, True, False])
        if reuse_addr is not None:
            kw["reuse_addr"] = reuse_addr
        if reuse_port is not None:
            kw["reuse_port"] = reuse_port
        options = pick_options(rng, stream, inet)
        if options or rng.random() < 0.3:
            kw["options"] = tuple((a, b, c) for (a, b), c in options.items())
        if rng.random() < 0.3:
            kw["proto_name"] = rng.choice(["http", "tcp", "x"])
        how = rng.choice(["zero", "default", "taken", "taken", "shared",
                          "badopt", "badaddr"])
        case.trace(kind, stream, len(args), reuse_addr, reuse_port, how,
                   sorted(options.items()))
        case.describe(kind=kind, stream=stream, how=how, kw=repr(kw))
        one(case, rng, kind, inet, stream, family, typ, args, kw, options,
            how)


def one(case, rng, kind, inet, stream, family, typ, args, kw, options, how):
    address = kw["address"]
    other = None
    fails = False
    if how == "zero" and inet:
        kw["port"] = 0
    elif how in ("taken", "shared"):
        other = socket.socket(family, typ)
        if inet:
            if how == "shared":
                other.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
            other.bind((address, 0))
            kw["port"] = other.getsockname()[1]
            ours = options.get((socket.SOL_SOCKET, socket.SO_REUSEPORT),
                               int(kw.get("reuse_port", True)))
            fails = not (how == "shared" and ours)
            if not stream or not fails:
                # a shared address may be taken by datagram sockets at will
                if not stream and kw.get("reuse_addr", True):
                    fails = None
            if stream:
                other.listen(1)
        else:
            other.bind(address)
            fails = True
    elif how == "badopt":
        kw["options"] = tuple(kw.get("options", ())) + ((12345, 1, 1),)
        fails = True
    elif how == "badaddr" and inet:
        kw["address"] = "2001:db8::77" if family == socket.AF_INET6 else (
            "203.0.113.77"
        )
        fails = True
    elif how == "badaddr":
        kw["address"] = os.path.join(address, "missing", "sock")
        fails = True
    before = fds()
    error = sock = None
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            sock = aiomisc.bind_socket(*args, **kw)
        except OSError as e:
            error = e
        if error is not None:
            # even while the error is being handled
            case.check(fds() == before, "leak",
                       f"the socket is left open after {error!r}")
        error = error and repr(error)
        gc.collect()
    try:
        if fails is not None:
            case.check((error is not None) == fails, "outcome",
                       f"{error}, expected error: {fails}", kw=repr(kw),
                       how=how)
        case.check(
            not [w for w in caught if w.category is ResourceWarning],
            "resource-warning", repr([str(w.message) for w in caught]),
        )
        if sock is None:
            case.event("failures")
            return
        case.event("sockets")
        case.check(set(fds()) - set(before) == {sock.fileno()}, "fds",
                   "another descriptor was opened")
        case.check(sock.family == family and sock.type == typ, "family",
                   repr(sock))
        case.check(sock.gettimeout() == 0, "blocking",
                   "the socket is blocking", timeout=sock.gettimeout())
        name = sock.getsockname()
        if inet:
            case.check(
                name[0] == address and name[1]
                and (not kw.get("port") or name[1] == kw["port"]),
                "bound", f"{name} instead of {address}:{kw.get('port')}",
            )
        else:
            case.check(name == address, "bound", repr(name))
        want = {
            (socket.SOL_SOCKET, socket.SO_REUSEADDR):
                int(kw.get("reuse_addr", True)),
        }
        if inet:
            want[socket.SOL_SOCKET, socket.SO_REUSEPORT] = int(
                kw.get("reuse_port", True),
            )
            if sock.proto == socket.IPPROTO_TCP:
                want[socket.IPPROTO_TCP, socket.TCP_NODELAY] = 1
        want.update(options)
        for (level, opt), value in want.items():
            got = sock.getsockopt(level, opt)
            case.check(bool(got) == bool(value) if value in (0, 1)
                       else got == value, "option",
                       f"{level}/{opt}: {got} instead of {value}")
        if other is None:
            where = name
            cfam = family
            if kind == "any4":
                where = ("127.0.0.1", name[1])
            elif kind == "any6":
                if rng.random() < 0.5:
                    where, cfam = ("127.0.0.1", name[1]), socket.AF_INET
                else:
                    where = ("::1", name[1])
            with socket.socket(cfam, typ) as client:
                echo(case, sock, client, stream, where)
            case.event("clients")
    finally:
        if sock is not None:
            sock.close()
        if other is not None:
            other.close()


# --- event loops

def loops(case):
    rng = case.rng
    size = rng.choice([None, 1, 2, 3, 5, 8])
    debug = rng.random() < 0.5
    uv = rng.random() < 0.5
    default_policy = rng.random() < 0.3
    helper = rng.random() < 0.4
    inside = rng.random() < 0.3
    existing = rng.choice(["none", "idle", "closed"])
    case.trace(size, debug, uv, default_policy, helper, inside, existing)
    case.describe(size=size, debug=debug, uv=uv, inside=inside)
    if uv:
        import uvloop
        policy = uvloop.EventLoopPolicy()
    else:
        policy = asyncio.DefaultEventLoopPolicy()

    def create():
        kw = {}
        if size is not None:
            kw["pool_size"] = size
        if not default_policy:
            kw["policy"] = policy
        if helper:
            return aiomisc.new_event_loop(**kw)
        loop, pool = create_default_event_loop(debug=debug, **kw)
        case.check(isinstance(pool, aiomisc.ThreadPoolExecutor), "pool",
                   repr(pool))
        return loop

    def refused():
        async def main():
            this = asyncio.get_running_loop()
            pol = asyncio.get_event_loop_policy()
            try:
                create()
            except RuntimeError:
                pass
            else:
                case.fail("not-refused", "a loop was created while another "
                          "one is running in this thread")
            case.check(asyncio.get_event_loop() is this
                       and asyncio.get_event_loop_policy() is pol,
                       "changed", "the refused call changed the loop")

        loop = asyncio.SelectorEventLoop()
        asyncio.set_event_loop(loop)
        try:
            loop.run_until_complete(main())
        finally:
            asyncio.set_event_loop(None)
            loop.close()
        case.event("refusals")

    def created():
        old = None
        if existing != "none":
            old = asyncio.new_event_loop()
            asyncio.set_event_loop(old)
            if existing == "closed":
                old.close()
        threads = set(threading.enumerate())
        loop = create()
        try:
            case.check(asyncio.get_event_loop() is loop, "not-current",
                       "the created loop is not the current one")
            case.check(not loop.is_running() and not loop.is_closed(),
                       "state", repr(loop))
            if not helper:
                case.check(loop.get_debug() == debug, "debug", "")
            if not default_policy:
                case.check(("uvloop" in type(loop).__module__) == uv,
                           "policy", repr(loop))
                case.check(asyncio.get_event_loop_policy() is policy,
                           "policy", "not the given policy")
            limit = size or aiomisc.ThreadPoolExecutor.DEFAULT_POOL_SIZE
            n = min(limit + 3, 40)
            lock, go = threading.Lock(), threading.Event()
            state = dict(now=0, top=0, done=0)

            def work():
                with lock:
                    state["now"] += 1
                    state["top"] = max(state["top"], state["now"])
                    if state["now"] == min(limit, n):
                        go.set()
                ok = go.wait(15)
                time.sleep(0.002)
                with lock:
                    state["now"] -= 1
                    state["done"] += 1
                return ok

            async def main():
                return await asyncio.wait_for(asyncio.gather(*[
                    loop.run_in_executor(None, work) for _ in range(n)
                ]), 50)

            res = loop.run_until_complete(main())
            case.check_soft(all(res), "parallelism",
                            f"{state} in a pool of {limit}")
            case.check(state["top"] <= limit, "pool-size",
                       f"{state['top']} threads in a pool of {limit}")
            case.check(state["done"] == n, "done", repr(state))
            case.event("loops")
        finally:
            loop.run_until_complete(loop.shutdown_default_executor())
            asyncio.set_event_loop(None)
            loop.close()
            if old is not None and not old.is_closed():
                old.close()
        left = set(threading.enumerate()) - threads
        for t in left:
            t.join(10)
        case.check_soft(not [t for t in left if t.is_alive()],
                        "threads-left", repr(left))

    problem = []

    def run():
        try:
            refused() if inside else created()
        except BaseException as e:
            problem.append(e)

    before = asyncio.get_event_loop_policy()
    try:
        thread = threading.Thread(target=run)
        thread.start()
        thread.join()
    finally:
        asyncio.set_event_loop_policy(before)
    if problem:
        raise problem[0]


PROGRAM = """
import asyncio, sys
import aiomisc
from aiomisc.utils import create_default_event_loop, new_event_loop

async def main():
    await asyncio.sleep(0)
    return await aiomisc.threaded(lambda: 5)()

class Svc(aiomisc.Service):
    async def start(self):
        pass

how = sys.argv[1]
for _ in range(int(sys.argv[2])):
    if how == "run":
        assert aiomisc.run(main(), log_config=False) == 5
    elif how == "entrypoint":
        with aiomisc.entrypoint(Svc(), log_config=False) as loop:
            assert loop.run_until_complete(main()) == 5
    elif how == "asyncio":
        async def outer():
            async with aiomisc.entrypoint(
                    Svc(), log_config=False, catch_signals=()):
                return 5
        assert asyncio.run(outer()) == 5
    else:
        if how == "create":
            loop, pool = create_default_event_loop(pool_size=2)
        else:
            loop = new_event_loop(pool_size=2)
        assert loop.run_until_complete(main()) == 5
        loop.close()
asyncio.set_event_loop(None)
print("done")
"""


def programs(case):
    """A fresh program leaves no event loop or socket of its own open."""
    rng = case.rng
    how = rng.choice(["run", "entrypoint", "asyncio", "create", "new"])
    times = rng.randint(1, 3)
    case.trace(how, times)
    case.describe(how=how, times=times)
    r = subprocess.run(
        [sys.executable, "-W", "always::ResourceWarning",
         "-c", PROGRAM, how, str(times)],
        capture_output=True, text=True, timeout=60, cwd=case.tmp(),
        env=dict(os.environ, PYTHONPATH=os.environ.get("VF_REPO", "/repo")))
    case.check(r.returncode == 0 and r.stdout == "done\n",
               "the program failed", how=how, err=r.stderr[-900:])
    case.check("unclosed event loop" not in r.stderr and
               "unclosed <socket" not in r.stderr,
               "the program leaves an event loop or a socket unclosed",
               how=how, err=r.stderr[-900:])
    case.event("program")


QUICK_SCALE = 3
SCENARIOS = [
    Scenario(programs, quick=15, timeout=80),
    Scenario(bind, quick=400, timeout=30),
    Scenario(loops, quick=150, timeout=60),
]
