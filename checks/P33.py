import json
import os
import socket
import struct
import subprocess
import sys
import threading
import time

from vf.core import Scenario

RULE = (
    "programs with the watchdog among random services, notifying a listening "
    "socket (path or abstract) whose messages carry the kernel's timestamps; "
    "any interval from the environment or the argument, loop blocked at "
    "random moments, listener disappearing, services started later, all ends "
    "of the program; distinct by plan"
)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO_TIMESTAMPNS = 35


def make_plan(rng):
    n = rng.randint(0, 3)
    interval = rng.choice([None, 0.05, 0.1, 0.2, 0.4, 1])
    env = rng.choice([None, 0.05, 0.1, 0.2, 0.4, 1])
    blocks = []
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 3)):
            blocks.append(dict(after=rng.choice([0, 0.05, 0.13]),
                               d=rng.choice([0.05, 0.2, 0.3])))
    return dict(
        services=[[rng.choice([0, 0.02, 0.1, 0.3]),
                   rng.choice([0, 0.02, 0.1, 0.3])] for _ in range(n)],
        dog=rng.randint(0, n), interval=interval, env=env, blocks=blocks,
        body=rng.choice([0, 0.1, 0.3, 0.7]), extra=rng.choice([0, 0, 1, 2]),
        end=rng.choice(["normal"] * 3 + ["raise", "SIGTERM", "SIGINT"]),
        address=rng.choice(["path", "path", "abstract"]),
        listener=rng.choice(["good"] * 6 + ["gone", "none"]),
        seed=rng.getrandbits(30),
    )


class Listener:
    def __init__(self, address):
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        self.sock.bind(address)
        self.sock.setsockopt(socket.SOL_SOCKET, SO_TIMESTAMPNS, 1)
        self.sock.settimeout(0.1)
        self.got, self.end = [], False
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        while True:
            try:
                data, anc, *_ = self.sock.recvmsg(65536, 1024)
            except TimeoutError:
                if self.end:
                    break
                continue
            except OSError:
                break
            sec, ns = struct.unpack("qq", anc[0][2])
            self.got.append((sec + ns / 1e9, data.decode()))

    def close(self):
        self.end = True
        self.thread.join()
        self.sock.close()


def watchdog(case):
    rng = case.rng
    plan = make_plan(rng)
    case.sample = plan
    tmp = case.tmp()
    env = dict(os.environ, PYTHONPATH=os.environ.get("VF_REPO", "/repo"))
    for key in ("NOTIFY_SOCKET", "WATCHDOG_USEC"):
        env.pop(key, None)
    listener = None
    if plan["listener"] != "none":
        if plan["address"] == "path":
            address = shown = os.path.join(tmp, "n")
        else:
            name = f"vf-{os.getpid()}-{plan['seed']}"
            address, shown = "\0" + name, "@" + name
        listener = Listener(address)
        case.defer(listener.close)
        env["NOTIFY_SOCKET"] = shown
    if plan["env"] is not None:
        env["WATCHDOG_USEC"] = str(int(plan["env"] * 1000000))
    proc = subprocess.Popen(
        [sys.executable, os.path.join(HERE, "vf", "sd_target.py"),
         json.dumps(plan)],
        cwd=tmp, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, text=True,
    )
    if plan["listener"] == "gone":
        def gone():
            end = time.monotonic() + 20
            while not listener.got and time.monotonic() < end:
                time.sleep(0.005)
            time.sleep(rng.choice([0, 0.1, 0.3]))
            listener.close()
        threading.Thread(target=gone, daemon=True).start()
    try:
        out, err = proc.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        proc.kill()
        out, err = proc.communicate()
        case.fail("the program does not end", plan=plan, out=out[-900:],
                  err=err[-500:])
    evs = [json.loads(line) for line in out.splitlines()]
    what = [e["what"] for e in evs]
    by = {e["what"]: e for e in evs}
    case.check("closed" in by and "Traceback" not in err,
               "the program failed", plan=plan, evs=evs[-5:], err=err[-700:])
    case.check(what.count("started") == what.count("stopped") ==
               len(plan["services"]) + bool(plan["extra"]),
               "services are not started and stopped", plan=plan, evs=evs)
    case.check(("error" in by) == (plan["end"] == "raise"),
               "wrong error of the program", plan=plan, evs=evs[-5:])
    case.check(what.index("dog_started") < what.index("dog_stopped"),
               "watchdog is not started and stopped", plan=plan)
    if listener is None:
        return case.event("no_listener")
    if plan["listener"] == "gone":
        return case.event("gone")
    listener.close()
    got = listener.got
    messages = [m for _, m in got]
    case.event("messages", len(got))

    def bad(cond, what, **kw):
        case.check(cond, what, plan=plan, got=got[:60], evs=evs, **kw)

    interval = plan["env"] if plan["interval"] is None else plan["interval"]
    count = len(plan["services"]) + 1
    want = [f"STATUS=Starting {count} services"]
    if interval is not None and interval != plan["env"]:
        want.append(f"WATCHDOG_USEC={round(interval * 1000000)}")
    want += [f"STATUS=Started {count} services", "READY=1"]
    stopping = count + (plan["extra"] == 1)
    want += [f"STATUS=Stopping {stopping} services", "STOPPING=1"]
    rest = [m for m in messages if m != "WATCHDOG=1"]
    bad(rest == want, "wrong messages", want=want, rest=rest)

    stamp = {m: t for t, m in got if m != "WATCHDOG=1"}
    dogs = [t for t, m in got if m == "WATCHDOG=1"]
    if dogs:
        bad(messages[0] == want[0] and messages[-1] == want[-1],
            "watchdog message is out of the service's life")
    starts = [e["t"] for e in evs if e["what"] in ("start", "dog_start")]
    bad(stamp[want[0]] <= min(starts), "late message of the start")
    early = [e for e in evs if e["what"] in ("started", "dog_started") and
             e.get("i") != 100]
    bad(stamp["READY=1"] >= max(e["t"] for e in early),
        "ready before the services are started")
    bad(stamp["READY=1"] <= by["body"]["t"], "ready after the body is run")
    stops = [e["t"] for e in evs if e["what"] in ("stop", "dog_stop") and
             e.get("i") != 100]
    bad(by["body_end"]["t"] <= stamp[want[-2]] <= min(stops),
        "wrong time of the stopping message")
    bad(stamp["STOPPING=1"] >= max(
        e["t"] for e in evs if e["what"] in ("stopped", "dog_stopped")),
        "wrong time of the last message")
    bad(stamp["STOPPING=1"] <= by["closed"]["t"], "message after the end")
    if interval is None:
        bad(not dogs, "watchdog message without an interval")
        return
    bad(all(by["dog_start"]["t"] <= t <= by["dog_stopped"]["t"]
            for t in dogs), "watchdog message out of the service's life")
    # the loop being blocked is not alive
    for e in evs:
        if e["what"] == "block":
            case.event("block")
            bad(not any(e["start"] < t < e["end"] for t in dogs),
                "watchdog is notified while the loop is blocked", block=e)
    points = [by["dog_start"]["t"], *dogs, by["dog_stop"]["t"]]
    blocked = [(e["start"], e["start"] + e["d"] + 0.01) for e in evs
               if e["what"] == "lag"]
    blocked += [(e["start"], e["end"]) for e in evs if e["what"] == "block"]
    longest = max([b - a for a, b in blocked], default=0)
    for a, b in zip(points, points[1:]):
        case.event("gap")
        free = b - a - sum(
            max(0, min(b, y) - max(a, x)) for x, y in blocked)
        if free >= interval:
            case.soft("watchdog is not notified in time", plan=plan,
                      gap=(a, b), free=free, longest=longest, got=got[:60])
    life = by["dog_stop"]["t"] - by["dog_start"]["t"]
    bad(len(dogs) <= life / (interval / 2) + 2,
        "watchdog is notified too often", n=len(dogs), life=life)


SCENARIOS = [
    Scenario(watchdog, quick=100, thorough=2000, timeout=100),
]
