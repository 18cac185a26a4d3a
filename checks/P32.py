import json
import os
import signal
import subprocess
import sys

from vf.core import Scenario

RULE = (
    "random entrypoints of process and respawning services whose processes "
    "return, raise, exit, are killed, die while being forked, ignore the "
    "interrupt, clean up for long or hang at their exit, in random "
    "succession; services started, cancelled and stopped at random moments; "
    "programs ended normally, by an error or by a signal; distinct by plan"
)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = ["debug", "info", "warning", "error"]


def die(rng):
    do = rng.choice(["return", "raise", "exit", "kill", "sysexit", "fork"])
    return dict(do=do, d=rng.choice([0, 0.05, 0.2]),
                fork_delay=rng.choice([0, 0, 0, 0.2, 0.2, 1.3]))


def stay(rng, stop_timeout):
    do = rng.choice(["forever"] * 4 + ["stubborn", "thread"])
    return dict(
        do=do, cleanup=rng.choice([0, 0, 0.1, 0.3, 60]),
        reraise=rng.random() < 0.4, fork_delay=rng.choice([0, 0, 0, 0, 0, 0.3, 0.3, 1.3]),
    )


def make_plan(rng):
    stop_timeout = rng.choice([3, 4])
    services, ops = [], []
    for idx in range(rng.randint(1, 4)):
        respawn = rng.random() < 0.6
        n = rng.choice([0, 1, 1, 2, 3]) if respawn else rng.choice([0, 0, 1])
        lives = [die(rng) for _ in range(n)]
        if respawn or not n:
            lives.append(stay(rng, stop_timeout))
        dynamic = rng.random() < 0.35
        services.append(dict(
            respawn=respawn, lives=lives, dynamic=dynamic,
            marker=f"m{rng.getrandbits(30)}",
            name=rng.choice([None, f"proc-{idx}"]),
        ))
        if dynamic:
            at = rng.choice([0, 0.05, 0.2])
            if rng.random() < 0.5:
                ops.append(dict(op="cancel", svc=idx, at=at,
                                after=rng.choice([0, 0.001, 0.05, 0.2])))
            else:
                ops.append(dict(op="start", svc=idx, at=at))
        elif rng.random() < 0.3:
            ops.append(dict(op="stop", svc=idx,
                            at=rng.choice([0, 0.1, 0.3, 0.6])))
    log = rng.random() < 0.7
    return dict(
        services=services, ops=ops, stop_timeout=stop_timeout,
        poll=rng.choice([0.05, 0.1, 0.3]), log=log,
        level=rng.choice(LEVELS), format=rng.choice(["color", "json", "plain"]),
        user_level=rng.choice([None, None, 10, 20, 40]) if not log else None,
        pool=rng.choice([2, 4, 8]), settle=rng.random() < 0.75,
        body=rng.choice([0, 0.1, 0.3, 1]),
        end=rng.choice(["normal"] * 3 + ["raise", "SIGINT", "SIGTERM"]),
    )


def alive(pid, marker):
    try:
        with open(f"/proc/{pid}/stat") as f:
            state = f.read().rsplit(")", 1)[1].split()[0]
        with open(f"/proc/{pid}/cmdline") as f:
            return state not in "ZX" and marker in f.read()
    except OSError:
        return False


def services(case):
    plan = make_plan(case.rng)
    case.sample = plan
    tmp = case.tmp()
    env = dict(os.environ, PYTHONPATH=os.environ.get("VF_REPO", "/repo"))
    env.pop("AIOMISC_NO_PLUGINS", None)
    data = json.dumps(plan)
    proc = subprocess.Popen(
        [sys.executable, os.path.join(HERE, "vf", "proc_target.py"), data],
        cwd=tmp, env=env, stdin=subprocess.DEVNULL,
        stdout=open(os.path.join(tmp, "out"), "wb"), stderr=subprocess.STDOUT,
        start_new_session=True,
    )

    def killall():
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()

    case.defer(killall)
    bound = 60 + 2 * plan["stop_timeout"] * len(plan["services"])
    try:
        proc.wait(timeout=bound)
        ended = True
    except subprocess.TimeoutExpired:
        ended = False
    path = os.path.join(tmp, "events")
    evs = []
    if os.path.exists(path):
        evs = [json.loads(line) for line in open(path).read().splitlines()]
    out = open(os.path.join(tmp, "out"), errors="replace").read()[-600:]
    pids = {e["pid"] for e in evs} - {proc.pid}
    left = [p for p in pids if alive(p, "proc_target")]
    killall()
    case.check(ended, "the program does not end", plan=plan, left=left,
               evs=evs[-12:], out=out)
    main = {e["what"]: e for e in evs if e["svc"] == -1}
    case.check("body" in main and "closed" in main and "children" in main,
               "the program failed", plan=plan, evs=evs[-8:], out=out)
    case.check(not left and not main["children"]["alive"],
               "process of the service is alive after the program",
               plan=plan, left=left, children=main["children"], evs=evs[-8:])
    case.check("unsettled" not in main, "service's process is not (re)started",
               plan=plan, who=main.get("unsettled"), evs=evs[-20:], out=out)
    case.check(("error" in main) == (plan["end"] == "raise"),
               "wrong error of the program", plan=plan, main=main, out=out)
    for idx, cfg in enumerate(plan["services"]):
        check_service(case, plan, idx, cfg, main,
                      [e for e in evs if e["svc"] == idx], out)


def check_service(case, plan, idx, cfg, main, evs, out):
    def bad(cond, what, **kw):
        case.check(cond, what, plan=plan, idx=idx, evs=evs, out=out, **kw)

    by = {}
    for e in evs:
        by.setdefault(e["what"], []).append(e)
    bad("stop_failed" not in by, "stop of the service failed")
    forks = by.get("forked", [])
    bad([e["n"] for e in forks] == list(range(len(forks))),
        "processes are started in a wrong order")
    if not cfg["respawn"]:
        bad(len(forks) <= 1, "process of a plain service is respawned")
    runs = {e["n"]: e for e in by.get("run", [])}
    bad(len(runs) == len(by.get("run", [])), "process runs twice")
    for n, e in runs.items():
        bad(e["marker"] == cfg["marker"], "wrong arguments of the process")
        if plan["log"]:
            bad(e["level"] == main["body"]["level"], "wrong log level", run=e)
            bad(e["fmt"] == main["body"]["fmt"], "wrong log format", run=e)
        if cfg["name"]:
            bad(e["name"] == cfg["name"], "wrong name of the process", run=e)
        case.event("run")
    pids = {e["n"]: e["pid"] for e in forks}
    bad(len(set(pids.values())) == len(pids), "processes share a pid")
    dying = {e["n"]: e for e in by.get("dying", [])}
    for n in range(1, len(forks)):
        case.event("respawned")
        bad(n - 1 in dying, "process is respawned while the previous one "
            "is alive", n=n)
        bad(dying.get(n - 1, forks[n])["t"] <= forks[n]["t"],
            "process is respawned before the previous one dies", n=n)
    up = sorted(e["t"] for e in evs if e["what"] == "initialised" or (
        e["what"] == "dying" and e["how"] == "fork"))
    for e in by.get("started", []):
        # (a process which dies for other reasons is initialised before)
        bad(up and up[0] <= e["t"], "start returns before the process is "
            "started", started=e)
        case.event("started")
    stops = by.get("stop", [])
    if forks:
        bad(len(stops) >= 1, "service is never stopped")
    if not stops:
        return
    done = [e["t"] for e in by.get("stopped", [])]
    bad(len(done) == len(stops), "stop of the service never ends")
    for a, b in zip(stops, by["stopped"]):
        bound = plan["stop_timeout"] * 2 * len(plan["services"]) + 12
        bad(b["t"] - a["t"] < bound, "stop takes too long",
            took=b["t"] - a["t"])
    # no process is started after the service is stopped
    last = max(e["t"] for e in by["stopped"])
    for e in forks:
        bad(e["t"] < last, "process is started after the stop", fork=e)
    for e in by.get("dying", []) + by.get("ready", []):
        if e["t"] > last:
            bad(False, "process works after the stop", event=e)
    ready = {e["n"] for e in by.get("ready", [])}
    interrupted = [e["n"] for e in by.get("interrupted", [])]
    cleaned = [e["n"] for e in by.get("cleaned", [])]
    bad(len(set(interrupted)) == len(interrupted), "interrupted twice")
    first_stop = min(e["t"] for e in stops)
    for e in by.get("interrupted", []) + by.get("ignored", []):
        bad(e["t"] >= first_stop, "process is interrupted without a stop",
            event=e)
    for n in ready:
        life = cfg["lives"][min(n, len(cfg["lives"]) - 1)]
        t_ready = next(e["t"] for e in by["ready"] if e["n"] == n)
        if t_ready > first_stop - 0.05:
            case.event("stop_race")
            continue
        if life["do"] == "stubborn":
            case.event("stubborn")
            bad(len([e for e in by.get("ignored", []) if e["n"] == n]) == 1,
                "process is not interrupted once before it is killed")
            continue
        bad(n in interrupted, "process is not interrupted", n=n)
        case.event("interrupted")
        if life["cleanup"] < 1:
            bad(n in cleaned, "process is killed while it cleans up", n=n)
            case.event("cleaned")
        else:
            bad(n not in cleaned, "process is waited for too long", n=n)
            case.event("killed")


SCENARIOS = [
    Scenario(services, quick=70, thorough=1400, timeout=150),
]
