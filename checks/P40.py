import json
import os
import subprocess
import sys

from vf.core import Inconclusive, Scenario

RULE = (
    "random sets of installed distributions which declare plugins (working, "
    "not importable, without setup, with a failing setup, in both groups, "
    "several modules deep) in fresh interpreters: which modules were set up, "
    "how often, what the programs see, signals of their receivers compared "
    "to the starts and stops of services; distinct by set and outcome"
)

HELPER = '''
import json, os
def log(*item):
    fd = os.open(os.environ["VF_EVENTS"],
                 os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, (json.dumps(item) + "\\n").encode())
    os.close(fd)
'''

GOOD = '''
"""Plugin number {n}"""
import vf_helper
vf_helper.log("import", "{name}")
def setup():
    vf_helper.log("setup", "{name}")
'''

SIGNALS = '''
"""Plugin with signals"""
import vf_helper
def setup():
    vf_helper.log("setup", "{name}")
    import aiomisc
    from aiomisc.entrypoint import Entrypoint

    def make(kind):
        async def receiver(*, entrypoint, services, **kw):
            vf_helper.log("signal", "{name}", kind,
                          sorted(s.name for s in services))
        return receiver
    for kind in ("PRE_START", "POST_START", "PRE_STOP", "POST_STOP"):
        getattr(Entrypoint, kind).connect(make(kind))
'''

BAD = {
    "importerror": "import vf_there_is_no_such_module\n",
    "syntax": "def setup(:\n",
    "raises": "raise RuntimeError('on import')\n",
    "missing-module": None,
}

NOSETUP = '''
import vf_helper
vf_helper.log("import", "{name}")
'''

FAILSETUP = '''
import vf_helper
class Boom(Exception):
    pass
def setup():
    vf_helper.log("setup", "{name}")
    raise Boom("vf-setup-{name}")
'''

MAIN = '''
import json, sys
import logging
try:
    import aiomisc
except BaseException as e:
    json.dump({"error": type(e).__name__, "text": str(e)}, sys.stdout)
    sys.exit(0)
import aiomisc
from aiomisc.plugins import plugins
import aiomisc.plugins
out = {"plugins": {k: getattr(v, "__name__", repr(v))
                   for k, v in plugins.items()},
       "same": plugins is aiomisc.plugins and
               plugins is sys.modules["aiomisc.plugins"].plugins
       or plugins is aiomisc.plugins}
try:
    plugins["new"] = 1
    out["frozen"] = False
except TypeError:
    out["frozen"] = True

class One(aiomisc.Service):
    async def start(self):
        self.start_event.set()

async def main(ep):
    for n in DYNAMIC:
        svc = One(name=n)
        await ep.start_services(svc)
        await ep.stop_services(svc)

services = [One(name=n) for n in STATIC]
if RUN:
    with aiomisc.entrypoint(*services, log_config=False) as loop:
        import asyncio
        from aiomisc.entrypoint import Entrypoint
        loop.run_until_complete(main(Entrypoint.get_current()))
json.dump(out, sys.stdout)
'''

_installed = {}


def run(case, tmp, args, **env):
    vf_repo = os.environ.get("VF_REPO", "/repo")
    base = {k: v for k, v in os.environ.items()
            if not k.startswith(("AIOMISC", "PYTHON", "NOTIFY", "WATCHDOG"))}
    path = [vf_repo] + ([tmp] if tmp else [])
    base.update(PYTHONPATH=os.pathsep.join(path), PYTHONDONTWRITEBYTECODE="1",
                **env)
    try:
        return subprocess.run(
            [sys.executable, *args], env=base, cwd=tmp or "/",
            capture_output=True, text=True, timeout=60,
        )
    except subprocess.TimeoutExpired:
        raise Inconclusive("timeout")


def installed(case):
    """Plugins of the environment."""
    if "names" not in _installed:
        code = ("import json; from importlib.metadata import distributions;"
                "print(json.dumps(sorted({e.name for d in distributions() "
                "for e in d.entry_points if e.group in "
                "('aiomisc', 'aiomisc.plugins')})))")
        _installed["names"] = set(
            json.loads(run(case, "", ["-c", code]).stdout),
        )
    return _installed["names"]


def install(case, rng, tmp, n, kind, group, files):
    name = f"plug{n}"
    dist = f"vf_dist{n}"
    deep = rng.random() < 0.3
    module = f"vf_plug{n}.inner.plugin" if deep else f"vf_plug{n}"
    src = {"good": GOOD, "signals": SIGNALS, "nosetup": NOSETUP,
           "failsetup": FAILSETUP}.get(kind) or BAD.get(kind)
    if kind == "missing-attr":
        src = GOOD
    if src is not None:
        path = os.path.join(tmp, *module.split("."))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        parts = module.split(".")
        for k in range(1, len(parts)):
            open(os.path.join(tmp, *parts[:k], "__init__.py"), "w").close()
        with open(path + ".py", "w") as f:
            f.write(src.replace("{name}", name).replace("{n}", str(n)))
    info = os.path.join(tmp, f"{dist}-1.0.dist-info")
    os.mkdir(info)
    with open(os.path.join(info, "METADATA"), "w") as f:
        f.write(f"Metadata-Version: 2.1\nName: {dist}\nVersion: 1.0\n")
    target = module + (":nothing" if kind == "missing-attr" else "")
    with open(os.path.join(info, "entry_points.txt"), "w") as f:
        if rng.random() < 0.4:
            f.write("[console_scripts]\nvf-x = vf_helper:log\n\n")
        f.write(f"[{group}]\n{name} = {target}\n")
        if rng.random() < 0.3:
            f.write(f"\n[aiomisc_other]\nother{n} = vf_plug_other{n}\n")
    files[name] = module


def plugins(case):
    rng = case.rng
    tmp = case.tmp()
    events = os.path.join(case.tmp(), "events")
    with open(os.path.join(tmp, "vf_helper.py"), "w") as f:
        f.write(HELPER)
    kinds, files = {}, {}
    failing = rng.random() < 0.2
    for n in range(rng.randint(0, 6)):
        kind = rng.choice(
            ["good", "good", "signals", "signals", *BAD, "missing-attr"],
        )
        if failing and n == 0:
            kind = rng.choice(["failsetup", "nosetup"])
        group = rng.choice(["aiomisc", "aiomisc", "aiomisc.plugins"])
        kinds[f"plug{n}"] = kind
        install(case, rng, tmp, n, kind, group, files)
    failing = bool({"failsetup", "nosetup"} & set(kinds.values()))
    env = {"VF_EVENTS": events}
    disabled = rng.random() < 0.15
    if disabled:
        env["AIOMISC_NO_PLUGINS"] = rng.choice(["1", "yes"])
    elif rng.random() < 0.2:
        env["AIOMISC_NO_PLUGINS"] = ""
    good = {k for k, v in kinds.items() if v in ("good", "signals")}
    if disabled:
        want = set()
    else:
        want = good | installed(case)
    command = rng.random() < 0.4
    case.trace(kinds, disabled, command)
    case.describe(kinds=kinds, env=env)
    if not kinds:
        case.trivial()
    if command:
        listing(case, rng, tmp, env, want, failing and not disabled, kinds)
    else:
        program(case, rng, tmp, env, want, failing and not disabled, kinds,
                files)
    log = []
    if os.path.exists(events):
        with open(events) as f:
            log = [json.loads(line) for line in f]
    case.event("events", len(log))
    setups = [e[1] for e in log if e[0] == "setup"]
    case.check(len(setups) == len(set(setups)), "set-up-twice", repr(setups))
    if disabled:
        case.check(not log, "disabled", "plugins were loaded in spite of "
                   "AIOMISC_NO_PLUGINS", log=log)
    elif not failing:
        case.check(set(setups) == good, "setups",
                   f"{sorted(setups)} were set up instead of {sorted(good)}")
    return log


def program(case, rng, tmp, env, want, failing, kinds, files):
    static = [f"s{i}" for i in range(rng.randint(1, 3))]
    dynamic = [f"d{i}" for i in range(rng.randint(0, 2))]
    code = MAIN.replace("STATIC", repr(static)).replace(
        "DYNAMIC", repr(dynamic)).replace("RUN", "True")
    res = run(case, tmp, ["-c", code], **env)
    case.check(res.returncode == 0, "program-failed", res.stderr[-600:])
    out = json.loads(res.stdout)
    case.event("programs")
    if failing:
        case.check("error" in out, "setup-error-hidden",
                   "aiomisc was imported although a setup failed", out=out)
        return
    case.check("error" not in out, "import-failed", repr(out),
               stderr=res.stderr[-400:])
    case.check(set(out["plugins"]) == want, "plugins",
               f"{sorted(out['plugins'])} instead of {sorted(want)}")
    for name, module in out["plugins"].items():
        if name in files:
            case.check(module == files[name], "wrong-module",
                       f"{name}: {module}")
    case.check(out["frozen"], "mutable", "the plugins can be changed")
    expected = []
    expected += [["PRE_START", static], ["POST_START", static]]
    for n in dynamic:
        expected += [["PRE_START", [n]], ["POST_START", [n]],
                     ["PRE_STOP", [n]], ["POST_STOP", [n]]]
    expected += [["PRE_STOP", static], ["POST_STOP", static]]
    seen = {}
    if os.path.exists(env["VF_EVENTS"]):
        with open(env["VF_EVENTS"]) as f:
            for line in f:
                e = json.loads(line)
                if e[0] == "signal":
                    seen.setdefault(e[1], []).append(e[2:])
    for name, kind in kinds.items():
        if kind == "signals" and name in want:
            case.check(seen.get(name) == expected, "signals",
                       f"{seen.get(name)} instead of {expected}")
            case.event("signals", len(expected))


def listing(case, rng, tmp, env, want, failing, kinds):
    flags = []
    quiet = rng.choice([None, "-q", "-s", "--quiet", "--silent"])
    silent = rng.random() < 0.3
    if quiet:
        flags.append(quiet)
    if silent:
        flags.append(rng.choice(["-n", "--no-output"]))
    level = rng.choice([None, None, "info", "warning", "debug"])
    if level:
        flags += ["-l", level]
    fmt = rng.choice([None, "plain", "stream"])
    if fmt:
        flags += ["-F", fmt]
    res = run(case, tmp, ["-m", "aiomisc.plugins", *flags], **env)
    case.event("listings")
    if failing:
        case.check(res.returncode != 0, "setup-error-hidden", res.stdout)
        return
    case.check(res.returncode == 0, "listing-failed", res.stderr[-600:])
    lines = res.stdout.split()
    expected = [] if silent else sorted(want)
    case.check(lines == expected, "listing",
               f"{lines} instead of {expected}", flags=flags)
    told = [n for n in want if repr(n) in res.stderr or n in res.stderr]
    broken = [k for k, v in kinds.items() if k not in want]
    if quiet is None and level in (None, "info", "debug"):
        case.check(len(told) == len(want), "not-logged",
                   f"{sorted(told)} of {sorted(want)}",
                   stderr=res.stderr[-400:])
        case.check(f"Available {len(want)} plugins" in res.stderr,
                   "count", res.stderr[-300:])
    elif quiet and not broken:
        case.check(not res.stderr.strip(), "not-quiet", res.stderr[-300:])


QUICK_SCALE = 2
SCENARIOS = [Scenario(plugins, quick=84, timeout=130)]
