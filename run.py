#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--seed N]

Runs the monitored workloads of one property against /repo's working tree.
Exit 0: no violation on anything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".
"""
import argparse
import collections
import importlib
import json
import os
import queue
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
PY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")
JOBS = int(os.environ.get("VF_JOBS", "7"))


class Hang(Exception):
    pass


class Crash(Exception):
    pass


class Aborted(Exception):
    pass


class Child:
    def __init__(self, prop, scratch, n, stop=None):
        self.stop = stop
        self.log = os.path.join(scratch, f"child-{n}.log")
        self.logf = open(self.log, "ab")
        r, w = os.pipe()
        env = dict(os.environ)
        env.update(
            VF_OUT=str(w), PYTHONDONTWRITEBYTECODE="1",
            PYTHONPATH=f"{REPO}:{VERIF}", TMPDIR=scratch,
            PYTHONHASHSEED="0", VF_REPO=REPO, PYTHONWARNINGS="ignore",
        )
        for k in list(env):
            if k.startswith("AIOMISC") or k in (
                "NOTIFY_SOCKET", "WATCHDOG_USEC",
            ):
                del env[k]
        self.proc = subprocess.Popen(
            [PY, "-m", "vf.child", prop], cwd=scratch, env=env,
            stdin=subprocess.PIPE, stdout=self.logf, stderr=self.logf,
            pass_fds=(w,), start_new_session=True,
        )
        os.close(w)
        self.r = r
        self.buf = b""
        self.count = 0
        self.recv(120)

    def recv(self, timeout):
        deadline = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                raise Hang()
            if self.stop is not None and self.stop.is_set():
                raise Aborted()
            ready, _, _ = select.select([self.r], [], [], min(left, 0.5))
            if not ready:
                # no EOF while grandchildren hold the pipe
                if self.proc.poll() is not None:
                    ready, _, _ = select.select([self.r], [], [], 0.2)
                    if not ready:
                        raise Crash()
                continue
            data = os.read(self.r, 1 << 16)
            if not data:
                raise Crash()
            self.buf += data
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, task, timeout):
        self.count += 1
        try:
            self.proc.stdin.write(json.dumps(task).encode() + b"\n")
            self.proc.stdin.flush()
        except OSError:
            raise Crash()
        return self.recv(timeout)

    def stacks(self):
        try:
            self.proc.send_signal(signal.SIGUSR2)
            time.sleep(0.7)
        except OSError:
            pass
        return self.tail(6000)

    def tail(self, size=3000):
        try:
            with open(self.log, "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - size))
                return f.read().decode(errors="replace")
        except OSError:
            return ""

    def kill(self):
        # every process of the child's session
        sid = self.proc.pid
        try:
            os.killpg(sid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(10)
        except Exception:
            pass
        kill_session(sid)
        for f in (self.logf, self.proc.stdin):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.close(self.r)
        except OSError:
            pass


def kill_session(sid):
    """Ends what the cases started and left in another process group."""
    for _ in range(3):
        found = False
        for pid in os.listdir("/proc"):
            if not pid.isdigit() or int(pid) == os.getpid():
                continue
            try:
                with open(f"/proc/{pid}/stat") as f:
                    st = f.read().rsplit(")", 1)[1].split()
                if int(st[3]) == sid and st[0] != "Z":
                    found = True
                    os.kill(int(pid), signal.SIGKILL)
            except (OSError, IndexError, ValueError):
                continue
        if not found:
            return


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.mod = importlib.import_module(f"checks.{prop}")
        self.scen = {s.name: s for s in self.mod.SCENARIOS}
        self.scratch = tempfile.mkdtemp(prefix="vf-run-")
        self.nchild = 0
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.suspects = []
        self.violations = []
        self.known_hits = []
        self.counters = collections.Counter()
        self.per_scen = collections.Counter()
        self.sigs = set()
        self.evaluations = 0
        self.samples = {}
        self.inconclusive = []
        self.slowest = collections.defaultdict(float)
        self.known = load_known(prop)

    def child(self, stop=None):
        with self.lock:
            self.nchild += 1
            n = self.nchild
        return Child(self.prop, self.scratch, n, stop)

    def tasks(self):
        """Round robin over the scenarios, in proportion to their counts."""
        weighted = []
        for s in self.mod.SCENARIOS:
            n = getattr(s, self.tier)
            scale = float(os.environ.get("VF_SCALE", "1"))
            if self.tier == "quick":
                scale *= getattr(self.mod, "QUICK_SCALE", 1)
            n = max(1, int(n * scale))
            for i in range(n):
                weighted.append(((i + 0.5) / n, s.name, i))
        weighted.sort()
        for _, name, i in weighted:
            yield {
                "scenario": name, "seed": f"{self.seed}:{i}",
                "tier": self.tier, "want_sample": i == 0,
            }

    def account(self, task, res):
        with self.lock:
            self.evaluations += 1
            name = task["scenario"]
            self.per_scen[name] += 1
            self.counters.update(res.get("counters", {}))
            self.slowest[name] = max(self.slowest[name], res.get("t", 0))
            if res.get("nontrivial"):
                self.sigs.add(res.get("sig"))
            if res.get("sample") is not None:
                self.samples[name] = res["sample"]

    def execute(self, child, task, stop=None):
        """-> (child, result) ; the child is replaced when it is lost"""
        try:
            if child is None:
                child = self.child(stop)
            res = child.run(task, self.scen[task["scenario"]].timeout)
        except Aborted:
            if child:
                child.kill()
            return None, {"status": "aborted"}
        except Hang:
            res = {
                "status": "hang", "mech": "hang",
                "msg": "no progress; stacks:\n" + (
                    child.stacks() if child else ""
                ),
            }
            if child:
                child.kill()
            child = None
        except Crash:
            res = {
                "status": "crash", "mech": "crash",
                "msg": "process died:\n" + (child.tail() if child else ""),
            }
            if child:
                child.kill()
            child = None
        if child is not None and (
            res["status"] != "ok" or child.count >= 400
        ):
            child.kill()
            child = None
        return child, res

    def worker(self, todo):
        child = None
        try:
            while not self.stop.is_set():
                if time.monotonic() > self.deadline:
                    break
                try:
                    task = todo.get_nowait()
                except queue.Empty:
                    break
                child, res = self.execute(child, task, self.stop)
                if res["status"] == "aborted":
                    break
                if res["status"] in ("ok", "inconclusive"):
                    self.account(task, res)
                    if res["status"] == "inconclusive":
                        self.inconclusive.append((task, res["msg"][:300]))
                    continue
                if self.is_known(res):
                    self.account(task, res)
                    continue
                if res["status"] == "violation":
                    self.account(task, res)
                    self.violations.append((task, res))
                    self.stop.set()
                else:
                    with self.lock:
                        self.suspects.append((task, res))
                        if len(self.suspects) >= 6:
                            self.stop.set()
        except BaseException as e:
            with self.lock:
                self.inconclusive.append(({}, f"worker failed: {e!r}"))
        finally:
            if child is not None:
                child.kill()

    def is_known(self, res):
        for k in self.known:
            if k["mech"] == res.get("mech") and (
                k["match"] in res.get("msg", "")
            ):
                with self.lock:
                    self.known_hits.append(k)
                return True
        return False

    def confirm(self):
        """Suspects (hangs, errors, timing) have to be reproduced, alone."""
        by_scen = collections.Counter()
        for n, (task, res) in enumerate(self.suspects[:6]):
            self.account(task, res)
            # nothing else runs now
            again = 0
            for attempt in range(3):
                if self.violations or time.monotonic() - self.t0 > (
                    650 if self.tier == "quick" else 10 ** 6
                ):
                    break
                child, r = self.execute(None, task)
                if child is not None:
                    child.kill()
                if self.is_known(r):
                    break
                if r["status"] == "violation":
                    self.violations.append((task, r))
                    return
                if r["status"] == res["status"]:
                    again += 1
                    self.violations.append((task, r))
                    return
            if not again:
                self.inconclusive.append(
                    (task, f"not reproduced: {res['status']} "
                           f"{res['msg'][-1500:]}"),
                )
                if res["status"] in ("hang", "error", "crash"):
                    by_scen[task["scenario"], res["mech"]] += 1
                    if by_scen[task["scenario"], res["mech"]] >= 3:
                        # thrice in different cases: schedule dependent,
                        # but not an accident
                        self.violations.append((task, res))
                        return

    def run(self):
        self.t0 = t0 = time.monotonic()
        budget = getattr(
            self.mod, "BUDGET", {"quick": 60, "thorough": 1500},
        )[self.tier]
        self.deadline = t0 + float(os.environ.get("VF_BUDGET", budget))
        todo = queue.Queue()
        total = 0
        for task in self.tasks():
            todo.put(task)
            total += 1
        jobs = min(JOBS, total, getattr(self.mod, "JOBS", JOBS))
        threads = [
            threading.Thread(target=self.worker, args=(todo,))
            for _ in range(jobs)
        ]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if not self.violations:
            self.confirm()
        if not self.violations and not self.evaluations:
            self.violations.append((
                {"scenario": "none", "seed": str(self.seed)},
                {"status": "crash", "mech": "no-evaluations",
                 "msg": repr(self.inconclusive[:2])},
            ))
        self.wall = time.monotonic() - t0
        shutil.rmtree(self.scratch, ignore_errors=True)
        return self.report()

    def report(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.sigs),
            "rule": self.mod.RULE,
            "samples": [
                {"scenario": k, "case": v} for k, v in self.samples.items()
            ] or [{"scenario": t["scenario"], "case": t}
                  for t, _ in self.violations] or ["none"],
            "per_scenario": dict(self.per_scen),
            "monitor_events": dict(self.counters),
            "slowest_case_s": {
                k: round(v, 3) for k, v in self.slowest.items()
            },
            "inconclusive": [
                [t, m] for t, m in self.inconclusive
            ][:10],
            "inconclusive_count": len(self.inconclusive),
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": getattr(self.mod, "LEVEL", "exploration"),
            "coverage": cov,
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(self.wall, 2),
            "violations": len(self.violations),
        }
        path = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(path + ".tmp", path)
        for k in self.known:
            if k in self.known_hits:
                print(f"KNOWN-FINDING: property={self.prop} {k['text']}")
        print(
            f"{self.prop} {self.tier} seed={self.seed}: "
            f"{self.evaluations} executions, {len(self.sigs)} distinct, "
            f"{sum(self.counters.values())} events, "
            f"{len(self.inconclusive)} inconclusive, {self.wall:.1f}s",
        )
        if not self.violations:
            return 0
        task, res = self.violations[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rpath = os.path.join(
            VERIF, "replays",
            f"{self.prop}-{task['scenario']}-"
            f"{task['seed'].replace(':', '_')}.json",
        )
        with open(rpath, "w") as f:
            json.dump({"property": self.prop, "task": task, "result": res},
                      f, indent=1, default=repr)
        print(res.get("mech"), res.get("msg", "")[:3000])
        print(f"VIOLATION property={self.prop} replay={rpath}")
        return 1


def load_known(prop):
    """Lines "known: property=<id> mech=<mech> match=<text> :: <what>"."""
    out = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                if not line.startswith("known: property=%s " % prop):
                    continue
                head, text = line.strip().split(" :: ", 1)
                _, mech = head.split(" mech=", 1)
                mech, match = mech.split(" match=", 1)
                out.append({"mech": mech, "match": match, "text": text})
    except FileNotFoundError:
        pass
    return out


def replay(prop, path, times):
    with open(path) as f:
        task = json.load(f)["task"]
    task["want_sample"] = True
    runner = Runner(prop, task["tier"], 0)
    bad = 0
    try:
        for i in range(times):
            child, res = runner.execute(None, task)
            if child:
                child.kill()
            print(i, res["status"], res.get("mech", ""),
                  res.get("msg", "")[:3000], res.get("sample", ""))
            bad += res["status"] not in ("ok", "inconclusive")
    finally:
        shutil.rmtree(runner.scratch, ignore_errors=True)
    if bad:
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier",
                    default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--times", type=int, default=3)
    ap.add_argument("--one", help="scenario:index, run once")
    a = ap.parse_args()
    sys.path[:0] = [REPO, VERIF]
    sys.dont_write_bytecode = True
    if a.one:
        path = tempfile.mktemp(prefix="vf-one-")
        name, i = a.one.split(":")
        with open(path, "w") as f:
            json.dump({"task": {"scenario": name, "seed": f"{a.seed}:{i}",
                                "tier": a.tier}}, f)
        code = replay(a.prop, path, a.times)
        os.unlink(path)
        return code
    if a.replay:
        return replay(a.prop, a.replay, a.times)
    runner = Runner(a.prop, a.tier, a.seed)
    signal.signal(signal.SIGTERM, lambda *_: os._exit(1))
    return runner.run()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(1 if code else 0)
