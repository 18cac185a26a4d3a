"""Case API used by every scenario: seeded randomness, counters, violations."""
import hashlib
import os
import random
import shutil
import tempfile
from collections import Counter


class Violation(Exception):
    """The monitor saw the property being broken (trusted at once)."""

    def __init__(self, mech, msg="", **detail):
        super().__init__(f"[{mech}] {msg} {detail or ''}")
        self.mech, self.msg, self.detail = mech, msg, detail


class Soft(Violation):
    """As Violation, but depends on real time: it has to be reproduced."""


class Inconclusive(Exception):
    """The case could not be judged (environment)."""


def find_violation(exc):
    """The Violation hidden in an exception group, a cause or a context."""
    seen = set()
    queue = [exc]
    while queue:
        e = queue.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, Violation):
            return e
        queue.extend(getattr(e, "exceptions", ()))
        queue.extend([e.__cause__, e.__context__])
    return None


class Scenario:
    """quick/thorough: number of cases; timeout: a case is hung after it."""

    def __init__(self, func, quick, thorough=None, timeout=60):
        self.func, self.name = func, func.__name__
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.timeout = timeout


class Case:
    def __init__(self, prop, scenario, seed, tier):
        self.prop, self.scenario, self.seed, self.tier = (
            prop, scenario, seed, tier,
        )
        self.rng = random.Random(f"{prop}/{scenario}/{seed}")
        self.counters = Counter()
        self.sig = []
        self.nontrivial = True
        self.sample = None
        self.noted = []
        self._tmp = []
        self._cleanups = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # --- evidence
    def event(self, kind, n=1):
        self.counters[kind] += n

    def trace(self, *items):
        """Adds to the signature identifying what this execution was."""
        self.sig.append(items)

    def trivial(self):
        self.nontrivial = False

    def describe(self, **kw):
        self.sample = dict(self.sample or {}, **kw)

    def signature(self):
        return hashlib.sha1(
            repr((self.scenario, self.sig or self.sample)).encode(),
        ).hexdigest()[:16]

    # --- oracle
    def fail(self, mech, msg="", **detail):
        raise Violation(mech, msg, **detail)

    def soft(self, mech, msg="", **detail):
        raise Soft(mech, msg, **detail)

    def note(self, mech, msg="", **detail):
        """A violation seen where raising would not reach the harness."""
        self.noted.append(Violation(mech, msg, **detail))

    def check(self, cond, mech, msg="", **detail):
        self.counters["oracle_checks"] += 1
        if not cond:
            raise Violation(mech, msg, **detail)

    def expect(self, cond, mech, msg="", **detail):
        """As check(), where raising would be swallowed by the code."""
        self.counters["oracle_checks"] += 1
        if not cond:
            self.note(mech, msg, **detail)

    def check_soft(self, cond, mech, msg="", **detail):
        self.counters["oracle_checks"] += 1
        if not cond:
            raise Soft(mech, msg, **detail)

    # --- resources
    def tmp(self):
        path = tempfile.mkdtemp(prefix="vf-case-")
        self._tmp.append(path)
        return path

    def defer(self, func, *args):
        self._cleanups.append((func, args))

    def cleanup(self):
        while self._cleanups:
            func, args = self._cleanups.pop()
            try:
                func(*args)
            except Exception:
                pass
        for path in self._tmp:
            if os.path.basename(path).startswith("vf-case-"):
                shutil.rmtree(path, ignore_errors=True)
        self._tmp.clear()
