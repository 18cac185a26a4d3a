"""Preemption injection for the threads running /repo code.

sys.monitoring LINE events of the code objects of the chosen modules call
back into a hook that sometimes sleeps, so that the thread loses the GIL
between any two lines of the code under test.
"""
import random
import sys
import threading
import time
import types

TOOL = 3


def _codes(module):
    seen, out = set(), []

    def walk(code):
        if id(code) in seen:
            return
        seen.add(id(code))
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    def visit(obj, depth=0):
        if isinstance(obj, types.FunctionType):
            walk(obj.__code__)
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f:
                    visit(f)
        elif isinstance(obj, type) and depth < 3:
            for v in vars(obj).values():
                visit(v, depth + 1)

    fname = getattr(module, "__file__", None)
    for v in list(vars(module).values()):
        if getattr(v, "__module__", None) == module.__name__:
            visit(v)
    return [c for c in out if c.co_filename == fname]


class Injector:
    """with Injector(rng, mod1, mod2): ... """

    def __init__(self, rng, *modules, rate=0.02, max_sleep=0.002, points=2,
                 point_sleep=0.01):
        self.seed = rng.random()
        self.rnd = random.Random(self.seed)
        self.rate, self.max_sleep = rate, max_sleep
        self.codes = [c for m in modules for c in _codes(m)]
        lines = []
        for c in self.codes:
            for _, _, ln in c.co_lines():
                if ln:
                    lines.append((c.co_name, ln))
        lines = sorted(set(lines))
        # PCT-like: few chosen points get long delays, every time
        self.points = set(
            rng.sample(lines, min(points, len(lines))),
        ) if lines else set()
        self.point_sleep = point_sleep
        self.hits = 0
        self.delays = 0
        self.threads = set()
        self.switch = None

    def _line(self, code, line):
        self.hits += 1
        r = self.rnd.random()
        if (code.co_name, line) in self.points:
            if r < 0.7:
                self.delays += 1
                self.threads.add(threading.get_ident())
                time.sleep(self.point_sleep * r)
            return
        if r < self.rate:
            self.delays += 1
            self.threads.add(threading.get_ident())
            time.sleep(self.max_sleep * self.rnd.random())

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "vf-inject")
        mon.register_callback(TOOL, mon.events.LINE, self._line)
        for c in self.codes:
            mon.set_local_events(TOOL, c, mon.events.LINE)
        self.switch = sys.getswitchinterval()
        sys.setswitchinterval(self.rnd.choice([1e-6, 1e-5, 1e-4, 0.005]))
        return self

    def __exit__(self, *_):
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)
        sys.setswitchinterval(self.switch)


class NoInjector:
    hits = delays = 0

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


def maybe_inject(case, *modules, prob=0.6, **kw):
    if case.rng.random() < prob:
        return Injector(case.rng, *modules, **kw)
    return NoInjector()
