import asyncio
import functools
import pickle
import sys

import aiomisc
from aiomisc.signal import Signal, receiver

from vf.core import Scenario
from vf.util import Boom
from vf.vloop import run_virtual

RULE = (
    "random class hierarchies (mixins, overrides by coroutine and ordinary "
    "functions, required parameters declared anywhere) compared with a model "
    "of their declarations, random instances, changed, copied by pickling; "
    "random histories of signals: connected, copied, frozen, called at once, "
    "with failing receivers; distinct by trace"
)
NAMES = ["alpha", "beta", "gamma", "delta"]
METHODS = ["work", "prepare", "start", "stop"]
ME = sys.modules[__name__]


async def a_work(self, *args):
    return ("async", args)


def s_work(self, *args):
    return ("sync", args)


async def agen(self):
    yield 1


class Later:
    def __call__(self, *args):
        async def f():
            return 1
        return f()


def method(kind):
    if kind == "async":
        async def f(self, *args):
            return None
    elif kind == "sync":
        def f(self, *args):
            return None
    elif kind == "gen":
        def f(self, *args):
            yield
    elif kind == "agen":
        async def f(self, *args):
            yield
    elif kind == "static":
        @staticmethod
        async def f(*args):
            return None
    elif kind == "class":
        @classmethod
        async def f(cls, *args):
            return None
    else:
        f = Later()
    return f


GOOD = {"async", "static", "class"}


def get(mro, key, default=None):
    for own in mro:
        if key in own:
            return own[key]
    return default


def hierarchy(case):
    rng = case.rng
    root = {
        "required": (), "async_required": ("start", "stop"),
        "start": "async", "stop": "async", "attrs": {}, "abstract": True,
    }
    shadow = type("Service", (), {})
    shadows = {aiomisc.Service: shadow}
    owns = {shadow: root, object: {"attrs": {}}}
    classes = [aiomisc.Service]
    made = []
    for i in range(rng.randint(1, 6)):
        base = rng.choice(classes)
        own = {}
        namespace = {"__module__": __name__}
        for m in METHODS:
            p = 0.7 if m == "start" and base is aiomisc.Service else 0.35
            if rng.random() < p:
                kind = rng.choice(["async"] * 5 + [
                    "sync", "gen", "agen", "static", "class", "object"])
                own[m] = kind
                namespace[m] = method(kind)
        if rng.random() < 0.4:
            req = tuple(rng.sample(NAMES, rng.randint(0, 3)))
            own["required"] = req
            namespace["__required__"] = rng.choice(
                [tuple, list, set, frozenset])(req)
        have = [m for m in METHODS[:2] if m in own or any(
            m in owns[c] for c in shadows[base].__mro__)]
        if rng.random() < 0.4:
            req = tuple(rng.sample(have + ["start", "stop"], rng.randint(
                0, len(have) + 2)))
            own["async_required"] = req
            namespace["__async_required__"] = rng.choice([tuple, list])(req)
        attrs = {n: rng.randrange(100) for n in NAMES if rng.random() < 0.3}
        own["attrs"] = attrs
        namespace.update(attrs)
        bases = (base,)
        mixin = None
        if rng.random() < 0.3:
            mo = {m: rng.choice(["async", "async", "sync"])
                  for m in METHODS if rng.random() < 0.4}
            mixin = type(f"Mixin{i}", (), {k: method(v)
                                           for k, v in mo.items()})
            shadows[mixin] = type(f"Mixin{i}", (), {})
            owns[shadows[mixin]] = dict(mo, attrs={})
            bases = (mixin, base) if rng.random() < 0.7 else (base, mixin)
        name = f"Cls{i}"
        namespace["__qualname__"] = name
        shadow = type(name, tuple(shadows[b] for b in bases), {})
        owns[shadow] = own
        mro = [owns[c] for c in shadow.__mro__]
        required_async = get(mro, "async_required")
        bad = {m for m in required_async if get(mro, m) not in GOOD}
        case.trace(name, base.__name__, mixin and mixin.__name__,
                   sorted(own.items(), key=str))
        try:
            cls = type(aiomisc.Service)(name, bases, namespace)
        except TypeError as e:
            case.check(bool(bad), "good declaration is refused",
                       bad=bad, error=repr(e))
            case.check(all(f"{name}.{m}" in e.args[1] for m in bad),
                       "error does not name the method", error=repr(e))
            case.event("refused")
            continue
        case.check(not bad, "not a coroutine function is accepted",
                   bad=bad, name=name, own=own)
        case.event("accepted")
        setattr(ME, name, cls)
        shadows[cls] = shadow
        classes.append(cls)
        made.append((cls, mro))
    for cls, mro in made:
        for _ in range(3):
            instance(case, cls, mro)


def instance(case, cls, mro):
    rng = case.rng
    required = set(get(mro, "required"))
    defaults = {}
    for m in reversed(mro):
        defaults.update(m["attrs"])
    kw = {n: rng.choice([rng.randrange(1000), None, "", [1], "x"])
          for n in NAMES if rng.random() < (0.85 if n in required else 0.4)}
    if rng.random() < 0.2:
        kw["extra_param"] = object if rng.random() < 0.3 else 5
    lost = required - set(kw)
    abstract = "abstract" in next(m for m in mro if "start" in m)
    case.trace("new", cls.__name__, sorted(kw), abstract)
    try:
        obj = cls(**kw)
    except AttributeError as e:
        case.check(bool(lost) and set(e.args[1]) == lost,
                   "wrong error of required parameters", lost=lost,
                   error=repr(e))
        return case.event("lost")
    except TypeError:
        case.check(abstract, "service can not be created", kw=repr(kw))
        return case.event("abstract")
    case.check(not lost and not abstract, "service is created without its "
               "required parameters", lost=lost, abstract=abstract)
    case.event("created")
    other = cls(**{k: "other" for k in set(kw) | required})
    state = dict(defaults, **kw)
    for _ in range(rng.randint(0, 4)):
        name = rng.choice(NAMES + ["extra_param", "own"])
        value = rng.randrange(1000)
        setattr(obj, name, value)
        state[name] = value
        if name in kw:
            kw[name] = value

    def same(o, want, what):
        for name in NAMES + ["extra_param", "own"]:
            got = getattr(o, name, "absent")
            case.check(got == want.get(name, "absent"), what, name=name,
                       got=repr(got), want=repr(want.get(name, "absent")))

    same(obj, state, "wrong attribute of the service")
    for o in (obj,):
        copy = pickle.loads(pickle.dumps(o, rng.randint(2, 5)))
        case.check(type(copy) is cls, "wrong class of the copy")
        same(copy, dict(defaults, **kw), "wrong attribute of the copy")
        name = rng.choice(NAMES)
        setattr(copy, name, "copied")
        same(obj, state, "copy shares attributes")
    for name in set(kw) | required:
        case.check(getattr(other, name) == "other", "services share params")
    for name in ("nothing", "_private"):
        try:
            getattr(obj, name)
        except AttributeError:
            pass
        else:
            case.fail("unknown attribute is found", name=name)


def signals(case):
    rng = case.rng

    async def main():
        ran = []
        pool = []
        fail = set()

        def make_receiver(i):
            delay = rng.choice([None, 0, 0.25])

            async def func(*args, **kwargs):
                if delay is not None:
                    await asyncio.sleep(delay)
                ran.append((i, args, tuple(sorted(kwargs.items()))))
                if i in fail:
                    raise Boom(i)
            return func

        for i in range(rng.randint(1, 6)):
            pool.append(make_receiver(i))
        sigs = [(Signal(), set(), [False])]
        for step in range(rng.randint(5, 40)):
            sig, model, frozen = rng.choice(sigs)
            op = rng.choice(["connect"] * 4 + [
                "disconnect", "call", "call", "call", "copy", "freeze",
                "bad", "decorator", "storm"])
            case.trace(op, sorted(model), frozen[0])
            i = rng.randrange(len(pool))
            if op in ("connect", "decorator", "disconnect", "bad"):
                try:
                    if op == "connect":
                        sig.connect(pool[i])
                    elif op == "decorator":
                        got = receiver(sig)(pool[i])
                        case.check(got is pool[i], "decorator changes it")
                    elif op == "bad":
                        sig.connect(rng.choice([
                            s_work, len, agen, Later(), lambda: a_work(1),
                            functools.partial(s_work, 1), None,
                        ]))
                    else:
                        sig.disconnect(pool[i])
                except RuntimeError:
                    case.check(frozen[0] or op == "bad",
                               "receiver is refused", op=op)
                else:
                    case.check(not frozen[0], "frozen signal is changed")
                    case.check(op != "bad", "not a coroutine function")
                    (model.discard if op == "disconnect" else model.add)(i)
            elif op == "copy" and len(sigs) < 5:
                sigs.append((sig.copy(), set(model), [False]))
            elif op == "freeze":
                sig.freeze()
                frozen[0] = True
            elif op == "call":
                fail.clear()
                if rng.random() < 0.2:
                    fail.add(i)
                del ran[:]
                try:
                    await sig.call(step, key=step)
                except Boom as e:
                    case.check(e.token == i and i in model, "wrong error")
                else:
                    case.check(not fail & model, "error is lost")
                    case.check({r[0] for r in ran} == model,
                               "receivers are not called", ran=ran,
                               model=model)
                case.check(len(ran) == len({r[0] for r in ran}) and all(
                    r[0] in model and r[1:] == ((step,), (("key", step),))
                    for r in ran), "wrong call of a receiver", ran=ran,
                    model=model)
                case.event("called", len(ran))
            elif op == "storm":
                # calls at once, and changes at the meantime
                fail.clear()
                del ran[:]
                n = rng.randint(2, 5)
                tasks = [asyncio.ensure_future(sig.call(k)) for k in range(n)]
                keep = set(model)
                for _ in range(rng.randint(0, 3)):
                    await asyncio.sleep(rng.choice([0, 0.125, 0.25]))
                    if not frozen[0]:
                        j = rng.randrange(len(pool))
                        if rng.random() < 0.5:
                            sig.connect(pool[j])
                            model.add(j)
                        else:
                            sig.disconnect(pool[j])
                            model.discard(j)
                            keep.discard(j)
                await asyncio.gather(*tasks)
                calls = [(r[0], r[1][0]) for r in ran]
                case.check(len(set(calls)) == len(calls), "called twice",
                           calls=calls)
                lost = {(a, b) for a in keep for b in range(n)} - set(calls)
                case.check(not lost, "receiver is not called", lost=lost)
                case.event("storm")
            for s, m, f in sigs:
                case.check(s.is_frozen == f[0], "wrong state of the signal")
    run_virtual(main)


QUICK_SCALE = 5
SCENARIOS = [
    Scenario(hierarchy, quick=1500),
    Scenario(signals, quick=1500),
]
