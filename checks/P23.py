import threading

import aiomisc.service.dns.store
import aiomisc.service.dns.tree
import aiomisc.service.dns.zone
from aiomisc.service.dns import DNSStore, DNSZone
from aiomisc.service.dns.records import RecordType

from checks.dnsmon import CODES, LABELS, Spec, random_name
from vf.core import Scenario
from vf.inject import Injector

RULE = (
    "random histories of adding, removing and replacing zones and records "
    "(21 record types; nested, sibling and look-alike names), each followed "
    "by queries compared with a flat model; queries racing with atomic "
    "replacements in threads; distinct by operations"
)


def absolute(name):
    return name if name.endswith(".") else name + "."


def labels_of(name):
    return absolute(name)[:-1].split(".")


def inside(name, zone):
    n, z = labels_of(name), labels_of(zone)
    return n[len(n) - len(z):] == z if len(n) >= len(z) else False


class Zone:
    def __init__(self, name):
        self.name = absolute(name)
        self.records = {}           # key -> Spec

    def find(self, name, kind):
        name = absolute(name)
        return {s.key for s in self.records.values()
                if s.name == name and s.kind == kind}


class Model:
    def __init__(self):
        self.zones = {}

    def zone_of(self, name):
        best = None
        for z in self.zones.values():
            if inside(name, z.name) and (
                best is None or
                len(labels_of(z.name)) > len(labels_of(best.name))
            ):
                best = z
        return best

    def query(self, name, kind):
        z = self.zone_of(name)
        return z.find(name, kind) if z else set()


def undot(rng, name):
    return name[:-1] if rng.random() < 0.4 else name


class History:
    def __init__(self, case):
        self.case, self.rng = case, case.rng
        self.store, self.model = DNSStore(), Model()
        self.real = {}              # zone name -> DNSZone in the store
        self.ops = []
        self.labels = self.rng.sample(LABELS, self.rng.randint(2, 5))
        self.kinds = self.rng.sample(list(CODES), self.rng.randint(1, 4))
        self.by_id = {}
        self.names = [self.name() for _ in range(6)]

    def name(self):
        return random_name(self.rng, 4, self.labels)

    def some_name(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return rng.choice(self.names)
        if r < 0.75 and self.model.zones:
            return rng.choice(list(self.model.zones))
        if r < 0.85 and self.model.zones:
            return rng.choice(self.labels) + "." + rng.choice(
                list(self.model.zones))
        if r < 0.9 and self.model.zones:
            # shares a suffix of characters but not of labels
            return "x" + rng.choice(list(self.model.zones))
        return self.name()

    def spec(self, name=None):
        return Spec(self.rng, name or self.some_name(),
                    self.rng.choice(self.kinds))

    def op(self, *what):
        self.ops.append(what)
        self.case.trace(*what)
        self.case.event("op_" + what[0])

    def rejects(self, func, *args):
        try:
            func(*args)
        except ValueError:
            self.case.event("rejected")
            return True
        return False

    def check(self, cond, mech, msg):
        self.case.check(cond, mech, msg, ops=self.ops[-25:])

    # --- operations
    def add_zone(self):
        name = self.some_name()
        good = [s for s in (self.spec() for _ in range(3))
                if inside(s.name, name)]
        self.op("add_zone", name, repr(good))
        given = undot(self.rng, name)
        zone = DNSZone(given, *[s.create() for s in good])
        self.check(zone.name == absolute(name), "zone-name", zone.name)
        bad = self.rejects(self.store.add_zone, zone)
        exists = absolute(name) in self.model.zones
        self.check(bad == exists, "add-zone",
                   f"{name}: rejected={bad} exists={exists}")
        if not bad:
            m = self.model.zones[absolute(name)] = Zone(name)
            for s in good:
                m.records.setdefault(s.key, s)
            self.real[absolute(name)] = zone

    def remove_zone(self):
        name = self.some_name()
        self.op("remove_zone", name)
        bad = self.rejects(self.store.remove_zone, undot(self.rng, name))
        exists = absolute(name) in self.model.zones
        self.check(bad == (not exists), "remove-zone",
                   f"{name}: rejected={bad} exists={exists}")
        self.model.zones.pop(absolute(name), None)
        self.real.pop(absolute(name), None)

    def pick(self):
        if not self.real:
            return None, None
        name = self.rng.choice(list(self.real))
        return self.real[name], self.model.zones[name]

    def add_record(self):
        zone, m = self.pick()
        if zone is None:
            return
        s = self.spec()
        self.op("add_record", m.name, repr(s))
        ok = inside(s.name, m.name)
        self.check(zone.check_record(s.create()) == ok, "check-record",
                   f"{s.name} in {m.name}")
        bad = self.rejects(zone.add_record, s.create())
        self.check(bad == (not ok), "add-record",
                   f"{s.name} to {m.name}: rejected={bad}")
        if ok:
            m.records.setdefault(s.key, s)

    def remove_record(self):
        zone, m = self.pick()
        if zone is None:
            return
        if m.records and self.rng.random() < 0.7:
            s = self.rng.choice(list(m.records.values()))
        else:
            s = self.spec()
        self.op("remove_record", m.name, repr(s))
        zone.remove_record(s.create())
        m.records.pop(s.key, None)

    def replace_zone(self):
        zone, m = self.pick()
        if zone is None:
            return
        specs = [self.spec() for _ in range(self.rng.randint(0, 5))]
        if self.rng.random() < 0.6:
            specs = [s for s in specs if inside(s.name, m.name)]
        self.op("replace_zone", m.name, repr(specs))
        ok = all(inside(s.name, m.name) for s in specs)
        records = (s.create() for s in specs)
        if self.rng.random() < 0.5:
            records = list(records)
        bad = self.rejects(zone.replace, records)
        self.check(bad == (not ok), "zone-replace",
                   f"{m.name} {specs}: rejected={bad}")
        if ok:
            m.records.clear()
            for s in specs:
                m.records.setdefault(s.key, s)

    def replace_store(self):
        names = {self.some_name() for _ in range(self.rng.randint(0, 3))}
        data = {}
        for n in names:
            data[n] = [self.spec() for _ in range(self.rng.randint(0, 4))]
            if self.rng.random() < 0.8:
                data[n] = [s for s in data[n] if inside(s.name, n)]
        self.op("replace_store", repr(data))
        ok = all(inside(s.name, n) for n, ss in data.items() for s in ss)
        bad = self.rejects(self.store.replace, {
            n: [s.create() for s in ss] for n, ss in data.items()})
        self.check(bad == (not ok), "store-replace",
                   f"{data}: rejected={bad}")
        if ok:
            self.model.zones = {}
            self.real = {}
            for n, ss in data.items():
                m = self.model.zones[absolute(n)] = Zone(n)
                for s in ss:
                    m.records.setdefault(s.key, s)
                self.real[absolute(n)] = self.store.get_zone(n)
                self.check(self.real[absolute(n)] is not None,
                           "zone-lost", n)

    def verify(self):
        rng = self.rng
        for _ in range(4):
            name, kind = self.some_name(), rng.choice(self.kinds)
            r = rng.random()
            m = self.model.zone_of(name)
            if m is not None and m.records and r < 0.5:
                s = rng.choice(list(m.records.values()))
                name, kind = s.name, s.kind
            want = self.model.query(name, kind)
            got = self.store.query(undot(rng, name),
                                   RecordType(CODES[kind]))
            self.compare("query", name, kind, got, want, self.model)
            self.case.event("answers", len(want))
            self.case.event("queries")
        zone, m = self.pick()
        if zone is not None:
            self.check(self.store.get_zone(undot(rng, m.name)) is zone,
                       "get-zone", m.name)
            for s in list(m.records.values())[:3]:
                got = zone.get_records(undot(rng, s.name),
                                       RecordType(CODES[s.kind]))
                self.compare("get-records", s.name, s.kind, got,
                             m.find(s.name, s.kind), m)
        gone = self.some_name()
        if absolute(gone) not in self.model.zones:
            self.check(self.store.get_zone(undot(rng, gone)) is None,
                       "get-zone", f"{gone} does not exist")

    def compare(self, mech, name, kind, got, want, where):
        specs = {}
        zones = where.zones.values() if isinstance(where, Model) else [where]
        for z in zones:
            specs.update(z.records)
        want_recs = [specs[k].create() for k in want]
        self.check(
            len(got) == len(want) and all(r in got for r in want_recs),
            mech, f"{name} {kind}: got {list(got)}, expected {want_recs}")
        for r in got:
            self.check(r.name == absolute(name) and
                       int(r.type) == CODES[kind], mech, repr(r))


def history(case):
    h = History(case)
    table = (
        [h.add_zone] * 4 + [h.remove_zone] * 2 + [h.add_record] * 6 +
        [h.remove_record] * 3 + [h.replace_zone] + [h.replace_store]
    )
    for _ in range(case.rng.randint(5, 40)):
        case.rng.choice(table)()
        h.verify()
    case.describe(ops=h.ops[:12])
    if not case.counters["answers"]:
        case.trivial()


def racing(case):
    """Queries in threads see the old or the new contents, never a mixture
    nor something older than before."""
    rng = case.rng
    depth = rng.randint(1, 3)
    parts = [rng.choice(["a", "b", "c"]) for _ in range(depth + 1)]
    suffixes = [".".join(parts[i:]) + "." for i in range(len(parts))]
    name = "www." + suffixes[0]
    per = rng.randint(1, 6)
    level = rng.choice(["store", "store", "zone"])
    gens = rng.randint(5, 30)
    # in which zone the name lives in each generation
    places = [rng.choice(suffixes) for _ in range(gens)]
    extra = [rng.random() < 0.5 for _ in range(gens)]
    case.trace(name, per, level, *places, *extra)
    case.describe(name=name, per=per, level=level, gens=gens)
    store = DNSStore()
    kind = RecordType.A
    from aiomisc.service.dns.records import A

    def contents(g):
        recs = [A.create(name, f"10.{g}.{i}.1") for i in range(per)]
        data = {places[g]: recs}
        if extra[g]:
            for s in suffixes:
                if len(s) < len(places[g]):
                    data[s] = [A.create(s, "10.9.9.9")]
        return data

    def load(g):
        if level == "store":
            store.replace(contents(g))
        else:
            store.get_zone(suffixes[-1]).replace(
                [A.create(name, f"10.{g}.{i}.1") for i in range(per)])

    if level == "zone":
        store.add_zone(DNSZone(suffixes[-1]))
    load(0)
    done = threading.Event()
    current = [0, 0]     # started, finished generation

    def reader():
        last = 0
        while True:
            stop = done.is_set()
            low = current[1]
            got = store.query(name, kind)
            high = current[0]
            seen = {str(r.data).rsplit(".", 1)[0] for r in got}
            gs = {int(s.split(".")[1]) for s in seen}
            case.expect(len(got) == per and len(gs) == 1, "mixture",
                        f"{list(map(str, seen))} generations {low}..{high}")
            if len(gs) == 1:
                g = gs.pop()
                case.expect(max(last, low) <= g <= high, "stale",
                            f"generation {g} after {last}, {low}..{high}")
                last = g
            case.event("racing_queries")
            if stop or case.noted:
                break

    threads = [threading.Thread(target=reader) for _ in range(2)]
    with Injector(rng, aiomisc.service.dns.store, aiomisc.service.dns.zone,
                  rate=0.2, max_sleep=0.001):
        for t in threads:
            t.start()
        for g in range(1, gens):
            current[0] = g
            load(g)
            current[1] = g
        done.set()
        for t in threads:
            t.join()


QUICK_SCALE = 2
SCENARIOS = [
    Scenario(history, 6000),
    Scenario(racing, 60),
]
