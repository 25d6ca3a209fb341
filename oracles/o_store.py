"""C10/C08: random histories of from_store/to_store/cancel/fail/capacity changes against an independent matching model."""
import io, contextlib, itertools
from oracles.common import sim, inf, same, need, Bad, checked, new_env

FIL = {"any": lambda x: True, "even": lambda x: x % 2 == 0, "big": lambda x: x >= 5, "none": lambda x: False, "odd": lambda x: x % 2 == 1}


def act(rng, ns, n):
    x = rng.random()
    stores = rng.sample(range(ns), rng.choice([1, 1, min(2, ns)]))
    fail = rng.choice([None, None, 0, 1, 2.5])
    if x < 0.33:
        return ["from", stores, rng.choice(["any", "any", "even", "odd", "big", "none"]), rng.choice([0, 0, 1, -1]), fail, rng.choice([None, None, "min", "max"])]
    if x < 0.66:
        return ["to", stores, rng.choice([0, 0, 1, -1]), rng.choice([0, 0, 1]), fail]
    if x < 0.8:
        return ["hold", rng.choice([0, 1, 1, 2])]
    if x < 0.86:
        return ["cap", rng.randrange(ns), rng.choice([0, 1, 2, 3, None])]
    if x < 0.9:
        return ["take", rng.randrange(ns), rng.randrange(3)]
    if x < 0.93:
        return ["put", rng.randrange(ns)]
    if x < 0.96:
        return ["filter", rng.randrange(n), rng.choice(sorted(FIL))]
    return ["on", rng.randrange(n), rng.choice(["activate", "cancel", "passivate", "hold"]), rng.choice([0, 1])]


def gen(rng, size):
    ns, n = rng.randrange(1, 4), rng.randrange(2, 6)
    return dict(yl=rng.random() < 0.7, caps=[rng.choice([1, 1, 2, 3, None]) for _ in range(ns)], fill=[rng.choice([0, 0, 1]) for _ in range(ns)],
                procs=[[act(rng, ns, n) for _ in range(rng.randrange(2, 3 + size // 2))] for _ in range(n)], starts=[rng.choice([0, 0, 1]) for _ in range(n)])


def exhaustive():
    A = [["from", [0], "any", 0, None, None], ["from", [0, 1], "even", 0, 1, None], ["to", [0], 0, 0, None], ["to", [1, 0], -1, 0, 1], ["hold", 1], ["cap", 0, 2]]
    for a in itertools.product(range(len(A)), repeat=3):
        yield dict(yl=True, caps=[1, 1], fill=[0, 0], procs=[[A[a[0]], ["hold", 1]], [A[a[1]], ["hold", 1]], [["hold", 0.5], A[a[2]], ["to", [0, 1], 0, 0, 2.5], ["from", [0], "any", 0, 2.5, None]]], starts=[0, 0, 0])


class C:
    def __init__(self, i):
        self.i = i
        self.w = None
        self.key = {}
        self.status, self.wake, self.outcome, self.item = "scheduled", inf, None, None


class Model:
    def __init__(self, caps, n):
        self.cap = [inf if c is None else c for c in caps]
        self.s = [[] for _ in caps]  # (item, priority, seq)
        self.c = [C(i) for i in range(n)]
        self.seq = 0
        self.now = 0

    def items(self, i):
        return [e[0] for e in sorted(self.s[i], key=lambda e: (e[1], e[2]))]

    def line(self, i, kind):
        return sorted([c for c in self.c if c.w is not None and c.w["kind"] == kind and i in c.w["stores"]], key=lambda c: c.key[i])

    def done(self, c, item):
        c.w = None
        c.status, c.wake, c.outcome, c.item = "scheduled", self.now, "ok", item

    def put(self, i, item, p):
        """item arrives in store i: the first waiting taker whose condition it satisfies gets it"""
        for c in self.line(i, "from"):
            if c.w["filter"](item):
                self.done(c, item)
                self.room(i)
                return
        self.seq += 1
        self.s[i].append((item, p, self.seq))

    def room(self, i):
        if len(self.s[i]) < self.cap[i]:
            l = self.line(i, "to")
            if l:
                c = l[0]
                item, p = c.w["item"], c.w["prio"]
                self.done(c, None)
                self.put(i, item, p)
                return True
        return False

    def take(self, i, item):
        self.s[i] = [e for e in self.s[i] if e[0] != item]
        self.room(i)

    def rescan(self, i):
        for c in self.line(i, "from"):
            if c.w is None:
                continue
            for item in self.items(i):
                if c.w["filter"](item):
                    self.done(c, item)
                    self.take(i, item)
                    break

    def wait(self, c, w, rp, fail):
        c.w, c.key = w, {}
        for i in w["stores"]:
            self.seq += 1
            c.key[i] = (rp, self.seq)
        c.status, c.wake, c.outcome, c.item = "requesting", inf if fail is None else self.now + fail, "fail", None

    def drop(self, c):
        if c.w is not None:
            c.w = None
            c.outcome, c.item = "fail", None


@checked
def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case)


def _run(case):
    n = len(case["procs"])
    env = new_env(case["yl"])
    m = Model(case["caps"], n)
    st = [sim.Store(f"s{i}", capacity=c) for i, c in enumerate(m.cap)]
    comps, err, items = [], [], []

    class Item(sim.Component):
        pass

    def new_item():
        x = sim.Component(f"i{len(items)}", process="")
        x.v = len(items)
        items.append(x)
        return x

    for i, f in enumerate(case["fill"]):
        for _ in range(f):
            x = new_item()
            m.put(i, x.v, 0)
            x.enter_sorted(st[i], 0)

    def look(where):
        if err:
            return
        try:
            where_is = {}
            for i, s in enumerate(st):
                got = [x.v for x in s]
                need(got == m.items(i), f"{where}: s{i} holds {got} instead of {m.items(i)}")
                need(len(s) == len(got), f"{where}: len of s{i}")
                for x in got:
                    need(x not in where_is, f"{where}: item {x} is in two stores")
                    where_is[x] = i
                need(s.available_quantity() == m.cap[i] - len(got), f"{where}: available_quantity of s{i}")
                for kind, q in (("from", s.from_store_requesters()), ("to", s.to_store_requesters())):
                    need([c.name() for c in q] == [f"c{k.i}" for k in m.line(i, kind)], f"{where}: {kind}_store_requesters of s{i} {[c.name() for c in q]} instead of {[f'c{k.i}' for k in m.line(i, kind)]}")
            for c, k in zip(comps, m.c):
                need(c.status() == k.status, f"{where}: c{k.i} is {c.status()} instead of {k.status}")
                if k.status in ("scheduled", "requesting"):
                    need(same(c.scheduled_time(), k.wake), f"{where}: c{k.i} scheduled for {c.scheduled_time()} instead of {k.wake}")
        except Bad as e:
            err.append(str(e))

    class X(sim.Component):
        def setup(self, k):
            self.k = k

    def body(self):
        k = self.k
        m.now = env.now()
        k.status, k.wake = "current", inf
        look(f"c{k.i} starts")
        for a in case["procs"][k.i]:
            if err:
                break
            what = f"c{k.i} {a} at {env.now()}"
            m.now = env.now()
            if a[0] in ("from", "to"):
                ss, fail = a[1], a[4]
                sr = [st[i] for i in ss]
                if a[0] == "from":
                    fn, rp, key = a[2], a[3], a[5]
                    f = FIL[fn]
                    kf = None if key is None else (lambda x: x) if key == "min" else (lambda x: -x)
                    cand = [(i, x) for i in ss for x in m.items(i) if f(x)]
                    if cand:
                        i, x = cand[0] if kf is None else min(cand, key=lambda e: kf(e[1]))
                        m.done(k, x)
                        k.status = "current"
                        m.take(i, x)
                        k.status = "scheduled"
                    else:
                        m.wait(k, dict(kind="from", stores=ss, filter=f), rp, fail)
                    th = lambda: self.from_store(sr if len(sr) > 1 else sr[0], filter=lambda c: f(c.v), request_priority=rp, fail_delay=fail, key=None if kf is None else lambda c: kf(c.v))
                else:
                    rp, p = a[2], a[3]
                    x = new_item()
                    free = [i for i in ss if len(m.s[i]) < m.cap[i]]
                    if free:
                        m.put(free[0], x.v, p)
                        m.done(k, None)
                    else:
                        m.wait(k, dict(kind="to", stores=ss, item=x.v, prio=p), rp, fail)
                    th = lambda: self.to_store(sr if len(sr) > 1 else sr[0], x, request_priority=rp, priority=p, fail_delay=fail)
                got = yield th
                m.now = env.now()
                if err:
                    break
                if not same(env.now(), k.wake):
                    err.append(f"{what}: continues at {env.now()} instead of {k.wake}")
                k.status, k.wake = "current", inf
                m.drop(k)
                if self.failed() != (k.outcome == "fail"):
                    err.append(f"{what}: failed() is {self.failed()} instead of {k.outcome == 'fail'}")
                if a[0] == "from" and not self.failed():
                    it = self.from_store_item()
                    if it is None or it.v != k.item:
                        err.append(f"{what}: got {it} instead of i{k.item}")
                    if got is not it and (case["yl"] or got is not None):
                        err.append(f"{what}: from_store returns {got}, from_store_item {it}")
                if a[0] == "from" and self.failed() and case["yl"] and got is not None:
                    err.append(f"{what}: failed, but returns {got}")
                for s in st:
                    if self in s.from_store_requesters() or self in s.to_store_requesters():
                        err.append(f"{what}: still in line")
                look(what + " (continues)")
                continue
            if a[0] == "hold":
                k.status, k.wake = "scheduled", m.now + a[1]
                yield lambda: self.hold(a[1])
                m.now = env.now()
                k.status, k.wake = "current", inf
                look(what + " (continues)")
                continue
            if a[0] == "cap":
                _, i, c = a
                c = inf if c is None else c
                old = m.cap[i]
                m.cap[i] = c
                if c >= old:
                    while m.room(i):
                        pass
                st[i].set_capacity(c)
            elif a[0] == "take":
                _, i, j = a
                l = m.items(i)
                if j < len(l):
                    items[l[j]].leave(st[i])
                    m.take(i, l[j])
            elif a[0] == "put":
                i = a[1]
                if len(m.s[i]) < m.cap[i]:
                    x = new_item()
                    m.put(i, x.v, 0)
                    x.enter_sorted(st[i], 0)
            elif a[0] == "filter":
                _, j, fn = a
                o, ok = comps[j], m.c[j]
                if ok.w is not None and ok.w["kind"] == "from":
                    f = FIL[fn]
                    ok.w["filter"] = f
                    for i in list(ok.w["stores"]):
                        m.rescan(i)
                        if ok.w is None:
                            break
                    (lambda f: o.filter(lambda c: f(c.v)))(f)
            elif a[0] == "on":
                _, j, op, d = a
                o, ok = comps[j], m.c[j]
                if j == k.i or o.isdata():
                    continue
                m.drop(ok)
                if op in ("activate", "hold"):
                    ok.status, ok.wake = "scheduled", m.now + d
                    o.activate(delay=d) if op == "activate" else o.hold(d)
                elif op == "passivate":
                    ok.status, ok.wake = "passive", inf
                    o.passivate()
                else:
                    ok.status, ok.wake = "data", inf
                    o.cancel()
            look(what)
        k.status, k.wake = "data", inf

    if case["yl"]:
        def process(self):
            g = body(self)
            v = None
            while True:
                try:
                    th = g.send(v)
                except StopIteration:
                    return
                v = th()
    else:
        def process(self):
            g = body(self)
            v = None
            while True:
                try:
                    th = g.send(v)
                except StopIteration:
                    return
                v = yield th()
    X.process = process
    for i in range(n):
        comps.append(X(name=f"c{i}", delay=case["starts"][i], k=m.c[i]))
        m.c[i].wake = case["starts"][i]
    for _ in range(6):
        if err:
            break
        env.run(2)
        m.now = env.now()
        look("main")
    if err:
        raise Bad(err[0])
