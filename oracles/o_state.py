"""C09/C08: random histories of state changes, triggers and waits against an independent model of the waiting conditions."""
import io, contextlib, itertools
from oracles.common import sim, inf, same, need, Bad, checked, new_env

VALS = [False, True, 0, 1, 2, 3, "a", "b"]
NUM = [0, 1, 2, 3]
FUN = {"gt1": (lambda v, c, s: isinstance(v, (int, float)) and v > 1), "even": (lambda v, c, s: isinstance(v, int) and v % 2 == 0)}
EXPR = {"$ > 1": lambda v: v > 1, "$ in (1,3)": lambda v: v in (1, 3), "'$' != 0": lambda v: True, "$ == 2 or $ == 0": lambda v: v in (0, 2)}


def term(rng, ns):
    k = rng.random()
    i = rng.randrange(ns)
    if k < 0.65:
        return [i, "val", rng.choice(NUM)]
    if k < 0.8:
        return [i, "fun", rng.choice(sorted(FUN))]
    return [i, "expr", rng.choice(sorted(EXPR))]


def act(rng, ns, n):
    x = rng.random()
    if x < 0.45:
        return ["wait", [term(rng, ns) for _ in range(rng.choice([1, 1, 2, 3]))], rng.random() < 0.5, rng.choice([None, None, 0, 1, 2.5]), rng.choice([None, 0, 0, 1, -1])]
    if x < 0.5:
        return ["waitfor", sorted(set(rng.randrange(ns) for _ in range(2))), rng.choice([2, 3, 4]), rng.choice([None, 1]), rng.choice([0, 1])]
    if x < 0.65:
        return ["set", rng.randrange(ns), rng.choice(NUM)]
    if x < 0.72:
        return ["trigger", rng.randrange(ns), rng.choice(NUM), rng.choice([None, None] + NUM), rng.choice([None, 1, 2, 0])]
    if x < 0.75:
        return ["reset", rng.randrange(ns)]
    if x < 0.9:
        return ["hold", rng.choice([0, 1, 1, 2])]
    return ["on", rng.randrange(n), rng.choice(["activate", "cancel", "passivate", "hold", "keep"]), rng.choice([0, 1])]


def gen(rng, size):
    ns, n = rng.randrange(1, 4), rng.randrange(2, 6)
    return dict(yl=rng.random() < 0.7, init=[rng.choice(NUM) for _ in range(ns)], procs=[[act(rng, ns, n) for _ in range(rng.randrange(2, 3 + size // 2))] for _ in range(n)], starts=[rng.choice([0, 0, 1]) for _ in range(n)])


def exhaustive():
    terms = [[0, "val", 1], [1, "val", 1], [0, "val", 2], [0, "expr", "$ > 1"], [1, "fun", "gt1"]]
    ops = [["set", 0, 1], ["set", 1, 1], ["set", 0, 2], ["set", 1, 2], ["trigger", 0, 1, None, 1], ["trigger", 0, 2, 1, None], ["trigger", 1, 2, None, 0]]
    for a, b in itertools.product(terms, repeat=2):
        for al in (False, True):
            for o in itertools.product(ops, repeat=2):
                yield dict(yl=True, init=[0, 0], procs=[[["wait", [a, b], al, None, None]], [["wait", [b], al, 1, 0]], [["hold", 0.5], list(o[0]), list(o[1])]], starts=[0, 0, 0])


class C:
    def __init__(self, i):
        self.i = i
        self.w = None
        self.key = {}
        self.status, self.wake, self.outcome = "scheduled", inf, None


class Model:
    def __init__(self, init, n):
        self.v = list(init)
        self.c = [C(i) for i in range(n)]
        self.seq = 0
        self.now = 0
        self.order = []

    def holds(self, c):
        if c.w[0] == "for":
            return sum(self.v[i] for i in c.w[1]) >= c.w[2]
        r = []
        for i, k, x in c.w[1]:
            v = self.v[i]
            r.append(v == x if k == "val" else FUN[x](v, None, None) if k == "fun" else EXPR[x](v))
        return all(r) if c.w[2] else any(r)

    def queue(self, i):
        return sorted([c for c in self.c if c.w is not None and i in c.key], key=lambda c: c.key[i])

    def attempt(self, c):
        if not self.holds(c):
            return False
        c.w = None
        c.status, c.wake, c.outcome = "scheduled", self.now, "ok"
        self.order.append(c.i)
        return True

    def scan(self, i, mx=inf):
        for c in self.queue(i):
            if mx <= 0:
                break
            if self.attempt(c):
                mx -= 1

    def set(self, i, v):
        if self.v[i] != v:
            self.v[i] = v
            self.scan(i)

    def wait(self, c, w, states, fail, prio):
        c.w, c.key = w, {}
        for i in states:
            if i not in c.key:
                if prio is None:
                    before = [d for d in self.queue(i) if d is not c]
                    p = before[-1].key[i][0] if before else 0
                else:
                    p = prio
                self.seq += 1
                c.key[i] = (p, self.seq)
        if not self.attempt(c):
            c.status, c.wake, c.outcome = "waiting", inf if fail is None else self.now + fail, "fail"

    def drop(self, c):
        if c.w is not None:
            c.w = None
            c.outcome = "fail"


@checked
def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case)


def _run(case):
    n = len(case["procs"])
    env = new_env(case["yl"])
    st = [sim.State(f"s{i}", value=v) for i, v in enumerate(case["init"])]
    m = Model(case["init"], n)
    comps, err = [], []

    def look(where):
        if err:
            return
        try:
            for i, s in enumerate(st):
                need(s() == m.v[i] and s.get() == m.v[i] and s.value() == m.v[i], f"{where}: s{i} is {s()}/{s.value()} instead of {m.v[i]}")
                need([c.name() for c in s.waiters()] == [f"c{k.i}" for k in m.queue(i)], f"{where}: waiters of s{i} {[c.name() for c in s.waiters()]} instead of {[f'c{k.i}' for k in m.queue(i)]}")
            for c, k in zip(comps, m.c):
                need(c.status() == k.status, f"{where}: c{k.i} is {c.status()} instead of {k.status}")
                if k.status in ("scheduled", "waiting"):
                    need(same(c.scheduled_time(), k.wake), f"{where}: c{k.i} scheduled for {c.scheduled_time()} instead of {k.wake}")
        except Bad as e:
            err.append(str(e))

    class X(sim.Component):
        def setup(self, k):
            self.k = k

    def cur(k, what):
        m.now = env.now()
        if k.i in m.order:
            if k.status == "scheduled" and k.outcome == "ok":
                first = [j for j in m.order]
                if first[0] != k.i:
                    err.append(f"{what}: c{k.i} continues before c{first[0]} that was honored earlier")
            m.order.remove(k.i)
        k.status, k.wake = "current", inf

    def body(self):
        k = self.k
        cur(k, "start")
        look(f"c{k.i} starts")
        for a in case["procs"][k.i]:
            if err:
                break
            what = f"c{k.i} {a} at {env.now()}"
            m.now = env.now()
            th = None
            if a[0] in ("wait", "waitfor"):
                if a[0] == "wait":
                    _, terms, al, fail, prio = a
                    spec = [(st[i], FUN[x] if kk == "fun" else x) for i, kk, x in terms]
                    m.wait(k, ["w", terms, al], [t[0] for t in terms], fail, prio)
                    th = lambda: self.wait(*spec, all=al, fail_delay=fail, request_priority=prio)
                else:
                    _, ss, thr, fail, prio = a
                    m.wait(k, ["for", ss, thr], ss, fail, prio)
                    th = lambda: self.wait_for(lambda: sum(st[i]() for i in ss) >= thr, [st[i] for i in ss], fail_delay=fail, request_priority=prio)
                k.want = True
                yield th
                if err:
                    break
                if not same(env.now(), k.wake):
                    err.append(f"{what}: continues at {env.now()} instead of {k.wake}")
                cur(k, what)
                m.drop(k)
                if self.failed() != (k.outcome == "fail"):
                    err.append(f"{what}: failed() is {self.failed()} instead of {k.outcome == 'fail'}")
                if any(self in s.waiters() for s in st):
                    err.append(f"{what}: still in a waiters queue")
                look(what + " (continues)")
                continue
            if a[0] == "hold":
                k.status, k.wake, k.outcome = "scheduled", m.now + a[1], None
                yield lambda: self.hold(a[1])
                cur(k, what)
                look(what + " (continues)")
                continue
            if a[0] == "set":
                m.set(a[1], a[2])
                st[a[1]].set(a[2])
            elif a[0] == "reset":
                m.set(a[1], 0)
                st[a[1]].reset(0)
            elif a[0] == "trigger":
                _, i, v, va, mx = a
                after = m.v[i] if va is None else va
                m.v[i] = v
                m.scan(i, inf if mx is None else mx)
                m.v[i] = after
                m.scan(i)
                st[i].trigger(v, value_after=va, max=inf if mx is None else mx)
            elif a[0] == "on":
                _, j, op, d = a
                o, ok = comps[j], m.c[j]
                if j == k.i or o.isdata():
                    continue
                if op in ("activate", "hold", "passivate", "cancel"):
                    m.drop(ok)
                    if j in m.order:
                        m.order.remove(j)
                if op in ("activate", "hold"):
                    ok.status, ok.wake = "scheduled", m.now + d
                    o.activate(delay=d) if op == "activate" else o.hold(d)
                elif op == "passivate":
                    ok.status, ok.wake = "passive", inf
                    o.passivate()
                elif op == "cancel":
                    ok.status, ok.wake = "data", inf
                    o.cancel()
            look(what)
        k.status, k.wake = "data", inf

    if case["yl"]:
        def process(self):
            for th in body(self):
                th()
    else:
        def process(self):
            for th in body(self):
                yield th()
    X.process = process
    for i in range(n):
        comps.append(X(name=f"c{i}", delay=case["starts"][i], k=m.c[i]))
        m.c[i].wake = case["starts"][i]
    for _ in range(6):
        if err:
            break
        env.run(2)
        m.now = env.now()
        look("main")
    if err:
        raise Bad(err[0])
