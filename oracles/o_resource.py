"""C06/C07/C08: random histories of requests, releases, cancellations, failures and capacity changes on several resources
against an independent allocation model (exact, except for requests that mix anonymous and non-anonymous resources, where only the invariants are checked)."""
import io, contextlib, itertools
from oracles.common import sim, inf, same, need, Bad, checked, new_env

PR = [0, 0, 1, 2, -1]


def res_spec(rng):
    kind = rng.choices(["plain", "anon", "first", "high", "preempt"], [6, 3, 1, 1, 1])[0]
    cap = rng.choice([1, 1, 2, 3, 5])
    return dict(kind=kind, cap=cap, init=rng.choice([0, 1, cap]) if kind == "anon" else 0)


def act(rng, n, rs, mixed):
    x = rng.random()
    plain = [i for i, r in enumerate(rs) if r["kind"] in ("plain", "first", "high")]
    if x < 0.42:
        i = rng.randrange(len(rs))
        k = rs[i]["kind"]
        fail = rng.choice([None, None, 0, 1, 2.5])
        if k == "anon" and not mixed:
            return ["anon", i, rng.choice([1, 1, 2]), rng.random() < 0.5, rng.choice(PR), fail]
        if k == "preempt":
            return ["req", [[i, rng.choice([1, 1, 2, 3]), rng.choice(PR)]], False, fail]
        pool = list(range(len(rs))) if mixed else plain
        pool = [j for j in pool if rs[j]["kind"] != "preempt"]
        k = rng.choice([1, 1, 1, 2, 2, 3])
        items = [[rng.choice(pool), rng.choice([1, 1, 1, 2, 0.5, 3]), rng.choice(PR)] for _ in range(k)]
        return ["req", items, rng.random() < 0.25 and k > 1, fail]
    if x < 0.60:
        return ["rel", rng.randrange(-1, len(rs)), rng.choice([None, None, 1, 0.5, 2])]
    if x < 0.75:
        return ["hold", rng.choice([0, 1, 1, 2, 3])]
    if x < 0.80:
        return ["cap", rng.randrange(len(rs)), rng.choice([0, 1, 2, 3, 5])]
    if x < 0.85:
        return ["relall", rng.randrange(len(rs)), rng.choice([None, 1])]
    if x < 0.88:
        return ["passivate"]
    return ["on", rng.randrange(n), rng.choice(["activate", "cancel", "passivate", "hold", "release"]), rng.choice([0, 1, 2])]


def gen(rng, size):
    n = rng.randrange(2, 6)
    rs = [res_spec(rng) for _ in range(rng.randrange(1, 4))]
    if all(r["kind"] in ("anon", "preempt") for r in rs):
        rs.append(dict(kind="plain", cap=2, init=0))
    mixed = rng.random() < 0.25 and any(r["kind"] == "anon" for r in rs)
    return dict(yl=rng.random() < 0.7, rs=rs, mixed=mixed, procs=[[act(rng, n, rs, mixed) for _ in range(rng.randrange(2, 3 + size // 2))] for _ in range(n)],
                starts=[rng.choice([0, 0, 1, 2]) for _ in range(n)], trace=False)


def exhaustive():
    rs = [dict(kind="plain", cap=2, init=0)]
    acts = [["req", [[0, 1, 0]], False, None], ["req", [[0, 2, 0]], False, 1], ["req", [[0, 1, -1]], False, 2.5], ["rel", 0, None], ["rel", 0, 1], ["hold", 1], ["cap", 0, 3], ["on", 0, "cancel", 0]]
    for a in itertools.product(range(len(acts)), repeat=3):
        yield dict(yl=True, rs=rs, mixed=False, procs=[[["req", [[0, 2, 0]], False, None], ["hold", 2]], [["req", [[0, 1, 1]], False, None], ["hold", 1]], [acts[i] for i in a] + [["hold", 1]]], starts=[0, 0, 0], trace=False)


class C:
    def __init__(self, i):
        self.i = i
        self.req = None  # {r: q}
        self.key = {}
        self.oneof = False
        self.claims = {}
        self.cprio = {}
        self.wake = inf
        self.outcome = None
        self.status = "scheduled"
        self.ended = False


class Model:
    def __init__(self, rs, n):
        self.rs = rs
        self.cap = [r["cap"] for r in rs]
        self.cl = [r["init"] for r in rs]
        self.kind = [r["kind"] for r in rs]
        self.c = [C(i) for i in range(n)]
        self.seq = 0
        self.now = 0

    def queue(self, r):
        return sorted([c for c in self.c if c.req is not None and r in c.req], key=lambda c: c.key[r])

    def claimers(self, r):
        return sorted([c for c in self.c if c.claims.get(r, 0) > 1e-8], key=lambda c: c.cprio[r])

    def ok(self, c, r):
        qu = self.queue(r)
        if self.kind[r] == "first" and qu[0] is not c:
            return False
        if self.kind[r] == "high" and qu[0].key[r][0] != c.key[r][0]:
            return False
        q = c.req[r]
        return q <= self.cap[r] - self.cl[r] + 1e-8 if q > 0 else -q <= self.cl[r] + 1e-8

    def attempt(self, c):
        oks = [r for r in c.req if self.ok(c, r)]
        if c.oneof:
            got = oks[:1]
        else:
            got = list(c.req) if len(oks) == len(c.req) else []
        if not got:
            return False
        anon = [r for r in c.req if self.kind[r] == "anon"]
        for r in got:
            self.cl[r] += c.req[r]
            if self.kind[r] != "anon":
                if r not in c.claims:
                    self.seq += 1
                    c.cprio[r] = (c.key[r][0], self.seq)
                c.claims[r] = c.claims.get(r, 0) + c.req[r]
        c.req = None
        c.status, c.wake, c.outcome = "scheduled", self.now, "ok"
        for r in anon:
            self.scan(r)
        return True

    def scan(self, r):
        again = True
        while again:
            again = False
            for c in self.queue(r):
                if self.attempt(c):
                    again = True
                    break

    def request(self, c, items, oneof, fail):
        c.req, c.key, c.oneof = {}, {}, oneof
        for r, q, p in items:
            self.seq += 1
            c.req[r] = c.req.get(r, 0) + q
            if r not in c.key:
                c.key[r] = (p, self.seq)
        bumped = []
        if len(items) == 1 and self.kind[items[0][0]] == "preempt":
            r, q, p = items[0]
            av = self.cap[r] - self.cl[r]
            cand = []
            for d in reversed(self.claimers(r)):
                if av >= q or p >= d.cprio[r][0]:
                    break
                av += d.claims[r]
                cand.append(d)
            if av >= q:
                for d in cand:
                    self.give(d, r, None, False)
                    if d is not c:
                        self.plan(d, self.now)
                    bumped.append(d)
        if not self.attempt(c):
            c.status, c.wake, c.outcome = "requesting", inf if fail is None else self.now + fail, "fail"
        return bumped

    def give(self, c, r, q, rescan=True):
        q = c.claims[r] if q is None else min(q, c.claims[r])
        c.claims[r] -= q
        self.cl[r] -= q
        if c.claims[r] < 1e-8:
            del c.claims[r]
        if rescan:
            self.scan(r)

    def plan(self, c, t):
        """c gets another plan (activate, hold)"""
        self.drop(c)
        c.status, c.wake = "scheduled", t

    def drop(self, c):
        if c.req is not None:
            c.req = None
            c.outcome = "fail"


@checked
def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case)


def _run(case):
    rs, n, mixed = case["rs"], len(case["procs"]), case["mixed"]
    env = new_env(case["yl"], trace=case["trace"])
    res = [sim.Resource(f"r{i}", capacity=r["cap"], anonymous=r["kind"] == "anon", initial_claimed_quantity=r["init"], preemptive=r["kind"] == "preempt",
                        honor_only_first=r["kind"] == "first", honor_only_highest_priority=r["kind"] == "high") for i, r in enumerate(rs)]
    m = Model(rs, n)
    comps, err = [], []
    anon_net = [r["init"] for r in rs]
    capped = [False] * len(rs)

    def invariants(where):
        for i, r in enumerate(res):
            nm = f"{where}: r{i}"
            cq = r.claimed_quantity()
            if rs[i]["kind"] != "anon":
                s = sum(c.claimed_quantity(r) for c in comps)
                need(same(cq, s), f"{nm}: claimed_quantity {cq}, but its claimers hold {s}")
                need(set(r.claimers()) == {c for c in comps if c.claimed_quantity(r) > 0}, f"{nm}: claimers {r.claimers().as_list()}")
                ps = [c.priority(r.claimers()) for c in r.claimers()]
                need(ps == sorted(ps), f"{nm}: claimers not in priority order")
            need(same(r.available_quantity(), r.capacity() - cq), f"{nm}: available_quantity {r.available_quantity()} with capacity {r.capacity()} and claimed {cq}")
            need(same(r.occupancy(), 0 if r.capacity() <= 0 else cq / r.capacity()), f"{nm}: occupancy {r.occupancy()}")
            if not capped[i]:
                need(cq <= r.capacity() + 1e-7, f"{nm}: claimed_quantity {cq} exceeds the capacity {r.capacity()}")
            need(cq >= -1e-7, f"{nm}: claimed_quantity {cq} negative")
            need(set(r.requesters()) == {c for c in comps if r in c.requested_resources()}, f"{nm}: requesters")
            for c in r.requesters():
                need(c.isrequesting() or c.iscurrent(), f"{nm}: {c.name()} is in the requesters queue, but {c.status()}")
        for c in comps:
            if c.isrequesting():
                rq = c.requested_resources()
                if any(rs[res.index(r)]["kind"] in ("first", "high", "preempt") for r in rq):
                    continue
                fit = [(c.requested_quantity(r) <= r.available_quantity() + 1e-9) if c.requested_quantity(r) > 0 else -c.requested_quantity(r) <= r.claimed_quantity() + 1e-9 for r in rq]
                need(not (any(fit) if c.oneof_request else all(fit)), f"{where}: {c.name()} waits, but its request {[(r.name(), c.requested_quantity(r)) for r in rq]} could be honored")

    def exact(where):
        for i, r in enumerate(res):
            nm = f"{where}: r{i}"
            need(same(r.claimed_quantity(), m.cl[i]), f"{nm}: claimed_quantity {r.claimed_quantity()} instead of {m.cl[i]}")
            need([c.name() for c in r.requesters()] == [f"c{k.i}" for k in m.queue(i)], f"{nm}: requesters {[c.name() for c in r.requesters()]} instead of {[f'c{k.i}' for k in m.queue(i)]}")
            if rs[i]["kind"] != "anon":
                need([c.name() for c in r.claimers()] == [f"c{k.i}" for k in m.claimers(i)], f"{nm}: claimers {[c.name() for c in r.claimers()]} instead of {[f'c{k.i}' for k in m.claimers(i)]}")
        for c, k in zip(comps, m.c):
            nm = f"{where}: c{k.i}"
            for i, r in enumerate(res):
                need(same(c.claimed_quantity(r), k.claims.get(i, 0)), f"{nm}: claims {c.claimed_quantity(r)} of r{i} instead of {k.claims.get(i, 0)}")
                need(same(c.requested_quantity(r), (k.req or {}).get(i, 0)), f"{nm}: requests {c.requested_quantity(r)} of r{i} instead of {(k.req or {}).get(i, 0)}")
            if k.ended:
                need(c.isdata(), f"{nm}: {c.status()} instead of data")
                continue
            need(c.status() == k.status, f"{nm}: {c.status()} instead of {k.status}")
            if k.status in ("scheduled", "requesting"):
                need(same(c.scheduled_time(), k.wake), f"{nm}: scheduled for {c.scheduled_time()} instead of {k.wake}")

    def look(where):
        if err:
            return
        try:
            invariants(where)
            if not mixed:
                exact(where)
        except Bad as e:
            err.append(str(e))

    class X(sim.Component):
        def setup(self, k):
            self.k = k

    def body(self):
        k = self.k
        m.now = env.now()
        k.status, k.wake = "current", inf
        look(f"c{k.i} starts")
        for a in case["procs"][k.i]:
            if err:
                break
            th = None
            what = f"c{k.i} {a} at {env.now()}"
            m.now = env.now()
            if a[0] in ("req", "anon"):
                if a[0] == "req":
                    items, oneof, fail = a[1], a[2], a[3]
                    if rs[items[0][0]]["kind"] == "preempt" and self.isclaiming(res[items[0][0]]):
                        continue  # bumping oneself is not specified
                    th = lambda: self.request(*[(res[i], q, p) for i, q, p in items], oneof=oneof, fail_delay=fail)
                else:
                    _, i, q, put, p, fail = a
                    items, oneof = [[i, -q if put else q, p]], False
                    th = (lambda: self.put((res[i], q, p), fail_delay=fail)) if put else (lambda: self.get((res[i], q, p), fail_delay=fail))
                t0 = env.now()
                before = {r: self.claimed_quantity(r) for r in res}
                cl0 = [r.claimed_quantity() for r in res]
                if not mixed:
                    m.request(k, items, oneof, fail)
                    exp = k.outcome
                for z in range(len(res)):
                    capped[z] = capped[z] and res[z].claimed_quantity() > res[z].capacity()
                yield th
                m.now = env.now()
                if err:
                    break
                ctx = None
                if self.failed():
                    if fail is None:
                        ctx = "failed" if not self.k.outcome == "fail" and not mixed else None
                    for r in res:
                        if self.claimed_quantity(r) > before[r] + 1e-9:
                            err.append(f"{what}: failed, but claims {r.name()}")
                    if self.requested_resources():
                        err.append(f"{what}: failed, but still requests")
                    if any(self in r.requesters() for r in res):
                        err.append(f"{what}: failed, but still in a requesters queue")
                if not mixed and not err:
                    want = k.outcome == "fail"
                    if self.failed() != want:
                        err.append(f"{what}: failed() is {self.failed()} instead of {want}")
                    if not same(env.now(), k.wake):
                        err.append(f"{what}: continues at {env.now()} instead of {k.wake}")
                    m.drop(k)
                k.status, k.wake = "current", inf
                look(what + " (continues)")
                continue
            if a[0] == "hold":
                k.status, k.wake = "scheduled", m.now + a[1]
                th = lambda: self.hold(a[1])
            elif a[0] == "passivate":
                k.status, k.wake = "passive", inf
                th = lambda: self.passivate()
            if th:
                yield th
                m.now = env.now()
                k.status, k.wake = "current", inf
                look(what + " (continues)")
                continue
            if a[0] == "rel":
                _, i, q = a
                if i == -1:
                    for r in list(k.claims):
                        m.give(k, r, None)
                    self.release()
                elif rs[i]["kind"] != "anon":
                    if res[i] in self.claimed_resources():
                        if not mixed:
                            m.give(k, i, q)
                        self.release(res[i] if q is None else (res[i], q))
                    else:
                        try:
                            self.release(res[i])
                            err.append(f"{what}: no ValueError")
                        except ValueError:
                            pass
            elif a[0] == "relall":
                _, i, q = a
                if rs[i]["kind"] == "anon":
                    if q is None or q <= res[i].claimed_quantity():
                        m.cl[i] -= m.cl[i] if q is None else q
                        m.scan(i)
                        res[i].release(q)
                else:
                    if not mixed:
                        for d, dq in [(d, d.claims[i]) for d in m.claimers(i)]:
                            m.give(d, i, dq)
                    res[i].release()
            elif a[0] == "cap":
                _, i, q = a
                if res[i].claimed_quantity() > q:
                    capped[i] = True
                m.cap[i] = q
                if not mixed:
                    m.scan(i)
                res[i].set_capacity(q)
            elif a[0] == "on":
                _, j, op, d = a
                o, ok = comps[j], m.c[j]
                if j == k.i or o.isdata():
                    continue
                if not mixed:
                    if op in ("activate", "hold"):
                        m.plan(ok, m.now + d)
                    elif op == "passivate":
                        m.drop(ok)
                        ok.status, ok.wake = "passive", inf
                    elif op == "cancel":
                        m.drop(ok)
                        ok.ended = True
                        for r in list(ok.claims):
                            m.give(ok, r, None)
                    elif op == "release":
                        for r in list(ok.claims):
                            m.give(ok, r, None)
                if op == "activate":
                    o.activate(delay=d)
                elif op == "hold":
                    o.hold(d)
                elif op == "passivate":
                    o.passivate()
                elif op == "cancel":
                    o.cancel()
                else:
                    o.release()
            look(what)
        if not err and not mixed:
            k.ended = True
            for r in list(k.claims):
                m.give(k, r, None)

    if case["yl"]:
        def process(self):
            for th in body(self):
                th()
    else:
        def process(self):
            for th in body(self):
                yield th()
    X.process = process
    for i in range(n):
        comps.append(X(name=f"c{i}", delay=case["starts"][i], k=m.c[i]))
        m.c[i].wake = case["starts"][i]
    for _ in range(12):
        if err:
            break
        env.run(2)
        m.now = env.now()
        look("main")
    if err:
        raise Bad(err[0])
