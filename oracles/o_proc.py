"""C01/C02/C17/C21(/C15/C23): random process interaction scripts on the real event loop against an independent event list model."""
import itertools
from oracles.common import sim, inf, same, need, Bad, checked, new_env

D = [0, 0, 0.5, 1, 1, 2, 3.5]
P = [0, 0, 0, -1, 1, 2.5]
SELF = ["hold", "hold", "hold", "holdtill", "passivate", "standby", "cancel", "reactivate", "holdint", "holdinf"]
OTHER = ["activate", "activate", "activate_at", "hold", "holdtill", "passivate", "cancel", "interrupt", "interrupt", "resume", "resume", "resumeall", "standby", "remaining", "restart", "hold_interrupted"]
NC = 4


def act(rng, n):
    if rng.random() < 0.5:
        return [rng.choice(SELF), rng.choice(D), rng.choice(P), rng.random() < 0.25, rng.randrange(1, 3)]
    return ["on", rng.randrange(n), rng.choice(OTHER), rng.choice(D), rng.choice(P), rng.random() < 0.25]


def gen(rng, size):
    n = rng.randrange(2, NC + 1)
    procs = [[act(rng, n) for _ in range(rng.randrange(1, 3 + size // 3))] for _ in range(n)]
    for s in procs:
        for a in s:
            pass
    skip = [rng.random() < 0.15 and not any(x[0] == "standby" for x in procs[i]) for i in range(n)]
    # components that skip standby are never put on standby
    for s in procs:
        for a in s:
            if a[0] == "on" and a[2] == "standby" and skip[a[1]]:
                a[2] = "passivate"
    main = []
    for _ in range(rng.randrange(1, 4)):
        main.append(["run", rng.choice([0.5, 1, 2, 4, 7]), rng.choice([None, None, 0, 1])])
        if rng.random() < 0.4:
            a = act(rng, n)
            if a[0] == "on":
                main.append(a)
        if rng.random() < 0.2:
            main.append(["reset", rng.choice([0, 10, -3])])
    main.append(["run", 30, None])
    return dict(yl=rng.random() < 0.7, skip=skip, create=[[rng.choice(D), rng.choice(P), rng.random() < 0.2, rng.random() < 0.2] for _ in range(n)], procs=procs, main=main, trace=rng.random() < 0.1)


def exhaustive():
    """two components; the second applies every pair of operations to the first, at every moment kind"""
    kinds = [["hold", 3.5, 0, False, 1], ["passivate", 0, 0, False, 1], ["standby", 0, 0, False, 1], ["holdint", 3.5, 0, False, 2]]
    ops = ["activate", "activate_at", "hold", "passivate", "cancel", "interrupt", "resume", "resumeall", "standby", "remaining", "restart", "hold_interrupted"]
    for yl in (True, False):
        for k in kinds:
            for a, b in itertools.product(ops, repeat=2):
                s1 = [["hold", 1, 0, False, 1], ["on", 0, a, 2, 0, False], ["hold", 0.5, 0, False, 1], ["on", 0, b, 1, 0, False], ["hold", 2, 0, False, 1]]
                yield dict(yl=yl, skip=[False, False], create=[[0, 0, False, False], [0, 0, False, False]], procs=[[k, ["hold", 1, 0, False, 1]], s1], main=[["run", 30, None]], trace=False)
    # ordering at equal times
    for ps in itertools.product([0, 1], repeat=3):
        for us in itertools.product([False, True], repeat=3):
            yield dict(yl=True, skip=[False] * 3, create=[[1, p, u, False] for p, u in zip(ps, us)], procs=[[["hold", 1, p, u, 1]] for p, u in zip(ps, us)], main=[["run", 2, None], ["run", 9, None]], trace=False)


class C:
    def __init__(self, i):
        self.i = i
        self.status = "data"
        self.t = inf
        self.remaining = None  # known remaining duration or None (unspecified)
        self.level = 0
        self.pos = None


class Model:
    """the event list semantics of the documentation"""

    def __init__(self, n, skip):
        self.now = 0.0
        self.off = 0.0
        self.seq = 0
        self.ev = []
        self.c = [C(i) for i in range(n)]
        self.main = C("main")
        self.main.status = "current"
        self.skip = skip
        self.stand, self.pend = [], []
        self.cur = self.main

    def push(self, c, t, p, u):
        if t < self.now:
            return False
        self.seq += 1
        c.t = t
        if t != inf:
            self.ev.append((t, p, -self.seq if u else self.seq, c))
        return True

    def unplan(self, c):
        self.ev = [e for e in self.ev if e[3] is not c]
        if c.status == "standby":
            self.stand = [x for x in self.stand if x is not c]
            self.pend = [x for x in self.pend if x is not c]

    def plan(self, c, t, p, u):
        if c is not self.cur:
            self.unplan(c)
        c.status = "scheduled"
        self.push(c, t, p, u)

    def next(self):
        """-> component that becomes current"""
        if not (self.cur is not self.main and self.skip[self.cur.i]) and self.pend:
            c = self.pend.pop(0)
        else:
            self.pend += self.stand
            self.stand = []
            e = min(self.ev, key=lambda e: e[:3])
            self.ev.remove(e)
            self.now = e[0]
            c = e[3]
        c.status = "current"
        c.t = inf
        self.cur = c
        return c

    # operations on c; return False if an error is to be raised (nothing changes then)
    def op(self, c, op, d, p, u):
        st = c.status
        if op in ("activate", "activate_at", "restart"):
            if op == "restart" or st == "data":
                c.pos = 0
            self.plan(c, self.now + d, p, u)
        elif op in ("hold", "holdtill"):
            if st == "data":
                return False
            self.plan(c, self.now + d, p, u)
        elif op == "hold_interrupted":
            if st == "data":
                return False
            self.unplan(c)
            c.remaining, c.status, c.level, c.t = d, "interrupted", 2, inf
        elif op == "passivate":
            if st == "data":
                return False
            c.remaining = 0 if c is self.cur else (c.remaining if st == "interrupted" else (c.t - self.now if st == "scheduled" else None))
            self.unplan(c)
            c.status, c.t = "passive", inf
        elif op == "cancel":
            self.unplan(c)
            c.status, c.t, c.pos = "data", inf, None
        elif op == "standby":
            if st == "data":
                return False
            self.unplan(c)
            c.status, c.t = "standby", self.now
            self.stand.append(c)
        elif op == "interrupt":
            if st == "interrupted":
                c.level += 1
            elif st == "scheduled":
                c.remaining = c.t - self.now
                self.unplan(c)
                c.status, c.level, c.t = "interrupted", 1, inf
            else:
                return False
        elif op in ("resume", "resumeall"):
            if st != "interrupted":
                return False
            c.level -= 1
            if c.level == 0 or op == "resumeall":
                c.status = "scheduled"
                self.push(c, self.now + c.remaining, p, u)
        elif op == "remaining":
            if st in ("passive", "interrupted"):
                c.remaining = d
            elif st == "scheduled":
                self.plan(c, self.now + d, p, u)
            else:
                return False
        return True


def do(c, op, d, p, u, env):
    if op == "activate":
        return c.activate(delay=d, priority=p, urgent=u)
    if op == "activate_at":
        return c.activate(at=env.now() + d, priority=p, urgent=u)
    if op == "restart":
        return c.activate(process="process", delay=d, priority=p, urgent=u)
    if op == "hold":
        return c.hold(d, priority=p, urgent=u)
    if op == "holdtill":
        return c.hold(till=env.now() + d, priority=p, urgent=u)
    if op == "hold_interrupted":
        return c.hold(d, interrupted=2)
    if op == "passivate":
        return c.passivate()
    if op == "cancel":
        return c.cancel()
    if op == "standby":
        return c.standby()
    if op == "interrupt":
        return c.interrupt()
    if op == "resume":
        return c.resume(priority=p, urgent=u)
    if op == "resumeall":
        return c.resume(all=True, priority=p, urgent=u)
    if op == "remaining":
        c.remaining_duration(d, priority=p, urgent=u)


@checked
def run(case):
    import io, contextlib

    with contextlib.redirect_stdout(io.StringIO()):
        _run(case)


def _run(case):
    n = len(case["procs"])
    env = new_env(case["yl"], trace=case["trace"])
    m = Model(n, case["skip"])
    comps = []
    err = []
    budget = [150]
    log = []

    def compare(where):
        need(same(env.now(), m.now - m.off), f"{where}: now is {env.now()} instead of {m.now - m.off}")
        for c, k in zip(comps, m.c):
            nm = f"{where}: c{k.i}"
            st = c.status()
            need(st == k.status, f"{nm} is {st} instead of {k.status}")
            if k.status == "scheduled":
                need(same(c.scheduled_time(), k.t - m.off), f"{nm}: scheduled_time {c.scheduled_time()} instead of {k.t - m.off}")
                need(same(c.remaining_duration(), k.t - m.now), f"{nm}: remaining_duration {c.remaining_duration()} instead of {k.t - m.now}")
                e = [e for e in m.ev if e[3] is k]
                need(c.scheduled_priority() == (e[0][1] if e else None), f"{nm}: scheduled_priority {c.scheduled_priority()}")
            else:
                need(c.scheduled_priority() is None, f"{nm} is {st}, but has a pending event")
                if k.status != "standby":
                    need(c.scheduled_time() == inf, f"{nm}: {st}, scheduled_time {c.scheduled_time()}")
                if k.status in ("passive", "interrupted") and k.remaining is not None:
                    need(same(c.remaining_duration(), k.remaining), f"{nm}: {st}, remaining_duration {c.remaining_duration()} instead of {k.remaining}")
            need(c.interrupt_level() == (k.level if k.status == "interrupted" else 0), f"{nm}: interrupt_level")
            need(c.ispassive() == (st == "passive") and c.isscheduled() == (st == "scheduled") and c.isstandby() == (st == "standby") and c.isdata() == (st == "data") and c.isinterrupted() == (st == "interrupted") and c.iscurrent() == (st == "current"), f"{nm}: is... of {st}")

    def became(k, what):
        """called by the real component when it is current"""
        if err:
            return
        try:
            while True:
                cur = m.next()
                if cur is k:
                    break
                raise Bad(f"{what} became current, but {'main' if cur is m.main else 'c%d' % cur.i} should at {m.now}")
            compare(f"{what} current")
        except Bad as e:
            err.append(str(e))

    def on(k, a):
        _, j, op, d, p, u = a
        if err:
            return
        if comps[j].iscurrent():
            return
        ok = m.op(m.c[j], op, d, p, u)
        try:
            do(comps[j], op, d, p, u, env)
            raised = False
        except ValueError:
            raised = True
        try:
            need(raised != ok, f"{op} on c{j} ({m.c[j].status}): {'ValueError' if raised else 'no ValueError'}")
            compare(f"after {op} on c{j}")
        except Bad as e:
            err.append(str(e))

    def selfop(c, k, a):
        """-> thunk that performs the (suspending) call, after the model was updated"""
        op, d, p, u, lv = a
        if op == "hold":
            m.plan(k, m.now + d, p, u)
            return lambda: c.hold(d, priority=p, urgent=u)
        if op == "holdtill":
            m.plan(k, m.now + d, p, u)
            return lambda: c.hold(till=env.now() + d, priority=p, urgent=u)
        if op == "holdinf":
            k.status, k.t = "scheduled", inf
            return lambda: c.hold(inf)
        if op == "reactivate":
            m.plan(k, m.now + d, p, u)
            return lambda: c.activate(delay=d, priority=p, urgent=u)
        if op == "holdint":
            k.status, k.level, k.remaining, k.t = "interrupted", lv, d, inf
            return lambda: c.hold(d, interrupted=lv)
        m.op(k, op, d, p, u)
        return lambda: getattr(c, op)()

    class X(sim.Component):
        def setup(self, k):
            self.k = k

    def body(self):
        # a generator of thunks for the suspending actions
        k = self.k
        became(k, f"c{k.i}")
        for a in case["procs"][k.i]:
            if err or budget[0] <= 0:
                break
            budget[0] -= 1
            if a[0] == "on":
                on(k, a)
            else:
                th = selfop(self, k, a)
                yield th
                became(k, f"c{k.i}")
        if not err:
            m.unplan(k) if False else None
            k.status, k.t = "data", inf

    if case["yl"]:
        def process(self):
            for th in body(self):
                th()
    else:
        def process(self):
            for th in body(self):
                yield th()
    X.process = process

    for i, (d, p, u, passive) in enumerate(case["create"]):
        k = m.c[i]
        if passive:
            c = X(name=f"c{i}", process="", skip_standby=case["skip"][i], k=k)
        else:
            c = X(name=f"c{i}", delay=d, priority=p, urgent=u, skip_standby=case["skip"][i], k=k)
            k.status = "scheduled"
            m.push(k, d, p, u)
        comps.append(c)
    for a in case["main"]:
        if err:
            break
        if a[0] == "run":
            _, d, p = a
            m.cur = m.main
            m.main.status = "scheduled"
            m.push(m.main, m.now + d, inf if p is None else p, False)
            if p is None:
                env.run(duration=d)
            else:
                env.run(till=env.now() + d, priority=p)
            became(m.main, "main")
        elif a[0] == "reset":
            m.off = m.now - a[1]
            env.reset_now(a[1])
            compare("after reset_now")
        else:
            on(None, a)
    if err:
        raise Bad(err[0])
