"""C15: unit conversions and clock shifts.  Part 'conv': conversions against the physical ratios.  Part 'shift': the same model with and
without reset_now in between; every observed time must differ by exactly the shift, every duration, order and statistic must be equal."""
import itertools, datetime
from oracles.common import sim, inf, need, checked

UN = {"years": 365 * 86400, "weeks": 7 * 86400, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}
ACTS = ["hold", "holdtill", "activate", "request", "wait", "fromstore", "gen", "standby_none", "enter", "leave", "interrupt", "resume", "genspread", "genmom", "at", "failat"]


def near(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1e-3, abs(a), abs(b))


def gen(rng, size):
    if rng.random() < 0.25:
        return dict(k="conv", tu=rng.choice(list(UN)), to=rng.choice(list(UN)), t=rng.choice([0, 1, 2.5, 1000, rng.uniform(0, 1e4)]), dt=rng.random() < 0.4)
    ops = [[rng.choice(ACTS), rng.choice([0, 0.5, 1, 2, 3]), rng.randrange(3)] for _ in range(rng.randrange(1, 3 + size // 2))]
    return dict(k="shift", yl=rng.random() < 0.6, shifts=[[rng.choice([0.25, 1, 2, 3.5, 6]), rng.choice([0, 100, -7, 2])] for _ in range(rng.randrange(1, 4))], ops=ops, dt=rng.random() < 0.2)


def exhaustive():
    for a, b in itertools.product(UN, UN):
        for dt in (False, True):
            yield dict(k="conv", tu=a, to=b, t=3.5, dt=dt)
    for a in ACTS:
        for yl in (False, True):
            yield dict(k="shift", yl=yl, shifts=[[1.5, 50]], ops=[[a, 1, 0], [a, 2, 1], ["hold", 1, 0], [a, 1, 0]], dt=False)
            yield dict(k="shift", yl=yl, shifts=[[0.25, -5], [2, 10]], ops=[["hold", 1, 0], [a, 1, 0], [a, 2, 1]], dt=False)


def conv(c):
    sim.yieldless(True)
    kw = dict(datetime0=datetime.datetime(2024, 2, 3)) if c["dt"] else {}
    env = sim.Environment(trace=False, random_seed=None, time_unit=c["tu"], **kw)
    t, to = c["t"], c["to"]
    r = UN[c["tu"]] / UN[to]
    for what, v, e in (
        ("to_" + to, getattr(env, "to_" + to)(t), t * r),
        ("to_time_unit " + to, env.to_time_unit(to, t), t * r),
        (to, getattr(env, to)(t), t / r),
        ("round trip", getattr(env, "to_" + to)(getattr(env, to)(t)), t),
        ("round trip back", getattr(env, to)(getattr(env, "to_" + to)(t)), t),
        ("callable", getattr(env, to)(lambda: t), t / r),
        ("callable to_", getattr(env, "to_" + to)(lambda: t), t * r),
    ):
        need(near(v, e), f"time unit {c['tu']}: {what} of {t} is {v} instead of {e}")
    m = sim.Monitor("m", type="float")
    m.tally(t)
    m.tally(2 * t)
    need(all(near(x, y * r) for x, y in zip(getattr(m, "to_" + to)().x(), (t, 2 * t))), f"monitor to_{to} of {t} gives {list(getattr(m, 'to_' + to)().x())}")
    need(all(near(x, y * r) for x, y in zip(m.to_time_unit(to).x(), (t, 2 * t))), f"monitor to_time_unit({to})")
    d = sim.Uniform(t, t, time_unit=to)
    need(near(d.sample(), t / r), f"Uniform({t},{t},time_unit={to}) in an environment in {c['tu']} samples {d.sample()}")
    if c["dt"]:
        sec = 12345.5
        d0 = datetime.datetime(2024, 2, 3)
        x = d0 + datetime.timedelta(seconds=sec)
        tt = sec / UN[c["tu"]]
        need(near(env.datetime_to_t(x), tt), f"datetime_to_t gives {env.datetime_to_t(x)} instead of {tt}")
        need(abs((env.t_to_datetime(tt) - x).total_seconds()) < 1e-3, f"t_to_datetime({tt}) = {env.t_to_datetime(tt)} instead of {x}")
        need(near(env.timedelta_to_duration(datetime.timedelta(seconds=sec)), tt), "timedelta_to_duration")
        need(abs(env.duration_to_timedelta(tt).total_seconds() - sec) < 1e-3, "duration_to_timedelta")
        need(near(env.spec_to_time(x), tt), "spec_to_time of a datetime")
        need(near(env.spec_to_duration(datetime.timedelta(seconds=sec)), tt), "spec_to_duration of a timedelta")
        h = env.hours(2)
        env.run(till=h)
        before = env.t_to_datetime(env.now())
        env.reset_now(env.hours(1))
        after = env.t_to_datetime(env.now())
        need(abs((after - before).total_seconds()) < 1e-3, f"reset_now changes the calendar date of now from {before} to {after}")
        need(near(env.now(), env.hours(1)), f"reset_now: now is {env.now()}")


def history(c, shifting):
    """runs the model; returns the log of (kind, value): kind 't' values are absolute times, 'd' durations/statistics"""
    sim.yieldless(c["yl"])
    kw = dict(datetime0=True) if c["dt"] else {}
    env = sim.Environment(trace=False, random_seed=5, **kw)
    log = []
    off = [0.0]
    T = lambda kind, v: log.append(("t", kind, v + off[0] if v not in (inf, -inf) and v == v else v))
    D = lambda kind, v: log.append(("d", kind, v))
    q = sim.Queue("q")
    res = sim.Resource("res", 1)
    st = sim.State("st")
    store = sim.Store("store")
    cs = []
    mon = sim.Monitor("mon", level=True)

    class Made(sim.Component):
        def setup(self):
            T("made", env.now())
            T("creation", self.creation_time())

        def process(self):
            T("made current", env.now())

    def after(x):
        T(x.name() + " now", env.now())
        T("sched", x.scheduled_time())
        T("mode", x.mode_time())
        D("rem", x.remaining_duration() if x.isscheduled() or x.isinterrupted() else 0)
        for y in q:
            T("enter", y.enter_time(q))
        T("peek", env.peek())
        D("failed", x.failed())
        mon.tally(len(q))

    class X(sim.Component):
        def setup(self):
            T("creation", self.creation_time())

        def process(self):
            j = self.sequence_number()
            for a, d, o in c["ops"]:
                y = cs[o]
                ab = env.now() + d
                w = None
                if a == "hold":
                    w = lambda: self.hold(d)
                elif a == "holdtill":
                    w = lambda: self.hold(till=ab)
                elif a == "activate" and y is not self and not y.isdata():
                    y.activate(delay=d)
                elif a == "at" and y is not self and not y.isdata():
                    y.activate(at=ab)
                elif a == "request":
                    w = lambda: self.request(res, fail_delay=d)
                elif a == "failat":
                    w = lambda: self.request((res, 1), fail_at=ab)
                elif a == "wait":
                    w = lambda: self.wait(st, fail_at=ab)
                elif a == "fromstore":
                    w = lambda: self.from_store(store, fail_at=ab)
                elif a == "gen":
                    sim.ComponentGenerator(Made, iat=1, at=ab, till=ab + 2)
                elif a == "genspread":
                    sim.ComponentGenerator(Made, at=ab, till=ab + 2, number=2)
                elif a == "genmom":
                    sim.ComponentGenerator(Made, moments=[ab + 1, ab])
                elif a == "enter":
                    if self not in q:
                        self.enter_sorted(q, d)
                elif a == "leave":
                    if self in q:
                        self.leave(q)
                        D("los", q.length_of_stay.mean())
                elif a == "interrupt" and y is not self and (y.isscheduled() or y.isinterrupted()):
                    y.interrupt()
                elif a == "resume" and y.isinterrupted():
                    y.resume()
                if w is not None:
                    if c["yl"]:
                        w()
                    else:
                        yield w()
                after(self)
                if self.claimed_quantity(res) and d < 2:
                    self.release()

    if c["yl"]:
        gen_process = X.process

        class X(X):
            def process(self):
                for _ in gen_process(self):
                    pass

    for i in range(3):
        cs.append(X("x."))
    for dur, new in c["shifts"]:
        env.run(duration=dur)
        if shifting:
            old = env.now()
            env.reset_now(new)
            off[0] += old - new
            need(near(env.now(), new), f"reset_now({new}): now is {env.now()}")
        T("main", env.now())
        D("mean", mon.mean())
        D("dur", mon.duration())
        T("value at now", env.now())
        D("mon(now)", mon(env.now()))
        D("mon(earlier)", mon(env.now() - 0.5))
        D("slice", mon.slice(env.now() - 1, env.now()).mean())
        T("start", mon.start_time())
        T("claim mean", 0 - off[0] + res.claimed_quantity.mean())
        D("status", cs[0].status.value_duration("scheduled"))
    env.run(till=env.now() + 5)
    T("end", env.now())
    D("qlen", q.length.mean())
    D("req", res.requesters().length.mean())
    D("los", q.length_of_stay.mean())
    return log


@checked
def run(c):
    if c["k"] == "conv":
        return conv(c)
    a = history(c, False)
    b = history(c, True)
    need(len(a) == len(b), f"{len(a)} observations without, {len(b)} with reset_now")
    for x, y in zip(a, b):
        need(x[:2] == y[:2], f"different course with reset_now: {x} against {y}")
        need(near(x[2], y[2]), f"{x[1]}: {x[2]} without and {y[2]} with reset_now (expressed in the original scale)")
