"""C11/C12/C13: random tally histories against direct evaluation of the (time-)weighted statistics of the recorded values."""
import io, contextlib, itertools, math
from oracles.common import sim, inf, nan, same, need, Bad, checked, new_env

VALS = [0, 0, 1, 2, 3.5, -1, 10, 7, 2]
IVALS = [0, 0, 1, 2, 3, -1, 10, 7, 2]


def gen(rng, size):
    level = rng.random() < 0.55
    typ = rng.choice(["any", "any", "float", "int32", "double"]) if not level else rng.choice(["any", "any", "float", "int16"])
    vals = IVALS if typ.startswith("int") else VALS
    ops = []
    for _ in range(rng.randrange(2, 4 + size)):
        x = rng.random()
        if x < 0.6:
            ops.append(["tally", rng.randrange(2), rng.choice(vals), rng.choice([1, 1, 2, 0.5])])
        elif x < 0.8:
            ops.append(["adv", rng.choice([0.5, 1, 2, 5])])
        elif x < 0.88:
            ops.append(["mon", rng.randrange(2), rng.random() < 0.6])
        elif x < 0.93:
            ops.append(["reset", rng.randrange(2)])
        elif x < 0.96:
            ops.append(["now", rng.choice([0, 100])])
        else:
            ops.append(["read", rng.randrange(2)])
    return dict(level=level, type=typ, ops=ops, weighted=rng.random() < 0.5, q=[rng.choice([0, 5, 10, 25, 50, 75, 90, 99, 100]) for _ in range(2)], sl=[rng.choice([None, 0, 1, 2, 3]), rng.choice([None, 2, 4, 7])], mod=[rng.choice([0, 1, 3, 5]), rng.choice([1, 2, 3]), rng.choice([4, 6])],
                init=rng.choice([None, 1, 0]), mul=rng.choice([2, 0.5, 3]), first=rng.randrange(len(FIRST)))


def exhaustive():
    n = 0
    for level in (True, False):
        for seqs in itertools.product([["tally", 0, 0, 1], ["tally", 0, 2, 2], ["tally", 1, 3, 1], ["adv", 1], ["mon", 0, False], ["mon", 0, True], ["reset", 0]], repeat=4):
            if level:
                if seqs[0][0] != "tally" or seqs[-1][0] not in ("adv", "tally"):
                    continue
            elif seqs[0][0] not in ("tally", "mon"):
                continue
            n += 1
            yield dict(level=level, type="any", first=n % len(FIRST), ops=[list(o) for o in seqs] + [["adv", 2]], weighted=True, q=[50, 90], sl=[1, 2], mod=[1, 1, 4], init=None, mul=2)


OFF = "off"


class M:
    def __init__(self, level, now, init):
        self.level = level
        self.on = True
        self.val = 0 if init is None else init
        self.restart(now)

    def restart(self, now):
        self.start = now
        self.e = [(now, self.val if self.on else OFF)] if self.level else []

    def put(self, now, v):
        if self.e and self.e[-1][0] == now:
            self.e[-1] = (now, v)
        else:
            self.e.append((now, v))

    def tally(self, now, v, w):
        if self.level:
            self.val = v
            if self.on:
                self.put(now, v)
        elif self.on:
            self.e.append((now, v, w))

    def monitor(self, now, on):
        self.on = on
        if self.level:
            self.put(now, self.val if on else OFF)

    def xw(self, now, keep0=False):
        if self.level:
            return steps(self.e, now, keep0)
        return [(v, w) for _, v, w in self.e]


def steps(e, now, keep0=False):
    ts = [x[0] for x in e[1:]] + [now]
    return [(v, t2 - t) for (t, v), t2 in zip(e, ts) if v != OFF and (t2 > t or keep0)]


def wstats(xw):
    n = len(xw)
    w = sum(b for _, b in xw)
    if not w:
        return n, w, nan, nan
    mean = sum(a * b for a, b in xw) / w
    return n, w, mean, math.sqrt(max(0, sum(b * (a - mean) ** 2 for a, b in xw) / w))


def at(e, t):
    if not e or t < e[0][0]:
        return OFF
    r = OFF
    for u, v in e:
        if u <= t:
            r = v
    return r


def wpercentile(xw, q):
    """weighted: smallest value whose cumulative weight fraction reaches q (the average of two neighbours on equality)"""
    xs = sorted(xw, key=lambda a: a[0])
    W = sum(b for _, b in xs)
    cum = 0
    for k, (a, b) in enumerate(xs):
        cum += b
        f = cum / W
        if f >= q / 100 - 1e-12:
            if abs(f - q / 100) > 1e-9:
                return [a]
            return [a, xs[min(k + 1, len(xs) - 1)][0], (a + xs[min(k + 1, len(xs) - 1)][0]) / 2]
    return [xs[-1][0]]


def upercentile(x, q):
    x = sorted(x)
    n = len(x)
    if n == 1:
        return x[0]
    h = (n - 1) * q / 100
    k = int(math.floor(h + 1e-12))
    if k >= n - 1:
        return x[-1]
    return x[k] + (h - k) * (x[k + 1] - x[k])


FIRST = [(f, e) for f in ("mean", "std", "width", "minimum", "maximum") for e in (True, False)]


def check_first(m, so, k, now, nm, level, f, ex0):
    """one statistic, read before any other one (a reading may have side effects that hide a mistake in another one)"""
    xw = [p for p in k.xw(now) if not (ex0 and p[0] == 0)]
    xw0 = [p for p in k.xw(now, True) if not (ex0 and p[0] == 0)]
    n, w, mean, std = wstats(xw)
    for kind, mon in (("full", m), ("stats_only", so)):
        if f in ("minimum", "maximum") and len(xw0) != len(xw):
            continue
        if f == "width":
            got, want = (mon.duration if level else mon.weight)(ex0=ex0), w
        elif f in ("mean", "std"):
            got, want = getattr(mon, f)(ex0=ex0), mean if f == "mean" else std
        else:
            got, want = getattr(mon, f)(ex0=ex0), ({"minimum": min, "maximum": max}[f](a for a, _ in xw) if xw else nan)
        need(same(got, want, 1e-6), f"{nm} ex0={ex0} {kind}: {f}, read first, is {got} instead of {want}")


def check_stats(m, so, k, now, nm, level, qs, weighted):
    for ex0 in (False, True):
        xw = [p for p in k.xw(now) if not (ex0 and p[0] == 0)]
        xw0 = [p for p in k.xw(now, True) if not (ex0 and p[0] == 0)]
        n, w, mean, std = wstats(xw)
        tag = f"{nm} ex0={ex0}"
        for kind, mon in (("full", m), ("stats_only", so)):
            if mon is None:
                continue
            need(same(mon.mean(ex0=ex0), mean), f"{tag} {kind}: mean {mon.mean(ex0=ex0)} instead of {mean}")
            need(same(mon.std(ex0=ex0), std, 1e-6), f"{tag} {kind}: std {mon.std(ex0=ex0)} instead of {std}")
            if level:
                need(same(mon.duration(ex0=ex0), w), f"{tag} {kind}: duration {mon.duration(ex0=ex0)} instead of {w}")
            else:
                need(mon.number_of_entries(ex0=ex0) == n, f"{tag} {kind}: number_of_entries {mon.number_of_entries(ex0=ex0)} instead of {n}")
                need(same(mon.weight(ex0=ex0), w), f"{tag} {kind}: weight {mon.weight(ex0=ex0)} instead of {w}")
            z = xw0 if kind == "full" else xw
            if kind == "full" and len(xw0) != len(xw):
                continue  # a value without duration at this very moment
            lo, hi = (min(a for a, _ in z), max(a for a, _ in z)) if z else (nan, nan)
            need(same(mon.minimum(ex0=ex0), lo), f"{tag} {kind}: minimum {mon.minimum(ex0=ex0)} instead of {lo}")
            need(same(mon.maximum(ex0=ex0), hi), f"{tag} {kind}: maximum {mon.maximum(ex0=ex0)} instead of {hi}")
        if xw and len(xw) == len(xw0):
            anyw = level or any(b != 1 for _, b in k.xw(now))
            for q in qs:
                g = m.percentile(q, ex0=ex0)
                if q == 0:
                    want = [min(a for a, _ in xw)]
                elif q == 100:
                    want = [max(a for a, _ in xw)]
                elif anyw:
                    want = wpercentile(xw, q)
                    if len(want) == 3:
                        lowg, highg = m.percentile(q, ex0=ex0, interpolation="lower"), m.percentile(q, ex0=ex0, interpolation="higher")
                        need(lowg in want and highg in want, f"{tag}: percentile({q}) lower/higher {lowg} {highg}")
                else:
                    want = [upercentile([a for a, _ in xw], q)]
                need(any(same(g, v) for v in want), f"{tag}: percentile({q}) {g} instead of {want}")
    # values and bins
    allw = k.xw(now)
    vals = sorted({a for a, _ in allw})
    tot = sum(b for _, b in allw)
    f = m.value_duration if level else m.value_weight
    s = 0
    for v in vals:
        want = sum(b for a, b in allw if a == v)
        need(same(f(v), want), f"{nm}: duration/weight of value {v} is {f(v)} instead of {want}")
        s += f(v)
        if not level:
            c = sum(1 for a, _ in allw if a == v)
            need(m.value_number_of_entries(v) == c, f"{nm}: value_number_of_entries({v}) {m.value_number_of_entries(v)} instead of {c}")
    need(same(s, tot), f"{nm}: values do not partition the entries")
    g = m.bin_duration if level else m.bin_weight
    edges = [-inf, -1, 0, 1, 2, 5, inf]
    for lo, hi in zip(edges, edges[1:]):
        want = sum(b for a, b in allw if lo < a <= hi)
        need(same(g(lo, hi), want), f"{nm}: bin ({lo},{hi}] has {g(lo, hi)} instead of {want}")
        if not level:
            c = sum(1 for a, _ in allw if lo < a <= hi)
            need(m.bin_number_of_entries(lo, hi) == c, f"{nm}: bin_number_of_entries({lo},{hi})")
    if level:
        need(same(m.duration_zero(), sum(b for a, b in allw if a == 0)), f"{nm}: duration_zero")
    else:
        need(m.number_of_entries_zero() == sum(1 for a, _ in allw if a == 0), f"{nm}: number_of_entries_zero")


@checked
def run(case):
    with contextlib.redirect_stdout(io.StringIO()):
        _run(case)


def _run(case):
    env = new_env()
    level = case["level"]
    off = 0.0  # internal time minus user time
    kw = dict(level=level, type=case["type"])
    if level and case["init"] is not None:
        kw["initial_tally"] = case["init"]
    ms = [sim.Monitor(f"m{i}", **kw) for i in range(2)]
    so = [sim.Monitor(f"s{i}", stats_only=True, **kw) for i in range(2)]
    ks = [M(level, 0.0, case["init"]) for _ in range(2)]
    now = 0.0
    for op in case["ops"]:
        if op[0] == "tally":
            _, i, v, w = op
            if level:
                ms[i].tally(v)
                so[i].tally(v)
            elif case["weighted"] and w != 1:
                ms[i].tally(v, w)
                so[i].tally(v, w)
            else:
                w = 1
                ms[i].tally(v)
                so[i].tally(v)
            ks[i].tally(now, v, w)
        elif op[0] == "adv":
            env.run(op[1])
            now += op[1]
        elif op[0] == "mon":
            _, i, v = op
            ms[i].monitor(v)
            so[i].monitor(v)
            ks[i].monitor(now, v)
        elif op[0] == "reset":
            ms[op[1]].reset()
            so[op[1]].reset()
            ks[op[1]].restart(now)
        elif op[0] == "now":
            env.reset_now(op[1])
            off = now - op[1]
        else:
            i = op[1]
            if level:
                ms[i].mean(), so[i].mean(), so[i].duration(), ms[i].maximum(), so[i].minimum()
            else:
                ms[i].mean(), ms[i].std(ex0=True), ms[i].number_of_entries()
    for i in range(2):
        if level:
            need(ms[i]() == ks[i].val and so[i]() == ks[i].val, f"m{i}: current value")
            need(same(ms[i].start_time(), ks[i].start - off), f"m{i}: start_time")
            for t in [x * 0.5 for x in range(int(now * 2))]:
                want = at(ks[i].e, t)
                got = ms[i](t - off)
                need(got == (ms[i].off if want == OFF else want), f"m{i}: value at {t} is {got} instead of {want}")
        if "first" in case:
            check_first(ms[i], so[i], ks[i], now, f"m{i}", level, *FIRST[(case["first"] + 3 * i) % len(FIRST)])
        check_stats(ms[i], so[i], ks[i], now, f"m{i}", level, case["q"], case["weighted"])
        check_stats(ms[i], so[i], ks[i], now, f"m{i} (second reading)", level, case["q"], case["weighted"])
    derived(case, env, ms, ks, now, off, level)
    for i in range(2):
        check_stats(ms[i], so[i], ks[i], now, f"m{i} (after derived monitors)", level, case["q"], case["weighted"])
    fz = ms[0].freeze()
    cp = sim.Monitor.merge(ms[0])
    kk = M(level, ks[0].start, None)
    kk.e = list(ks[0].e)
    # further changes do not affect the frozen monitor
    env.run(3)
    ms[0].tally(5)
    ks[0].tally(now + 3, 5, 1)
    check_stats(fz, None, kk, now, "frozen m0", level, case["q"], case["weighted"])
    check_stats(ms[0], None, ks[0], now + 3, "m0 (after freeze)", level, case["q"], case["weighted"])
    if not level:
        check_stats(cp, None, kk, now, "merged m0 (later)", level, case["q"], case["weighted"])
    else:
        kk.e = kk.e + [(now, OFF)]
        if kk.e[-2][0] == now:
            kk.e[-2:] = [(now, OFF)]
        check_stats(cp, None, kk, now + 3, "merged m0 (later)", level, [], False)


def derived(case, env, ms, ks, now, off, level):
    def gm(e, start):
        k = M(level, start, None)
        k.e = e
        return k

    def close(e):
        e = [x for x in e if x[0] < now] if level else e
        return e + [(now, OFF)] if level else e

    # merge
    mm = ms[0].merge(ms[1])
    if level:
        ts = sorted({t for k in ks for t, _ in k.e if t < now})
        e = []
        for t in ts:
            v = [at(k.e, t) for k in ks]
            e.append((t, OFF if OFF in v else sum(v)))
        check_stats(mm, None, gm(close(e), ks[0].start), now, "merged", level, [], False)
        xm = ms[0].x_map(lambda a, b: a * 2 + b, [ms[1]])
        e = [(t, OFF if OFF in [at(k.e, t) for k in ks] else at(ks[0].e, t) * 2 + at(ks[1].e, t)) for t in ts]
        check_stats(xm, None, gm(close(e), ks[0].start), now, "mapped", level, [], False)
        f = case["mul"]
        tm = ms[0].t_multiply(f)
        k = gm([(t * f, v) for t, v in close(ks[0].e)], ks[0].start * f)
        got = tm.xduration()
        want = steps(k.e, now * f)
        gl = [(a, b) for a, b in zip(*got) if b > 0]
        # after its end the scaled monitor is off, so only recorded durations count
        need(len(gl) == len(want) and all(same(a, c) and same(b, d) for (a, b), (c, d) in zip(gl, want)), f"t_multiply: {gl} instead of {want}")
    else:
        e = ks[0].e + ks[1].e
        check_stats(mm, None, gm(e, 0), now, "merged", level, case["q"], case["weighted"])
        xm = ms[0].x_map(lambda a: a * 2 + 1)
        check_stats(xm, None, gm([(t, v * 2 + 1, w) for t, v, w in ks[0].e], 0), now, "mapped", level, case["q"], case["weighted"])
        if case["type"] == "float":
            mu = ms[0].multiply(case["mul"])
            check_stats(mu, None, gm([(t, v * case["mul"], w) for t, v, w in ks[0].e], 0), now, "multiplied", level, case["q"], case["weighted"])
    # slice
    a, b = case["sl"]
    if a is None or b is None or a < b:
        lo = ks[0].start if a is None else max(a, ks[0].start)
        hi = now if b is None else min(b, now)
        sl = ms[0].slice(None if a is None else a - off, None if b is None else b - off)
        check_slice(sl, ks[0], [(lo, hi, b is None)], now, level, f"slice({a},{b})")
        s2 = sl.slice(None if a is None else a - off, None if b is None else b - off)
        check_slice(s2, ks[0], [(lo, hi, b is None)], now, level, f"slice({a},{b}) twice")
    s, d, m = case["mod"]
    if d < m:
        per = []
        x = s - 40 * m
        while x < now:
            if x + d > ks[0].start:
                per.append((max(x, ks[0].start), min(x + d, now), x + d > now))
            x += m
        if ks[0].e or level:
            sl = ms[0].slice(s - off, s + d - off, m)
            check_slice(sl, ks[0], per, now, level, f"slice({s},{s + d},modulo={m})")


def check_slice(sl, k, periods, now, level, nm):
    if level:
        want = {}
        for lo, hi, _ in periods:
            if lo >= hi:
                continue
            cuts = sorted({lo, hi} | {t for t, _ in k.e if lo < t < hi})
            for t, t2 in zip(cuts, cuts[1:]):
                v = at(k.e, t)
                if v != OFF and t2 > t:
                    want[v] = want.get(v, 0) + t2 - t
        got = {}
        for v, d in zip(*sl.xduration()):
            if d:
                got[v] = got.get(v, 0) + d
        need(set(got) == set(want) and all(same(got[v], want[v]) for v in want), f"{nm}: durations {got} instead of {want}")
    else:
        want = [(v, w) for t, v, w in k.e if any(lo <= t < hi or (incl and lo <= t == hi) for lo, hi, incl in periods)]
        got = list(zip(*[list(z) for z in sl.xweight()]))
        need(len(got) == len(want) and all(same(a, c) and same(b, d) for (a, b), (c, d) in zip(got, want)), f"{nm}: entries {got} instead of {want}")
