"""C20: movements and trajectories against the kinematic definition."""
import math, itertools
from oracles.common import sim, inf, need, checked

S = sim.salabim


def gen(rng, size):
    num = lambda: rng.choice([0, 1, 2, 5, -3, 10, 7.5])
    r = rng.random()
    mv = lambda: dict(vmax=rng.choice([None, 0.5, 1, 2, 5]), v0=rng.choice([None, None, 0, 0.5, 1]), v1=rng.choice([None, None, 0, 0.5, 1]), acc=rng.choice([None, None, 0.5, 1, 2]), dec=rng.choice([None, None, 0.5, 1, 4]))
    if r < 0.4:
        return dict(k="move", length=rng.choice([0.5, 1, 2, 10, 33.3]), **mv())

    def leaf():
        k = rng.choice(["poly", "poly", "circ", "still"])
        return dict(k=k, poly=[num() for _ in range(2 * rng.randrange(2, 5))], t0=rng.choice([None, 0, 3, 5.5]), radius=rng.choice([1, 2, 10]), ang=[rng.choice([0, 90, 45]), rng.choice([180, 360, -90, 30])], dur=rng.choice([0, 1, 2.5]), xy=[num(), num()], mv=mv())

    def tree(d):
        if d == 0 or rng.random() < 0.4:
            return leaf()
        return dict(k="plus", a=tree(d - 1), b=tree(d - 1)) if rng.random() < 0.7 else dict(k="sum", l=[tree(d - 1) for _ in range(rng.randrange(1, 4))])

    return dict(k="traj", tree=tree(rng.randrange(0, 3)), now=rng.choice([0, 2]))


def exhaustive():
    vs = [None, 0, 0.5, 1]
    for L, vmax, v0, v1, a, d in itertools.product([0.5, 2, 10], [None, 1, 3], vs, vs, [None, 1], [None, 2]):
        yield dict(k="move", length=L, vmax=vmax, v0=v0, v1=v1, acc=a, dec=d)
    m = dict(vmax=None, v0=None, v1=None, acc=None, dec=None)
    leaf = lambda k, t0: dict(k=k, poly=[0, 0, 10, 0, 10, 5, 0, 5], t0=t0, radius=2, ang=[0, 180], dur=1.5, xy=[3, 4], mv=m)
    for k in ("poly", "circ", "still"):
        for t0 in (None, 5):
            yield dict(k="traj", tree=leaf(k, t0), now=2)
            for k2 in ("poly", "circ", "still"):
                yield dict(k="traj", tree=dict(k="plus", a=leaf(k, t0), b=leaf(k2, 3)), now=0)
                for k3 in ("poly", "circ"):
                    yield dict(k="traj", tree=dict(k="plus", a=leaf(k, t0), b=dict(k="plus", a=leaf(k2, 3), b=leaf(k3, None))), now=0)
                    yield dict(k="traj", tree=dict(k="sum", l=[leaf(k, t0), leaf(k2, 3), leaf(k3, None)]), now=0)


def feasible(L, vmax, v0, v1, acc, dec):
    if v0 > vmax or v1 > vmax:
        return False
    ai, di = 1 / (2 * acc), 1 / (2 * dec)
    return (v1 * v1 - v0 * v0) * ai <= L - 1e-6 and (v0 * v0 - v1 * v1) * di <= L - 1e-6


def norm(c):
    vmax = 1 if c["vmax"] is None else c["vmax"]
    return vmax, vmax if c["v0"] is None else c["v0"], vmax if c["v1"] is None else c["v1"], inf if c["acc"] is None else c["acc"], inf if c["dec"] is None else c["dec"]


def ref_move(L, vmax, v0, v1, acc, dec):
    """(duration, function position(t)) of the fastest movement"""
    ai, di = 1 / (2 * acc), 1 / (2 * dec)
    if (vmax**2 - v0**2) * ai + (vmax**2 - v1**2) * di > L:
        vmax = math.sqrt((L + v0**2 * ai + v1**2 * di) / (ai + di))
    t1 = (vmax - v0) / acc
    t3 = (vmax - v1) / dec
    l1 = (vmax**2 - v0**2) * ai
    l3 = (vmax**2 - v1**2) * di
    l2 = L - l1 - l3
    t2 = l2 / vmax

    def pos(t):
        t = min(max(t, 0), t1 + t2 + t3)
        if t <= t1 and t1 > 0:
            return v0 * t + acc * t * t / 2
        if t <= t1 + t2:
            return l1 + (t - t1) * vmax
        u = t1 + t2 + t3 - t
        return L - (v1 * u + (dec * u * u / 2 if dec < inf else 0))

    return t1 + t2 + t3, pos


def close(a, b, s=1):
    return abs(a - b) <= 1e-6 * max(1, s, abs(a), abs(b))


@checked
def run(c):
    sim.yieldless(True)
    if c["k"] == "move":
        L = c["length"]
        p = norm(c)
        kw = {k: c[k] for k in ("vmax", "v0", "v1", "acc", "dec")}
        if not feasible(L, *p):
            try:
                m = S._Movement(L, **kw)
            except (ValueError, ZeroDivisionError):
                return
            # accepted (infinite acceleration, or just feasible): the length must still be covered
            need(close(m.l_at_t(m.t), L), f"_Movement({c}) covers {m.l_at_t(m.t)}")
            return
        m = S._Movement(L, **kw)
        dur, pos = ref_move(L, *p)
        need(close(m.t, dur), f"_Movement({c}): duration {m.t} instead of {dur}")
        need(close(m.l_at_t(0), 0) and m.l_at_t(-1) == 0, f"_Movement({c}): position at 0 is {m.l_at_t(0)}")
        need(close(m.l_at_t(m.t), L) and close(m.l_at_t(m.t + 3), L), f"_Movement({c}): position at the end is {m.l_at_t(m.t)} instead of {L}")
        n = 40
        prev = None
        for i in range(n + 1):
            t = m.t * i / n
            v = m.l_at_t(t)
            need(close(v, pos(t), L), f"_Movement({c}): position at {t} is {v} instead of {pos(t)}")
            if prev is not None:
                need(v >= prev - 1e-9, f"_Movement({c}): position decreases")
                need(v - prev <= p[0] * m.t / n * (1 + 1e-6) + 1e-9, f"_Movement({c}): maximum speed exceeded")
            prev = v
        return
    env = sim.Environment(trace=False, random_seed=None)
    env.run(c["now"])

    def build(t):
        """returns trajectory and reference (t0, duration, length, f(rel t) -> x,y, l)"""
        k = t["k"]
        if k == "plus":
            a, ra = build(t["a"])
            b, rb = build(t["b"])
            return a + b, merge([ra, rb])
        if k == "sum":
            l = [build(x) for x in t["l"]]
            return sum(x for x, r in l), merge([r for x, r in l])
        t0 = c["now"] if t["t0"] is None else t["t0"]
        if k == "still":
            d = t["dur"]
            return sim.TrajectoryStandstill(xy=t["xy"], duration=d, t0=t["t0"]), (t0, d, 0, lambda s: (t["xy"][0], t["xy"][1], 0))
        mv = dict(t["mv"])
        if k == "poly":
            p = t["poly"]
            pts = list(zip(p[::2], p[1::2]))
            if all(a == b for a, b in zip(pts, pts[1:])):
                pts = [(0, 0), (4, 3)]
            p = [v for q in pts for v in q]
            seg = [math.dist(a, b) for a, b in zip(pts, pts[1:])]
            L = sum(seg)
            if not feasible(L, *norm(mv)):
                mv = dict.fromkeys(mv)
            tr = sim.TrajectoryPolygon(p, t0=t["t0"], **mv)
            dur, pos = ref_move(L, *norm(mv))

            def f(s):
                l = min(max(pos(s), 0), L)
                r = l
                for i, sl in enumerate(seg):
                    if r <= sl or i == len(seg) - 1:
                        w = 0 if sl == 0 else min(1, r / sl)
                        return pts[i][0] + (pts[i + 1][0] - pts[i][0]) * w, pts[i][1] + (pts[i + 1][1] - pts[i][1]) * w, l
                    r -= sl

            return tr, (t0, dur, L, f)
        L = abs(math.radians(t["ang"][1] - t["ang"][0])) * t["radius"]
        if not feasible(L, *norm(mv)):
            mv = dict.fromkeys(mv)
        tr = sim.TrajectoryCircle(radius=t["radius"], x_center=t["xy"][0], y_center=t["xy"][1], angle0=t["ang"][0], angle1=t["ang"][1], t0=t["t0"], **mv)
        dur, pos = ref_move(L, *norm(mv))

        def f(s):
            l = min(max(pos(s), 0), L)
            a = math.radians(t["ang"][0] + (t["ang"][1] - t["ang"][0]) * (l / L if L else 0))
            return t["xy"][0] + t["radius"] * math.cos(a), t["xy"][1] + t["radius"] * math.sin(a), l

        return tr, (t0, dur, L, f)

    def merge(rs):
        t0 = rs[0][0]
        D = sum(r[1] for r in rs)
        L = sum(r[2] for r in rs)

        def f(s):
            acc, la = 0, 0
            for i, r in enumerate(rs):
                if s <= acc + r[1] or i == len(rs) - 1:
                    x, y, l = r[3](s - acc)
                    return x, y, la + l
                acc += r[1]
                la += r[2]

        def cands(s):
            """both sides at a joint"""
            out, acc, la = [], 0, 0
            for r in rs:
                if acc - 1e-9 <= s <= acc + r[1] + 1e-9 or (s > D and r is rs[-1]) or (s < 0 and r is rs[0]):
                    x, y, l = r[3](s - acc) if len(r) < 5 else (None, None, None)
                    if len(r) > 4:
                        out += [(x, y, l + la) for x, y, l in r[4](s - acc)]
                    else:
                        out.append((x, y, l + la))
                acc += r[1]
                la += r[2]
            return out or [f(s)]

        return (t0, D, L, f, cands)

    tr, ref = build(c["tree"])
    t0, D, L, f = ref[:4]
    cands = ref[4] if len(ref) > 4 else (lambda s: [f(s)])
    need(close(tr.t0(), t0), f"trajectory starts at {tr.t0()} instead of {t0}")
    need(close(tr.duration(), D), f"duration {tr.duration()} instead of {D}")
    need(close(tr.t1(), t0 + D), f"trajectory ends at {tr.t1()} instead of {t0 + D}")
    need(close(tr.length(), L), f"length {tr.length()} instead of {L}")
    x, y, _ = f(0)
    for s in [-1, 0] + [D * i / 17 for i in range(18)] + [D, D + 1]:
        t = t0 + s
        got = (tr.x(t), tr.y(t), tr.length(t))
        need(any(close(got[0], e[0]) and close(got[1], e[1]) and close(got[2], e[2], L) for e in cands(s)), f"at t={t} (start {t0}, duration {D}) the trajectory is at {got} instead of {f(s)}")
        if abs(s) > 1e-9 and abs(s - D) > 1e-9:
            need(tr.in_trajectory(t) == (0 <= s <= D), f"in_trajectory({t}) is {tr.in_trajectory(t)}")


def shrink(c):
    if c["k"] == "traj":
        t = c["tree"]
        for x in ([t["a"], t["b"]] if t["k"] == "plus" else t["l"] if t["k"] == "sum" else []):
            yield dict(c, tree=x)
    else:
        for k in ("vmax", "v0", "v1", "acc", "dec"):
            if c[k] is not None:
                yield dict(c, **{k: None})
