"""C16: interpolation, range and search helpers against independent definitions (with and without numpy)."""
import itertools, bisect
from fractions import Fraction as F
from oracles.common import sim, inf, same, need, checked

S = sim.salabim
V = [-3, -1, 0, 0.5, 1, 2, 3.25, 7, 10]


def gen(rng, size):
    k = rng.choice(["interpolate", "interpolate", "interp", "interp", "linspace", "arange", "search", "interpolate_t", "interp_t"])
    num = lambda: rng.choice(V) if rng.random() < 0.7 else round(rng.uniform(-20, 20), 3)
    c = dict(k=k, np=rng.random() < 0.5)
    if k == "interpolate":
        c.update(a=[num() for _ in range(5)])
    elif k == "interpolate_t":
        n = rng.randrange(1, 4)
        c.update(a=[num() for _ in range(3)], v0=[num() for _ in range(n)], v1=[num() for _ in range(n)])
    elif k in ("interp", "interp_t"):
        n = rng.randrange(1, 6)
        xp = sorted(num() for _ in range(n))
        if rng.random() < 0.7:
            xp = sorted(set(xp))
        fp = [num() if k == "interp" else [num(), num()] for _ in xp]
        c.update(x=rng.choice(xp) if rng.random() < 0.3 else num(), xp=xp, fp=fp, lr=[rng.choice([None, 99]), rng.choice([None, -99])])
    elif k == "linspace":
        c.update(a=[num(), num()], num=rng.randrange(0, 9), ep=rng.random() < 0.6)
    elif k == "arange":
        c.update(a=[num(), num()], step=rng.choice([1, 0.5, 2, 0.25, 3, -1, -0.5]))
    else:
        n = rng.randrange(0, 7)
        c.update(l=sorted(num() for _ in range(n)), v=num(), side=rng.choice(["left", "right"]))
    return c


def exhaustive():
    for t, t0, t1 in itertools.product([-1, 0, 1, 2, 3, 4], [0, 1, 3], [0, 1, 3, inf]):
        for v0, v1 in ((0, 10), (10, 0), (5, 5)):
            yield dict(k="interpolate", np=False, a=[t, t0, t1, v0, v1])
    for x in [-1, 0, 0.5, 1, 1.5, 2, 3, 4, 5]:
        for xp, fp in (([0, 1, 2, 4], [5, 7, 1, 3]), ([0], [4]), ([1, 2], [3, 9]), ([0, 2, 2, 4], [0, 2, 6, 8])):
            yield dict(k="interp", np=False, x=x, xp=xp, fp=fp, lr=[None, None])
            yield dict(k="interp", np=False, x=x, xp=xp, fp=fp, lr=[0, 0])
    for n in range(6):
        for ep in (True, False):
            yield dict(k="linspace", np=False, a=[0, 10], num=n, ep=ep)
            yield dict(k="linspace", np=False, a=[5, -5], num=n, ep=ep)
    for np in (False, True):
        for n in range(5):
            for v in range(-1, 6):
                for side in ("left", "right"):
                    yield dict(k="search", np=np, l=sorted([0, 1, 1, 3, 4][:n]), v=v, side=side)
        for a, b, s in itertools.product([0, 1, 3], [0, 1, 3, 3.5], [1, 0.5, -1, 2]):
            yield dict(k="arange", np=np, a=[a, b], step=s)


def lin(t, t0, t1, v0, v1):
    """the reference: clamped linear interpolation"""
    if t0 > t1:
        t0, t1, v0, v1 = t1, t0, v1, v0
    if t1 == inf:
        return v0
    if t0 == t1:
        return v1 if v0 != v1 else v0
    if t <= t0:
        return v0
    if t >= t1:
        return v1
    return float(F(v0) + (F(v1) - F(v0)) * (F(t) - F(t0)) / (F(t1) - F(t0)))


@checked
def run(c):
    had = S.has_numpy()
    keep = S.numpy
    if not c["np"]:
        S.numpy = False
    try:
        go(c)
    finally:
        S.numpy = keep


def go(c):
    k = c["k"]
    if k == "interpolate":
        a = c["a"]
        r = sim.interpolate(*a)
        need(same(r, lin(*a)), f"interpolate{tuple(a)} returns {r} instead of {lin(*a)}")
        need(min(a[3:]) - 1e-9 <= r <= max(a[3:]) + 1e-9, f"interpolate{tuple(a)} = {r} is outside the end points")
        if a[1] < a[2] < inf:
            need(same(sim.interpolate(a[1], *a[1:]), a[3]), f"interpolate at t0={a[1]} does not give v0")
            need(same(sim.interpolate(a[2], *a[1:]), a[4]), f"interpolate at t1={a[2]} does not give v1")
    elif k == "interpolate_t":
        r = sim.interpolate(*c["a"], tuple(c["v0"]), tuple(c["v1"]))
        e = tuple(lin(*c["a"], x, y) for x, y in zip(c["v0"], c["v1"]))
        need(len(r) == len(e) and all(same(x, y) for x, y in zip(r, e)), f"interpolate of tuples {c} returns {r} instead of {e}")
    elif k in ("interp", "interp_t"):
        xp, fp, x = c["xp"], c["fp"], c["x"]
        if k == "interp_t":
            fp = [tuple(f) for f in fp]
        r = sim.interp(x, xp, fp, left=c["lr"][0], right=c["lr"][1])
        if x < xp[0]:
            e = fp[0] if c["lr"][0] is None else c["lr"][0]
        elif x > xp[-1]:
            e = fp[-1] if c["lr"][1] is None else c["lr"][1]
        else:
            i = max(j for j in range(len(xp)) if xp[j] <= x)
            if i == len(xp) - 1:
                e = fp[-1]
            else:
                w = (F(x) - F(xp[i])) / (F(xp[i + 1]) - F(xp[i]))
                f = lambda a, b: float(F(a) + (F(b) - F(a)) * w)
                e = f(fp[i], fp[i + 1]) if k == "interp" else tuple(f(a, b) for a, b in zip(fp[i], fp[i + 1]))
        ok = same(r, e) if not isinstance(e, tuple) else len(r) == len(e) and all(same(a, b) for a, b in zip(r, e))
        need(ok, f"interp({x}, {xp}, {fp}, {c['lr']}) returns {r} instead of {e}")
    elif k == "linspace":
        a, b = c["a"]
        n = c["num"]
        r = list(sim.linspace(a, b, n, endpoint=c["ep"]))
        if n <= 1:
            e = [a] * n
        else:
            d = n - 1 if c["ep"] else n
            e = [float(F(a) + (F(b) - F(a)) * i / d) for i in range(n)]
        need(len(r) == len(e) and all(same(x, y) for x, y in zip(r, e)), f"linspace({a}, {b}, {n}, {c['ep']}) returns {r} instead of {e}")
    elif k == "arange":
        a, b = c["a"]
        s = c["step"]
        r = [float(x) for x in sim.arange(a, b, s)]
        e = []
        i = 0
        while (F(a) + i * F(s) < F(b)) if s > 0 else (F(a) + i * F(s) > F(b)):
            e.append(float(F(a) + i * F(s)))
            i += 1
        if len(r) != len(e) and abs(abs(F(b) - F(a)) / abs(F(s)) - round(abs(F(b) - F(a)) / abs(F(s)))) < 1e-9:
            return  # number of elements is decided by rounding
        need(len(r) == len(e) and all(same(x, y) for x, y in zip(r, e)), f"arange({a}, {b}, {s}) returns {r} instead of {e}")
    else:
        r = int(sim.salabim.searchsorted(c["l"], c["v"], c["side"]))
        e = sum(1 for x in c["l"] if x < c["v"]) if c["side"] == "left" else sum(1 for x in c["l"] if x <= c["v"])
        need(r == e, f"searchsorted({c['l']}, {c['v']}, {c['side']}) returns {r} instead of {e}")
