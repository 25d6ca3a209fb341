"""C20: movements (real constructor together with l_at_t)"""
from .mathx import *


class MoveSession(MathSession):
    name = "move"
    local_classes = ("_Movement",)
    fields = {"Environment": {}, "g": {}}
    assumptions = ("math.sqrt(x) is the non-negative real with square x",)


class MoveC(Contract):
    """harness: m = _Movement(...); return m.t and positions"""

    props = ("C20",)

    def __init__(self, s, given, kind):
        self.given, self.kind = given, kind
        self.qual = f"_Movement({', '.join(given) or 'defaults'}): {kind}"
        self.params = {k: "real" for k in ("length",) + given}
        if kind == "end points":
            ret = "(m.t, m.l_at_t(0), m.l_at_t(m.t))"
        else:
            self.params.update(t="real", u="real")
            ret = "(m.t, m.l_at_t(t), m.l_at_t(u))"
        call = ", ".join(f"{k}={k}" for k in ("length",) + given)
        self.source = f"def h({', '.join(self.params)}):\n    m = _Movement({call})\n    return {ret}\n"
        super().__init__(s)

    def vals(self, a):
        vm = R(a["vmax"]) if "vmax" in a else z3.RealVal(1)
        return R(a["length"]), vm, R(a["v0"]) if "v0" in a else vm, R(a["v1"]) if "v1" in a else vm, R(a["acc"]) if "acc" in a else None, R(a["dec"]) if "dec" in a else None

    def requires(self, eng, S, a):
        L, vm, v0, v1, acc, dec = self.vals(a)
        out = [("length", L > 0), ("speeds", z3.And(vm > 0, 0 <= v0, v0 <= vm, 0 <= v1, v1 <= vm))]
        if acc is not None:
            out.append(("acc", acc > 0))
        if dec is not None:
            out.append(("dec", dec > 0))
        if "t" in a:
            out.append(("order", R(a["t"]) <= R(a["u"])))
        return out

    def raises(self, eng, S, a):
        L, vm, v0, v1, acc, dec = self.vals(a)
        bad = []
        # an unreachable end (start) speed is refused when both acceleration and deceleration are limited
        if acc is not None and dec is not None:
            bad = [v1 * v1 - v0 * v0 > 2 * acc * L, v0 * v0 - v1 * v1 > 2 * dec * L]
        return [("ValueError", z3.Or(bad))] if bad else []

    def exc_ensures(self, eng, S0, S1, a, exc):
        return []

    def ensures(self, eng, S0, S1, a, r):
        L, vm, v0, v1, acc, dec = self.vals(a)
        T, p, q = (R(x) for x in r.items)
        out = [("duration", T >= 0)]
        if self.kind == "end points":
            return out + [("starts at 0", p == 0), ("covers the length", q == L), ("not faster than allowed", T * vm >= L)]
        t, u = R(a["t"]), R(a["u"])
        if len(self.given) < 5:  # with all five parameters out of the solvers' reach (bounded oracle only)
            out.append(("not faster than allowed", q - p <= vm * (u - t)))
        return out + [("non-decreasing", p <= q), ("within the length", z3.And(0 <= p, q <= L)),
                      ("at rest before the start", z3.Implies(t <= 0, p == 0)), ("complete after the duration", z3.Implies(u >= T, q == L))]


class AccC(MoveC):
    """speed changes are limited: second differences over equal time steps"""

    def __init__(self, s, given):
        super().__init__(s, given, "acceleration")
        self.params = {k: "real" for k in ("length",) + given + ("t", "d")}
        call = ", ".join(f"{k}={k}" for k in ("length",) + given)
        self.source = f"def h({', '.join(self.params)}):\n    m = _Movement({call})\n    return (m.t, m.l_at_t(t), m.l_at_t(t + d), m.l_at_t(t + d + d))\n"

    def requires(self, eng, S, a):
        a2 = dict(a)
        t, d = R(a2.pop("t")), R(a2.pop("d"))
        return super().requires(eng, S, a2) + [("step", z3.And(d > 0, t >= 0))]

    def ensures(self, eng, S0, S1, a, r):
        L, vm, v0, v1, acc, dec = self.vals(a)
        T, p, q, w = (R(x) for x in r.items)
        t, d = R(a["t"]), R(a["d"])
        out = []
        if acc is not None:
            out.append(("acceleration limited", z3.Implies(t + d + d <= T, w - q - (q - p) <= acc * d * d)))
        if dec is not None:
            out.append(("deceleration limited", z3.Implies(t + d + d <= T, (q - p) - (w - q) <= dec * d * d)))
        return out


def make(program):
    import itertools

    s = MoveSession(program)
    names = ("vmax", "v0", "v1", "acc", "dec")
    combos = [()] + [("vmax",) + tuple(n for n, on in zip(names[1:], bits) if on) for bits in itertools.product((0, 1), repeat=4)]
    for g in combos:
        for k in ("end points", "two moments"):
            c = MoveC(s, g, k)
            s.contracts[c.qual] = c
        if ("acc" in g or "dec" in g) and not ({"v0", "acc", "dec"} <= set(g)):
            c = AccC(s, g)
            s.contracts[c.qual] = c
    return s
