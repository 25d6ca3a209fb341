"""C16 (helpers), C15 (time unit conversions)"""
from pyvc.session import *
from pyvc.values import *
import ast
import z3


def R(v):
    return v.real()


def content(S, v):
    c = S.objs[v.loc] if isinstance(v, VList) else None
    return c


def lst(eng, S, v):
    """(n, elem) of a list/tuple result"""
    if isinstance(v, VTuple):
        return eng.as_symseq(PyList(v.items)) if v.items else SymSeq(z3.IntVal(0), lambda i: VNum(0))
    c = S.objs[v.loc]
    if isinstance(c, PyList):
        return eng.as_symseq(c, S) if c.items else SymSeq(z3.IntVal(0), lambda i: VNum(0))
    return c


class MathSession(Session):
    name = "mathx"
    fields = {"Environment": {"_time_unit": "real", "_now": "real", "_offset": "real"}, "g": {}}
    extra_maps = {}
    numpy = False
    assumptions = (
        "bisect.bisect_left/bisect_right and numpy.searchsorted on a sorted sequence return the insertion point; numpy.arange returns start + i * step for all values before stop",
    )

    def globals(self, eng, name):
        if name == "numpy":
            return VModule("numpy")
        return super().globals(eng, name)

    def contract_for(self, eng, qual, args, kw, st):
        return self.contracts.get(qual)

    def builtin(self, eng, fv, args, kw, st):
        nm = fv.name
        if nm in ("bisect.bisect_left", "bisect.bisect_right", "numpy.searchsorted", "bisect.bisect"):
            left = nm == "bisect.bisect_left"
            if nm == "numpy.searchsorted":
                side = args[2] if len(args) > 2 else kw.get("side", VStr(const="left"))
                if side.const is None:
                    raise Unsupported("side")
                left = side.const == "left"
                if side.const not in ("left", "right"):
                    return [Out("raise", "ValueError", st)]
            sq = lst(eng, st, args[0])
            v = R(args[1])
            i, j = eng.fresh("ins", INT), eng.fresh("j", INT)
            st.assume(z3.And(0 <= i, i <= sq.n))
            e = sq.elem(j)
            if not (isinstance(e, VNum) and e.finite):
                raise Unsupported("bisect over non-numbers")
            e = e.real()
            before = (lambda a: a < v) if left else (lambda a: a <= v)
            body = z3.And(z3.Implies(z3.And(0 <= j, j < i), before(e)), z3.Implies(z3.And(i <= j, j < sq.n), z3.Not(before(e))))
            srt = z3.ForAll([j], body)
            st.assume(srt)
            for jj in (i, i - 1):
                st.assume(z3.substitute(body, (j, jj)))
            return eng.ok(VNum(i), st)
        if nm == "numpy.arange":
            a, b, c = (args + [VNum(1)])[:3]
            return eng.ok(eng.new_list(st, arange_seq(eng, st, R(a), R(b), R(c))), st)
        return None


def arange_seq(eng, st, a, b, step):
    n = eng.fresh("n", INT)
    st.assume(n >= 0)
    nr = z3.ToReal(n)
    st.assume(z3.Implies(step > 0, z3.And(a + nr * step >= b, z3.Or(n == 0, a + (nr - 1) * step < b))))
    st.assume(z3.Implies(step < 0, z3.And(a + nr * step <= b, z3.Or(n == 0, a + (nr - 1) * step > b))))
    return SymSeq(n, lambda i: VNum(a + z3.ToReal(i) * step))


class HasNumpy(Contract):
    qual = "has_numpy"
    verify = False
    trusted = "presence of numpy is a platform fact; both answers are considered"
    props = ("C16",)

    def result(self, eng, S0, S1, a):
        return VBool(eng.fresh("has_numpy", BOOL))


class I_(Contract):
    qual = "_i"
    params = dict(p="real", v0="real", v1="real")
    props = ("C16",)

    def result(self, eng, S0, S1, a):
        return VNum(eng.fresh("i", REAL))

    def ensures(self, eng, S0, S1, a, r):
        return [("linear", r.real() == R(a["v0"]) + R(a["p"]) * (R(a["v1"]) - R(a["v0"])))]


class I_None0(I_):
    qual = "_i/none0"
    params = dict(p="real", v0="none", v1="real")

    def ensures(self, eng, S0, S1, a, r):
        return [("none", z3.BoolVal(isinstance(r, VNone)))]


class I_None1(I_None0):
    qual = "_i/none1"
    params = dict(p="real", v0="real", v1="none")


def interp_val(t, t0, t1, v0, v1):
    """specification: piecewise linear with clamping (t0 <= t1 after ordering)"""
    lo, hi = z3.If(t0 <= t1, t0, t1), z3.If(t0 <= t1, t1, t0)
    a, b = z3.If(t0 <= t1, v0, v1), z3.If(t0 <= t1, v1, v0)
    return lo, hi, a, b


class Interpolate(Contract):
    qual = "interpolate"
    params = dict(t="real", t0="real", t1="real", v0="real", v1="real")
    props = ("C16",)

    def comps(self, a, r):
        return [(R(r), R(a["v0"]), R(a["v1"]))]

    def result(self, eng, S0, S1, a):
        return VNum(eng.fresh("interpolate", REAL))

    def ensures(self, eng, S0, S1, a, r):
        t = R(a["t"])
        out = []
        for i, (x, v0, v1) in enumerate(self.comps(a, r)):
            lo, hi, A, B = interp_val(t, R(a["t0"]), R(a["t1"]), v0, v1)
            out += [
                (f"[{i}] start", z3.Implies(z3.And(lo < hi, t <= lo), x == A)),
                (f"[{i}] end", z3.Implies(z3.And(lo < hi, t >= hi), x == B)),
                (f"[{i}] linear", z3.Implies(z3.And(lo < t, t < hi), x * (hi - lo) == A * (hi - t) + B * (t - lo))),
                (f"[{i}] within", z3.And(x >= z3.If(v0 < v1, v0, v1), x <= z3.If(v0 < v1, v1, v0))),
            ]
        return out


class InterpolateInf(Contract):
    """the second moment is infinite: never leaves the start"""

    qual = "interpolate/inf"
    params = dict(t="real", t0="real", t1=lambda eng, st: INFV, v0="real", v1="real")
    props = ("C16",)

    def ensures(self, eng, S0, S1, a, r):
        return [("stays at start", R(r) == R(a["v0"]))]


def tup(n):
    def mk(eng, st):
        return VTuple([VNum(eng.fresh("x", REAL)) for _ in range(n)])

    return mk


class InterpolateT(Interpolate):
    qual = "interpolate/tuple2"
    params = dict(t="real", t0="real", t1="real", v0=tup(2), v1=tup(2))

    def comps(self, a, r):
        if not isinstance(r, VTuple) or len(r.items) != len(a["v0"].items):
            raise Unsupported("result is not a tuple")
        return [(R(x), R(y), R(z)) for x, y, z in zip(r.items, a["v0"].items, a["v1"].items)]

    def ensures(self, eng, S0, S1, a, r):
        return super().ensures(eng, S0, S1, a, r)


class InterpolateT4(InterpolateT):
    qual = "interpolate/tuple4"
    params = dict(t="real", t0="real", t1="real", v0=tup(4), v1=tup(4))


def sorted_seq(eng, S, sq, strict=False):
    i, j = z3.Int("si"), z3.Int("sj")
    a, b = sq.elem(i).real(), sq.elem(j).real()
    return forall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < sq.n), a < b if strict else a <= b))


class SearchSorted(Contract):
    qual = "searchsorted"
    params = dict(a=("seqarg", "real"), v="real", side=("const", "left"))
    props = ("C16",)
    left = True

    def requires(self, eng, S, a):
        return [("sorted", sorted_seq(eng, S, lst(eng, S, a["a"])))]

    def result(self, eng, S0, S1, a):
        return VNum(eng.fresh("searchsorted", INT))

    def ensures(self, eng, S0, S1, a, r):
        sq = lst(eng, S0, a["a"])
        j, v = z3.Int("j"), R(a["v"])
        e = sq.elem(j).real()
        b = (lambda x: x < v) if self.left else (lambda x: x <= v)
        return [("range", z3.And(0 <= r.e, r.e <= sq.n)),
                ("before", forall(j, z3.Implies(z3.And(0 <= j, j < r.e), b(e)))),
                ("behind", forall(j, z3.Implies(z3.And(r.e <= j, j < sq.n), z3.Not(b(e)))))]


class SearchSortedR(SearchSorted):
    qual = "searchsorted/right"
    params = dict(a=("seqarg", "real"), v="real", side=("const", "right"))
    left = False


class SearchSortedBad(Contract):
    qual = "searchsorted/invalid"
    params = dict(a=("seqarg", "real"), v="real", side=("const", "middle"))
    props = ("C16",)

    def raises(self, eng, S, a):
        return [("ValueError", z3.BoolVal(True))]


class Arange(Contract):
    qual = "arange"
    params = dict(start="real", stop="real", step="real")
    props = ("C16",)

    def requires(self, eng, S, a):
        return [("step", R(a["step"]) != 0)]

    def ensures(self, eng, S0, S1, a, r):
        sq = lst(eng, S1, r)
        s, e, st = R(a["start"]), R(a["stop"]), R(a["step"])
        i = z3.Int("i")
        last = s + z3.ToReal(sq.n - 1) * st
        nxt = s + z3.ToReal(sq.n) * st
        return [("values", forall(i, z3.Implies(z3.And(0 <= i, i < sq.n), sq.elem(i).real() == s + z3.ToReal(i) * st))),
                ("before stop", z3.Implies(sq.n > 0, z3.If(st > 0, last < e, last > e))),
                ("complete", z3.If(st > 0, nxt >= e, nxt <= e))]

    def loops(self, L):
        out = []
        a = L.args
        s, e, st = R(a["start"]), R(a["stop"]), R(a["step"])
        lists = [k for k, v in L.head.env.items() if isinstance(v, VList)]
        nums = [k for k, v in L.head.env.items() if isinstance(v, VNum) and v.finite and k in L.mod_vars]

        def sq(S, k):
            return lst(L.eng, S, S.env[k])

        for l in lists:
            i = z3.Int("li")
            out.append((f"elements({l})", lambda S, g, l=l: forall(i, z3.Implies(z3.And(0 <= i, i < sq(S, l).n), sq(S, l).elem(i).real() == s + z3.ToReal(i) * st))))
            out.append((f"last({l})", lambda S, g, l=l: z3.Implies(sq(S, l).n > 0, z3.If(st > 0, s + z3.ToReal(sq(S, l).n - 1) * st < e, s + z3.ToReal(sq(S, l).n - 1) * st > e))))
            for k in nums:
                out.append((f"{k}=start+len({l})*step", lambda S, g, l=l, k=k: S.env[k].real() == s + z3.ToReal(sq(S, l).n) * st))
                out.append((f"{k}=len({l})", lambda S, g, l=l, k=k: S.env[k].real() == z3.ToReal(sq(S, l).n)))
        return out


class Linspace(Contract):
    qual = "linspace"
    params = dict(start="real", stop="real", num="int", endpoint=("const", True))
    props = ("C16",)
    endpoint = True

    def requires(self, eng, S, a):
        return [("num", a["num"].e >= 0)]

    def result(self, eng, S0, S1, a):
        arr = eng.fresh("linspace", A1(REAL))
        return eng.new_list(S1, SymSeq(a["num"].e, lambda i: VNum(arr[i])))

    def ensures(self, eng, S0, S1, a, r):
        sq = lst(eng, S1, r)
        s, e, n = R(a["start"]), R(a["stop"]), a["num"].e
        i = z3.Int("i")
        d = z3.ToReal(n - 1) if self.endpoint else z3.ToReal(n)
        x = sq.elem(i).real()
        return [("number", sq.n == n),
                ("first", z3.Implies(n > 0, sq.elem(z3.IntVal(0)).real() == s)),
                ("equidistant", forall(i, z3.Implies(z3.And(0 <= i, i < n, n > 1), (x - s) * d == z3.ToReal(i) * (e - s)))),
                ] + ([("last", z3.Implies(n > 1, sq.elem(n - 1).real() == e))] if self.endpoint else [])


class LinspaceE(Linspace):
    qual = "linspace/noendpoint"
    params = dict(start="real", stop="real", num="int", endpoint=("const", False))
    endpoint = False


class Interp(Contract):
    qual = "interp"
    params = dict(x="real", xp=("seqarg", "real"), fp=("seqarg", "real"), left="none", right="none")
    props = ("C16",)

    def requires(self, eng, S, a):
        return [("sorted", sorted_seq(eng, S, lst(eng, S, a["xp"]), strict=True))]

    def raises(self, eng, S, a):
        xp, fp = lst(eng, S, a["xp"]), lst(eng, S, a["fp"])
        return [("ValueError", z3.Or(xp.n != fp.n, xp.n == 0))]

    def result(self, eng, S0, S1, a):
        return VNum(eng.fresh("interp", REAL))

    def ensures(self, eng, S0, S1, a, r):
        xp, fp, x = lst(eng, S0, a["xp"]), lst(eng, S0, a["fp"]), R(a["x"])
        n = xp.n
        X = lambda i: xp.elem(i).real()
        F = lambda i: fp.elem(i).real()
        i = z3.Int("i")
        lv = F(z3.IntVal(0)) if isinstance(a["left"], VNone) else R(a["left"])
        rv = F(n - 1) if isinstance(a["right"], VNone) else R(a["right"])
        return [("below", z3.Implies(x < X(z3.IntVal(0)), R(r) == lv)),
                ("above", z3.Implies(x > X(n - 1), R(r) == rv)),
                ("at points", forall(i, z3.Implies(z3.And(0 <= i, i < n, x == X(i)), R(r) == F(i)))),
                ("linear between", forall(i, z3.Implies(z3.And(0 <= i, i < n - 1, X(i) < x, x < X(i + 1)), (R(r) - F(i)) * (X(i + 1) - X(i)) == (F(i + 1) - F(i)) * (x - X(i)))))]


class InterpLR(Interp):
    qual = "interp/leftright"
    params = dict(x="real", xp=("seqarg", "real"), fp=("seqarg", "real"), left="real", right="real")


# ------------------------------------------------------------------ time units
UNITS = dict(years=86400 * 365, weeks=86400 * 7, days=86400, hours=3600, minutes=60, seconds=1, milliseconds=1e-3, microseconds=1e-6)
FR = {"milliseconds": (1, 1000), "microseconds": (1, 1000000)}


def unit_rate(u):
    """number of units per second (specification)"""
    if u in FR:
        return z3.Q(FR[u][1], 1)
    return z3.Q(1, UNITS[u])


class Lookup(Contract):
    props = ("C15",)

    def __init__(self, s, u):
        self.qual = f"_time_unit_lookup/{u}"
        self.params = dict(descr=("const", u))
        self.u = u
        super().__init__(s)

    def result(self, eng, S0, S1, a):
        return NONE if self.u == "n/a" else VNum(unit_rate(self.u))

    def ensures(self, eng, S0, S1, a, r):
        if self.u == "n/a":
            return [("none", z3.BoolVal(isinstance(r, VNone)))]
        return [("units per second", R(r) == unit_rate(self.u))]


class LookupBad(Contract):
    qual = "_time_unit_lookup/invalid"
    params = dict(descr=("const", "fortnights"))
    props = ("C15",)

    def raises(self, eng, S, a):
        return [("ValueError", z3.BoolVal(True))]


class Factor(Contract):
    """env._time_unit = units per second of the environment; factor = environment units per given unit"""

    props = ("C15",)

    def __init__(self, s, u):
        self.qual = f"_time_unit_factor/{u}"
        self.params = dict(time_unit=("const", u), env="env")
        self.u = u
        super().__init__(s)

    def requires(self, eng, S, a):
        return [("unit set", S["Environment._time_unit"] > 0)]

    def ensures(self, eng, S0, S1, a, r):
        if self.u is None:
            return [("one", R(r) == 1)]
        return [("ratio", R(r) * unit_rate(self.u) == S0["Environment._time_unit"])]


class ToEnv(Contract):
    """env.minutes(t): t minutes in the units of the environment"""

    props = ("C15",)

    def __init__(self, s, u):
        self.qual = f"Environment.{u}"
        self.params = dict(self="env", t="real")
        self.u = u
        super().__init__(s)

    def requires(self, eng, S, a):
        return [("unit set", S["Environment._time_unit"] > 0)]

    def ensures(self, eng, S0, S1, a, r):
        return [("ratio", R(r) * unit_rate(self.u) == R(a["t"]) * S0["Environment._time_unit"])]


class FromEnv(ToEnv):
    def __init__(self, s, u):
        Contract.__init__(self, s)
        self.u = u
        self.qual = self.name = f"Environment.to_{u}"
        self.params = dict(self="env", t="real")

    def ensures(self, eng, S0, S1, a, r):
        return [("ratio", R(r) * S0["Environment._time_unit"] == R(a["t"]) * unit_rate(self.u))]


def make(program):
    s = MathSession(program)
    s.add(HasNumpy, I_, I_None0, I_None1, Interpolate, InterpolateInf, InterpolateT, InterpolateT4, SearchSorted, SearchSortedR, SearchSortedBad,
          Arange, Linspace, LinspaceE, Interp, InterpLR, LookupBad)
    for u in list(UNITS) + ["n/a"]:
        c = Lookup(s, u)
        s.contracts[c.qual] = c
    for u in list(UNITS) + [None]:
        c = Factor(s, u)
        s.contracts[c.qual] = c
    for u in UNITS:
        for k in (ToEnv, FromEnv):
            c = k(s, u)
            s.contracts[c.qual] = c
    return s
