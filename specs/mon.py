"""C11, C12, C13: monitors.  One monitor object at a time; values are numbers (the marker for 'off' is a number that is only compared)."""
from .mathx import *
from .dist import PSum
from pyvc.engine import Out

OFF = z3.Real("off")
OFFANY = z3.Real("off_any")
N0 = z3.Int("n0")
X0 = z3.Function("x0", INT, REAL)
T0 = z3.Function("t0", INT, REAL)
W0 = z3.Function("w0", INT, REAL)
TALLY, TTALLY, START = z3.Reals("tally0 ttally0 start0")
MONITOR = z3.Bool("monitor0")
i_, j_, k_ = z3.Ints("i j k")


class MonSession(MathSession):
    name = "mon"
    local_classes = ("Monitor",)
    split_lists = True
    fields = {"Environment": {"_now": "real", "_offset": "real", "_animate": "bool", "_t": "real"}, "g": {}}
    assumptions = (
        "tallied values are numbers; the marker for 'off' is only compared with them; no animation (the current time is env.now())",
        "math.sqrt is the non-negative root; array.array and list hold what is put in (no rounding to the type code)",
        "sums and counts over a sequence are given by their recursive definition; equal terms give equal sums, non-negative terms give non-negative sums (induction)",
    )

    def field_default(self, *a):
        return None

    def builtin(self, eng, fv, args, kw, st):
        n = fv.name
        if n == "array.array":
            if len(args) == 1:
                return eng.ok(eng.new_list(st, PyList([])), st)
            return eng.bind(eng.iter_of(args[1], st), lambda it, s: self.arr(eng, args[1], it, s))
        if n == "bisect.bisect_left" and isinstance(args[1], VTuple):
            sq, v = lst(eng, st, args[0]), args[1].items
            if not (len(v) == 2 and isinstance(v[1], VNum) and not v[1].finite and z3.is_true(z3.simplify(v[1].kz() == 1))):
                raise Unsupported("bisect on tuples")
            i = eng.fresh("ins", INT)
            e = lambda j: sq.elem(j).items[0].real()
            j = z3.Int("bj")
            st.assume(z3.And(0 <= i, i <= sq.n))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), e(j) <= R(v[0])), patterns=[e(j)]))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(i <= j, j < sq.n), e(j) > R(v[0])), patterns=[e(j)]))
            return eng.ok(VNum(i), st)
        if n == "heapq.merge" and not kw:
            return self.merged(eng, args, st, [])
        if n == "math.sqrt":
            return eng.ok(eng.sqrt(args[0], st), st)
        return super().builtin(eng, fv, args, kw, st)

    noeffect = {"_set_name", "_check_overlapping_parameters", "setup"}

    def globals(self, eng, name):
        if name == "_set_env":
            return VUserFn("_set_env", lambda e, st, a: VEnv())
        if name == "type_to_typecode_off":
            return VUserFn(name, lambda e, st, a: VTuple([VStr(const=""), VNum(OFFANY)] if a[0].const == "any" else [VStr(const="d"), VNum(OFF)]))
        return super().globals(eng, name)

    def merged(self, eng, args, st, its):
        """heapq.merge of sorted sequences"""
        if len(its) < len(args):
            return eng.bind(eng.iter_of(args[len(its)], st), lambda it, s: self.merged(eng, args, s, its + [it]))
        if len(its) == 1:
            return eng.ok(its[0], st)
        if len(its) == 2 and its[0].kind == "static" and its[1].kind == "seq":
            # a few fixed elements among the elements of a sequence; ties between them are decided by the second field
            acts, q = its[0].items, its[1].seq
            second = z3.Int("mm")
            ty = q.elem(second).items[1]
            if not all(isinstance(a, VTuple) and isinstance(a.items[1], VStr) and a.items[1].const is not None for a in acts) or not isinstance(ty, VStr) or ty.const is None:
                raise Unsupported("heapq.merge")
            te = lambda i: q.elem(i).items[0].real()
            prev, parts, after = z3.IntVal(0), [], None
            for a in acts:
                if a.items[1].const == ty.const:
                    raise Unsupported("heapq.merge")
                eng.oblige(st, "moment-is-finite", a.items[0].kz() == 0)
                p = eng.fresh("pos", INT)
                j = z3.Int("mj")
                before = (lambda t: t < R(a.items[0])) if a.items[1].const < ty.const else (lambda t: t <= R(a.items[0]))
                st.assume(z3.And(prev <= p, p <= q.n))
                st.assume(z3.ForAll([j], z3.Implies(z3.And(prev <= j, j < p), before(te(j))), patterns=[te(j)]))
                st.assume(z3.Implies(p < q.n, z3.Not(before(te(p)))))
                parts += [VIter("seq", seq=sub(q, prev, p), desc=("merge",), base=prev, after=after), VIter("static", items=[a])]
                prev, after = p, R(a.items[0])
            parts.append(VIter("seq", seq=sub(q, prev, q.n), desc=("merge",), base=prev, after=after))
            # the fixed elements are in order themselves
            for a, b in zip(acts, acts[1:]):
                eng.oblige(st, "merge-of-sorted", z3.Or(R(a.items[0]) < R(b.items[0]), z3.And(R(a.items[0]) == R(b.items[0]), z3.BoolVal(a.items[1].const <= b.items[1].const))))
            return eng.ok(VIter("concat", parts=parts), st)
        if len(its) == 2 and all(i.kind == "seq" for i in its):
            return self.merge2(eng, its[0].seq, its[1].seq, st)
        raise Unsupported("heapq.merge")

    def merge2(self, eng, a, b, st):
        """two sorted sequences of tuples (time, number, ...) with different numbers: ca(k) elements of the first among the first k"""
        i = z3.Int("mm")
        ka, kb = a.elem(i).items[1], b.elem(i).items[1]
        if not (isinstance(ka, VNum) and isinstance(kb, VNum) and z3.is_int_value(z3.simplify(ka.e)) and z3.is_int_value(z3.simplify(kb.e))):
            raise Unsupported("heapq.merge")
        first = z3.simplify(ka.e).as_long() < z3.simplify(kb.e).as_long()
        ca, pick = z3.Function(f"mca{len(st.objs)}", INT, INT), z3.Function(f"mpick{len(st.objs)}", INT, BOOL)
        ta, tb = (lambda i: a.elem(i).items[0].real()), (lambda i: b.elem(i).items[0].real())
        k = z3.Int("mk")
        n = a.n + b.n
        A, B = ca(k), k - ca(k)
        le = ta(A) <= tb(B) if first else ta(A) < tb(B)
        st.assume(ca(0) == 0)
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= n), z3.And(0 <= A, A <= a.n, 0 <= B, B <= b.n)), patterns=[ca(k)]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(ca(k + 1) == z3.If(pick(k), A + 1, A), z3.If(pick(k), z3.And(A < a.n, z3.Or(B == b.n, le)), z3.And(B < b.n, z3.Or(A == a.n, z3.Not(le)))))), patterns=[pick(k)]))

        def elem(k):
            x, y = a.elem(ca(k)).items, b.elem(k - ca(k)).items
            return VTuple([eng.merge_val(pick(k), u, v) for u, v in zip(x, y)])

        q = SymSeq(n, elem)
        q.ca, q.pick, q.na, q.nb = ca, pick, a.n, b.n
        return eng.ok(VIter("seq", seq=q, desc=("merge",)), st)

    def arr(self, eng, v, it, s):
        if isinstance(v, VList):
            c = s.objs[v.loc]
            return eng.ok(eng.new_list(s, PyList(c.items) if isinstance(c, PyList) else c), s)
        return eng.list_from_iter(it, s)

    # sums over sequences: the same term gives the same sum
    def SUM(self, eng, seq, st):
        i = z3.Int("sumi")
        e = seq.elem(i).real()
        for q in self.sums:
            if z3.is_true(z3.simplify(e == q.term(i))) or eng.prove_now(st.pc + [0 <= i, i < seq.n], e == q.term(i), 1500):
                return q(seq.n - 1)
        if eng.prove_now(st.pc + [0 <= i, i < seq.n], e == 1, 500):
            return z3.ToReal(z3.If(seq.n > 0, seq.n, z3.IntVal(0)))
        q = PSum(f"anon{len(self.sums)}", lambda j, i=i, e=e: z3.substitute(e, (i, j)))
        self.sums.append(q)
        r = q(seq.n - 1)
        self.sign(eng, q, seq.n, st)
        return r

    def sign(self, eng, q, n, st):
        i = z3.Int("sumi")
        st.assume(z3.Implies(n <= 0, q(n - 1) == 0))
        if nonneg(eng, st.pc + [0 <= i, i < n], q.term(i)):
            st.assume(q(n - 1) >= 0)

    def COUNT(self, eng, f, st):
        i = z3.Int("sumi")
        c = f.cond(i)
        for q in self.counts:
            if q.n.eq(f.n) and (z3.is_true(z3.simplify(c == q.term(i))) or eng.prove_now(st.pc + [0 <= i, i < f.n], c == q.term(i), 1500)):
                return q(f.n)
        q = Count(f"anon{len(self.counts)}", f.n, lambda j, i=i, c=c: z3.substitute(c, (i, j)))
        self.counts.append(q)
        return q(f.n)


def sub(q, lo, hi):
    return SymSeq(hi - lo, lambda i: q.elem(lo + i))


def nonneg(eng, hyps, e):
    """e >= 0 for all values (quantifier-free hypotheses only)"""
    from pyvc.engine import has_quant

    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return nonneg(eng, hyps + [e.arg(0)], e.arg(1)) and nonneg(eng, hyps + [z3.Not(e.arg(0))], e.arg(2))
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add([h for h in hyps if not has_quant(h)])
    s.add(e < 0)
    if s.check() == z3.unsat:
        return True
    return eng.prove_now(hyps, e >= 0, 1500)


class Count:
    """C(i) = number of j < i with term(j)"""

    def __init__(self, name, n, term):
        self.F = z3.Function(f"count!{name}", INT, INT)
        self.n, self.term = n, term

    def __call__(self, i):
        return self.F(i)

    def at(self, S, i):
        S.assume(self.F(0) == 0)
        S.assume(z3.Implies(i >= 0, self.F(i + 1) == self.F(i) + z3.If(self.term(i), z3.IntVal(1), z3.IntVal(0))))


def now(S):
    return S["Environment._now"]


class M(Contract):
    """base: self is a monitor"""

    props = ("C11",)
    level = True
    stats = False
    weights = False  # non-level: a weight per entry
    on = None
    cached = False
    args = {}
    animate = False

    def make_args(self, eng, st):
        self.s.sums, self.s.counts = [], []
        l = eng.loc()
        d = {}
        self.loc = l
        B = lambda b: VBool(z3.BoolVal(b))
        cl = eng.loc()
        st.objs[cl] = {}
        d.update(env=VEnv(), _level=B(self.level), _stats_only=B(self.stats), isgenerated=B(False), off=VNum(OFF), xtypecode=VStr(const="d"), xtype=VStr(const="float"), _name=VOpaque("name"), _tally=VNum(TALLY), _ttally=VNum(TTALLY), start=VNum(START),
                 _monitor=VBool(MONITOR) if self.on is None else B(self.on), cached_xweight=VDictL(cl))
        if self.stats:
            for f, z in self.stat_init().items():
                d[f] = eng.new_list(st, PyList(z))
            d["_ttally_monitored"] = VNum(z3.Real("ttally_monitored0"))
            d["_weight"] = VBool(z3.Bool("weight0"))
        else:
            d["_x"] = eng.new_list(st, SymSeq(N0, lambda i: VNum(X0(i))))
            d["_t"] = eng.new_list(st, SymSeq(N0, lambda i: VNum(T0(i))))
            d["_weight"] = B(True) if self.level else (eng.new_list(st, SymSeq(N0, lambda i: VNum(W0(i)))) if self.weights else B(False))
            st.assume(N0 >= 0)
            if self.weights:
                st.assume(N0 > 0)
        if self.cached:
            st.objs[cl] = {(False, True): VTuple([VNum(z3.Real("cached_t")), VOpaque("cached")])}
        st.objs[l] = d
        env = dict(self=VLocal(l, "Monitor"))
        for k, kind in self.args.items():
            env[k] = self.s.sym(eng, k, kind, st)
        self.prepare(eng, st, env)
        return env

    def prepare(self, eng, st, env):
        pass

    def stat_init(self):
        return {}

    def at(self, S, f):
        return S.objs[self.loc][f]

    def seq(self, eng, S, f):
        return lst(eng, S, self.at(S, f))

    def requires(self, eng, S, a):
        r = [("no-animation", z3.Not(S["Environment._animate"]))]
        if self.level and not self.stats:
            r += self.MI(eng, S)
        if not self.stats and not self.level:
            r += [("times", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < N0), T0(i_) <= now(S)), T0(i_)))]
            if self.weights:
                r += [("weights-positive", forall(i_, W0(i_) > 0, W0(i_)))]
        return r

    def MI(self, eng, S):
        """invariant of a level monitor"""
        x, t = self.seq(eng, S, "_x"), self.seq(eng, S, "_t")
        e, te = (lambda i: x.elem(i).real()), (lambda i: t.elem(i).real())
        on = self.at(S, "_monitor").b
        i, j = eng.fresh("i", INT), eng.fresh("j", INT)
        fr = isinstance(x, SymSeq) and z3.is_app(e(i_)) and e(i_).decl() == X0
        pt = [z3.MultiPattern(te(i_), te(j_))] if fr else None
        body = z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < t.n), te(i_) < te(j_))
        return [("as-many-times", z3.And(x.n == t.n, x.n >= 1)),
                ("increasing-times", z3.ForAll([i_, j_], body, patterns=pt) if fr else z3.substitute(body, (i_, i), (j_, j))),
                ("not-after-now", te(t.n - 1) <= now(S)),
                ("last-value", e(x.n - 1) == z3.If(on, R(self.at(S, "_tally")), OFF)),
                ("value-is-not-off", R(self.at(S, "_tally")) != OFF)]

    def same_obj(self, S0, S1, *changed):
        """all other attributes are what they were"""
        out = []
        d0, d1 = S0.objs[self.loc], S1.objs[self.loc]
        for k in d0:
            if k in changed or k == "cached_xweight":
                continue
            a, b = d0[k], d1.get(k)
            if a is b:
                if isinstance(a, VList):
                    c0, c1 = S0.objs[a.loc], S1.objs[a.loc]
                    if c0 is not c1:
                        out.append((f"{k}-unchanged", self.same_seq(c0, c1)))
                continue
            if isinstance(a, VNum) and isinstance(b, VNum):
                out.append((f"{k}-unchanged", a.real() == b.real()))
            elif isinstance(a, VBool) and isinstance(b, VBool):
                out.append((f"{k}-unchanged", a.b == b.b))
            else:
                out.append((f"{k}-unchanged", z3.BoolVal(False)))
        return out

    def same_seq(self, c0, c1):
        if isinstance(c0, PyList) and isinstance(c1, PyList):
            if len(c0.items) != len(c1.items):
                return z3.BoolVal(False)
            return z3.And([z3.And(a.real() == b.real(), a.kz() == b.kz()) for a, b in zip(c0.items, c1.items)] or [z3.BoolVal(True)])
        k = z3.Int("sk")
        return z3.And(c0.n == c1.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < c0.n), c0.elem(k).real() == c1.elem(k).real())))

    def cache_cleared(self, S1):
        return [("cache-cleared", z3.BoolVal(not S1.objs[self.at(S1, "cached_xweight").loc]))]


def prefix(x0, x1, n):
    return forall_i(lambda i: z3.Implies(z3.And(0 <= i, i < n), x0(i) == x1(i)))


def forall_i(f):
    k = z3.Int("pk")
    return z3.ForAll([k], f(k))


class LevelChange(M):
    """a level monitor gets a (new) last value: history before now is untouched"""

    def history(self, eng, S0, S1, last, recorded):
        x0, t0, x1, t1 = (self.seq(eng, S, f) for S in (S0, S1) for f in ("_x", "_t"))
        t0_, x0_ = (lambda i: t0.elem(i).real()), (lambda i: x0.elem(i).real())
        t1_, x1_ = (lambda i: t1.elem(i).real()), (lambda i: x1.elem(i).real())
        keep = z3.If(z3.And(recorded, t0_(N0 - 1) == now(S0)), N0 - 1, N0)
        return [("past-values-kept", prefix(x0_, x1_, keep)), ("past-times-kept", prefix(t0_, t1_, keep)),
                ("recorded-now", z3.And(x1.n == keep + z3.If(recorded, z3.IntVal(1), z3.IntVal(0)), z3.Implies(recorded, z3.And(x1_(x1.n - 1) == last, t1_(t1.n - 1) == now(S0)))))]


class TallyLevel(LevelChange):
    qual = "Monitor.tally/level"
    args = dict(value="real")
    cached = True

    def raises(self, eng, S, a):
        return [("ValueError", R(a["value"]) == OFF)]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return self.same_obj(S0, S1)

    def ensures(self, eng, S0, S1, a, r):
        v = R(a["value"])
        return (self.history(eng, S0, S1, v, MONITOR) + [("current-value", z3.And(R(self.at(S1, "_tally")) == v, R(self.at(S1, "_ttally")) == now(S0)))]
                + [("MI." + x, f) for x, f in self.MI(eng, S1)] + self.cache_cleared(S1) + self.same_obj(S0, S1, "_x", "_t", "_tally", "_ttally"))


class MonitorSwitch(LevelChange):
    args = dict(value="bool")
    cached = True
    val = True

    def __init__(self, s, val):
        self.val = val
        self.qual = f"Monitor.monitor/level,{val}"
        super().__init__(s)

    def prepare(self, eng, st, env):
        env["value"] = VBool(z3.BoolVal(self.val))

    def ensures(self, eng, S0, S1, a, r):
        return (self.history(eng, S0, S1, TALLY if self.val else OFF, z3.BoolVal(True)) + [("returns-setting", eng.truth(r, S1) == self.val), ("switched", self.at(S1, "_monitor").b == self.val)]
                + [("MI." + x, f) for x, f in self.MI(eng, S1)] + self.cache_cleared(S1) + self.same_obj(S0, S1, "_x", "_t", "_ttally", "_monitor"))


class MonitorAsk(LevelChange):
    qual = "Monitor.monitor/level,ask"
    args = dict(value="none")

    def ensures(self, eng, S0, S1, a, r):
        return [("returns-setting", eng.truth(r, S1) == MONITOR)] + self.same_obj(S0, S1)


class ResetLevel(M):
    args = dict()
    cached = True

    def __init__(self, s, val, level=True, weights=False):
        self.val, self.level, self.weights = val, level, weights
        self.props = ("C11",) if level else ("C12",)
        self.qual = f"Monitor.reset/{'level' if level else 'values' + (',weights' if weights else '')},{val}"
        super().__init__(s)

    def prepare(self, eng, st, env):
        env["monitor"] = NONE if self.val is None else VBool(z3.BoolVal(self.val))

    def ensures(self, eng, S0, S1, a, r):
        on = MONITOR if self.val is None else z3.BoolVal(self.val)
        x, t = self.seq(eng, S1, "_x"), self.seq(eng, S1, "_t")
        out = [("start", R(self.at(S1, "start")) == now(S0)), ("monitoring", self.at(S1, "_monitor").b == on)]
        if self.level:
            out += [("one-entry", z3.And(x.n == 1, t.n == 1)), ("starts-now", t.elem(z3.IntVal(0)).real() == now(S0)), ("starts-with-current-value", x.elem(z3.IntVal(0)).real() == z3.If(on, TALLY, OFF))]
            out += [("MI." + x, f) for x, f in self.MI(eng, S1)]
        else:
            w = self.at(S1, "_weight")
            out += [("no-entries", z3.And(x.n == 0, t.n == 0)), ("no-weights", z3.BoolVal(isinstance(w, VBool) and z3.is_false(z3.simplify(w.b))))]
        return out + self.cache_cleared(S1) + self.same_obj(S0, S1, "_x", "_t", "_ttally", "_monitor", "start", "_weight")


class GetLevel(M):
    """value at a moment"""

    qual = "Monitor.__call__/level"
    args = dict(t="real")

    def ensures(self, eng, S0, S1, a, r):
        t = R(a["t"]) + S0["Environment._offset"]
        last = z3.And(0 <= k_, k_ < N0, T0(k_) <= t, z3.Or(k_ == N0 - 1, t < T0(k_ + 1)))
        return [("current-value", z3.Implies(t == now(S0), R(r) == TALLY)),
                ("before-the-start", z3.Implies(z3.And(t != now(S0), t < T0(0)), R(r) == OFF)),
                ("last-value-before", z3.ForAll([k_], z3.Implies(z3.And(t != now(S0), last), R(r) == X0(k_)), patterns=[T0(k_)]))] + self.same_obj(S0, S1)


class GetNow(M):
    qual = "Monitor.__call__/now"
    args = dict(t="none")

    def ensures(self, eng, S0, S1, a, r):
        return [("current-value", R(r) == TALLY)] + self.same_obj(S0, S1)


class GetMethod(GetLevel):
    qual = "Monitor.get/level"


class ValueProp(M):
    def __init__(self, s, q, v):
        self.qual, self.v = q, v
        super().__init__(s)

    def ensures(self, eng, S0, S1, a, r):
        return [("value", R(r) == self.v)] + self.same_obj(S0, S1)


# ------------------------------------------------------------------ the entries with their weights
class View:
    """entries (x, weight) of the monitor in scope, and which count"""

    def __init__(self, level, weights, ex0, S):
        self.n = N0
        self.x = X0
        if level:
            self.w = lambda i: z3.If(i + 1 < N0, T0(i + 1), now(S)) - T0(i)
            self.cond = lambda i: z3.And(X0(i) != OFF, X0(i) != 0) if ex0 else X0(i) != OFF
        else:
            self.w = W0 if weights else (lambda i: z3.RealVal(1))
            self.cond = lambda i: X0(i) != 0 if ex0 else z3.BoolVal(True)


class XWeightUse(Contract):
    """_xweight at call sites (proved below): the entries that count, in order, with their weights"""

    qual = "Monitor._xweight"
    params = dict(ex0="bool", force_numeric="bool")
    verify = False

    def result(self, eng, S0, S1, a):
        c = self.s.cur
        b = z3.simplify(eng.truth(a["ex0"], S0))
        if not (z3.is_true(b) or z3.is_false(b)):
            raise Unsupported("ex0")
        v = View(c.level, c.weights, z3.is_true(b), S0)
        lit = z3.is_true(z3.simplify(v.cond(i_)))
        mk = (lambda el: SymSeq(v.n, el)) if lit else (lambda el: FilterSeq(v.n, el, v.cond))
        return VTuple([eng.new_list(S1, mk(lambda i: VNum(v.x(i)))), eng.new_list(S1, mk(lambda i: VNum(v.w(i))))])


class Stat(M):
    cached = False
    fn = None
    on = None

    def __init__(self, s, level, weights, ex0, fn=None, args=""):
        self.level, self.weights, self.ex0 = level, weights, ex0
        self.fn = fn or self.fn
        self.props = ("C11",) if level else ("C12",)
        kind = "level" if level else ("weights" if weights else "values")
        self.qual = f"Monitor.{self.fn}/{kind}" + (",ex0" if ex0 else "")
        super().__init__(s)

    def prepare(self, eng, st, env):
        self.s.cur = self
        env["ex0"] = VBool(z3.BoolVal(self.ex0))
        self.decl(eng, st)

    def decl(self, eng, st):
        v = self.v = View(self.level, self.weights, self.ex0, st)
        z = z3.RealVal(0)
        self.W = PSum("W", lambda i: z3.If(v.cond(i), v.w(i), z))
        self.SXW = PSum("SXW", lambda i: z3.If(v.cond(i), v.x(i) * v.w(i), z))
        m = self.SXW(N0 - 1) / self.W(N0 - 1)
        self.VAR = PSum("VAR", lambda i: z3.If(v.cond(i), v.w(i) * ((v.x(i) - m) * (v.x(i) - m)), z))
        self.C = Count("C", N0, v.cond)
        self.s.sums = [self.W, self.SXW, self.VAR]
        self.s.counts = [self.C]

    def requires(self, eng, S, a):
        r = super().requires(eng, S, a)
        return r + self.facts(S)

    def facts(self, S):
        """consequences of the definitions by induction: weights are not negative, so neither are their sums; the variance sum"""
        n = N0 - 1
        return [("def.sums-of-nonnegative-terms", z3.And(self.W(n) >= 0, self.VAR(n) >= 0, self.C(N0) >= 0, z3.Implies(N0 == 0, z3.And(self.W(n) == 0, self.SXW(n) == 0))))]

    def nan(self, r):
        return isinstance(r, VOpaque) and r.why == "nan"

    def ensures(self, eng, S0, S1, a, r):
        return self.post(eng, S0, S1, a, r) + self.same_obj(S0, S1)


class Mean(Stat):
    fn = "mean"

    def post(self, eng, S0, S1, a, r):
        W, X = self.W(N0 - 1), self.SXW(N0 - 1)
        if self.nan(r):
            return [("nan-only-without-weight", W == 0)]
        return [("mean", z3.And(W != 0, R(r) * W == X))]


class Std(Stat):
    fn = "std"

    def post(self, eng, S0, S1, a, r):
        W = self.W(N0 - 1)
        if self.nan(r):
            return [("nan-only-without-weight", W == 0)]
        return [("std", z3.And(W != 0, R(r) >= 0, R(r) * R(r) * W == self.VAR(N0 - 1)))]


class Extreme(Stat):
    def post(self, eng, S0, S1, a, r):
        v = self.v
        inr = lambda i: z3.And(0 <= i, i < N0, v.cond(i))
        if self.nan(r):
            return [("nan-only-without-entries", z3.ForAll([i_], z3.Not(inr(i_))))]
        rel = (lambda x: R(r) <= x) if self.fn == "minimum" else (lambda x: R(r) >= x)
        return [("bound", z3.ForAll([i_], z3.Implies(inr(i_), rel(X0(i_))), patterns=[X0(i_)])), ("attained", z3.Exists([i_], z3.And(inr(i_), R(r) == X0(i_))))]


class Weight(Stat):
    def post(self, eng, S0, S1, a, r):
        return [("total-weight", R(r) == self.W(N0 - 1))]


class Entries(Stat):
    fn = "number_of_entries"

    def post(self, eng, S0, S1, a, r):
        return [("number", R(r) == (z3.ToReal(self.C(N0)) if self.ex0 else z3.ToReal(N0)))]


class Bin(Stat):
    """weight / number of entries / duration of the values in (lower, upper]"""

    def __init__(self, s, level, weights, fn, ex0=False):
        super().__init__(s, level, weights, ex0, fn)

    args = dict(lowerbound="real", upperbound="real")

    def prepare(self, eng, st, env):
        super().prepare(eng, st, env)
        lo, hi = R(env["lowerbound"]), R(env["upperbound"])
        v = self.v
        cnt = "number" in self.fn
        if not cnt:
            env.pop("ex0")
        self.B = PSum("BIN", lambda i: z3.If(z3.And(v.cond(i), X0(i) > lo, X0(i) <= hi), z3.RealVal(1) if cnt else v.w(i), z3.RealVal(0)))
        self.s.sums.append(self.B)

    def post(self, eng, S0, S1, a, r):
        return [("bin", R(r) == self.B(N0 - 1))]


ZERO = [("number_of_entries_zero", False), ("weight_zero", False), ("duration_zero", True)]


class Zero(Stat):
    def prepare(self, eng, st, env):
        super().prepare(eng, st, env)
        env.pop("ex0")
        v = self.v
        z = z3.RealVal(0)
        self.W1 = PSum("W1", lambda i: z3.If(z3.And(v.cond(i), X0(i) != 0), v.w(i), z))
        self.C1 = Count("C1", N0, lambda i: z3.And(v.cond(i), X0(i) != 0))
        self.s.sums.append(self.W1)
        self.s.counts.append(self.C1)

    def post(self, eng, S0, S1, a, r):
        if "number" in self.fn:
            return [("zeros", R(r) == z3.ToReal(N0 - self.C1(N0)))]
        return [("zeros", R(r) == self.W(N0 - 1) - self.W1(N0 - 1))]


# ------------------------------------------------------------------ _xweight itself
class XWeight(M):
    def __init__(self, s, level, weights, ex0, cached=False):
        self.level, self.weights, self.ex0, self.cached = level, weights, ex0, cached
        self.props = ("C11",) if level else ("C12",)
        kind = "level" if level else ("weights" if weights else "values")
        self.qual = f"Monitor._xweight/{kind}" + (",ex0" if ex0 else "") + (",cached" if cached else "")
        super().__init__(s)

    def prepare(self, eng, st, env):
        env["ex0"] = VBool(z3.BoolVal(self.ex0))
        env["force_numeric"] = VBool(z3.BoolVal(True))
        self.v = View(self.level, self.weights, self.ex0, st)
        self.C = Count("C", N0, self.v.cond)
        self.s.counts = [self.C]

    def ensures(self, eng, S0, S1, a, r):
        v = self.v
        ct = z3.Real("cached_t")
        if isinstance(r, VOpaque) and r.why == "cached":
            return [("cached-for-now", ct == now(S0))] + self.same_obj(S0, S1)
        xs, ws = (S1.objs[y.loc] for y in r.items)
        out = [("cached-only-if-for-now", ct != now(S0))] if self.cached else []
        ca = S1.objs[self.at(S1, "cached_xweight").loc].get((self.ex0, True))
        out.append(("cache-holds-the-result", z3.BoolVal(isinstance(ca, VTuple) and ca.items[1] is r) if ca is None else z3.And(R(ca.items[0]) == now(S0), z3.BoolVal(ca.items[1] is r))))
        i = eng.fresh("i", INT)
        if isinstance(xs, FilterSeq):
            out += [("entries-that-count", z3.And(xs.n == N0, z3.Implies(z3.And(0 <= i, i < N0), z3.And(xs.cond(i) == v.cond(i), z3.Implies(v.cond(i), xs.elem(i).real() == X0(i))))))]
            if isinstance(ws, FilterSeq):
                out += [("weights", z3.And(ws.n == N0, z3.Implies(z3.And(0 <= i, i < N0), z3.And(ws.cond(i) == v.cond(i), z3.Implies(v.cond(i), ws.elem(i).real() == v.w(i))))))]
            else:
                out += [("weights", z3.And(ws.n == self.C(N0), z3.Implies(z3.And(0 <= i, i < N0, v.cond(i)), ws.elem(i).real() == v.w(i))))]
            return out + self.same_obj(S0, S1)
        if not self.level:
            out += [("entries", z3.And(xs.n == N0, ws.n == N0, z3.Implies(z3.And(0 <= i, i < N0), z3.And(xs.elem(i).real() == X0(i), ws.elem(i).real() == v.w(i), v.cond(i)))))]
            return out + self.same_obj(S0, S1)
        C = self.C
        pos = z3.Implies(z3.And(0 <= i, i < N0, v.cond(i)), z3.And(0 <= C(i), C(i) < xs.n, xs.elem(C(i)).real() == X0(i), ws.elem(C(i)).real() == v.w(i)))
        out += [("as-many-as-count", z3.And(xs.n == C(N0), ws.n == C(N0))), ("entries-that-count, in order", pos)]
        return out + self.same_obj(S0, S1)

    def loops(self, L):
        if not self.level or "i" not in L.ghost:
            return []
        out = []
        C, v, g0 = self.C, self.v, L.ghost["i"]
        C.at(L.head, g0)
        C.at(L.entry, z3.IntVal(0))
        C.at(L.head, g0 - 1)
        diff = lambda i: T0(i + 1) - T0(i)
        for k, w in L.head.env.items():
            if isinstance(w, VList) and w.loc in L.mod_objs and isinstance(L.head.objs[w.loc], SymSeq):
                el = lambda S, k=k: lst(L.eng, S, S.env[k])
                q = z3.Int("q")
                out.append((f"len-behind({k})", lambda S, g, el=el: el(S).n == z3.If(g["i"] > 0, g["i"] - 1, z3.IntVal(0))))
                out.append((f"differences({k})", lambda S, g, el=el: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < el(S).n), el(S).elem(q).real() == diff(q)))))
                out.append((f"len-count({k})", lambda S, g, el=el: el(S).n == C(g["i"])))
                for nm, f in (("x", X0), ("w", v.w)):
                    out.append((f"entries-{nm}({k})", lambda S, g, el=el, f=f: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g["i"], v.cond(q)), z3.And(0 <= C(q), C(q) < C(g["i"]), el(S).elem(C(q)).real() == f(q))), patterns=[X0(q), C(q)])))
            if isinstance(w, VOpt) and k in L.mod_vars:
                out.append((f"last-time({k})", lambda S, g, k=k: self.last(S.env[k], g["i"])))
        return out

    def last(self, v, i):
        if isinstance(v, VNone):
            return i == 0
        if isinstance(v, VNum):
            return z3.And(i > 0, v.real() == T0(i - 1))
        return z3.And(v.none == (i == 0), z3.Implies(i > 0, v.v.real() == T0(i - 1)))


# ------------------------------------------------------------------ non level: tally
class TallyValue(M):
    level = False
    cached = True
    props = ("C12",)

    def __init__(self, s, weights, one):
        self.weights, self.one = weights, one
        self.qual = f"Monitor.tally/{'weights' if weights else 'values'},{'weight=1' if one else 'weight'}"
        super().__init__(s)

    args = dict(value="real", weight="real")

    def prepare(self, eng, st, env):
        if self.one:
            env["weight"] = VNum(1)

    def requires(self, eng, S, a):
        return super().requires(eng, S, a) + [("positive-weight", R(a["weight"]) > 0)]

    def ensures(self, eng, S0, S1, a, r):
        x, t, w = self.seq(eng, S1, "_x"), self.seq(eng, S1, "_t"), self.at(S1, "_weight")
        n1 = N0 + z3.If(MONITOR, z3.IntVal(1), z3.IntVal(0))
        i = eng.fresh("i", INT)
        old = z3.And(0 <= i, i < N0)
        out = [("one-entry-more", z3.And(x.n == n1, t.n == n1)), ("entries-kept", z3.Implies(old, z3.And(x.elem(i).real() == X0(i), t.elem(i).real() == T0(i)))),
               ("entry-added", z3.Implies(MONITOR, z3.And(x.elem(N0).real() == R(a["value"]), t.elem(N0).real() == now(S0))))]
        wold = W0(i) if self.weights else z3.RealVal(1)
        if isinstance(w, VList):
            q = lst(eng, S1, w)
            out += [("a-weight-for-each", q.n == n1), ("weights-kept", z3.Implies(old, q.elem(i).real() == wold)), ("weight-added", z3.Implies(MONITOR, q.elem(N0).real() == R(a["weight"])))]
        elif isinstance(w, VBool):
            out += [("no-weights-needed", z3.And(z3.Not(w.b), z3.BoolVal(not self.weights), z3.Implies(MONITOR, R(a["weight"]) == 1)))]
        return out + self.cache_cleared(S1) + self.same_obj(S0, S1, "_x", "_t", "_weight")


# ------------------------------------------------------------------ statistics only: running totals
G = lambda f, e: z3.Real(f"{f}{e}")  # W: total weight, SX: weighted sum, SQ: weighted sum of squares, of the entries so far (e=1: without zeros)


def SI(eng, S, c, tot, on=True):
    """the running totals of the object are those of the entries seen so far"""
    out = []
    g = lambda f: S.objs[c.at(S, f).loc].items
    for e in (0, 1):
        W, SX, SQ, n, lo, hi = tot[e]
        mun, sn, sumw, nn, mi, ma = (g(f)[e] for f in ("mun", "sn", "sumw", "n", "_minimum", "_maximum"))
        out += [(f"weight[{e}]", R(sumw) == W), (f"mean[{e}]", R(mun) * W == SX), (f"squares[{e}]", R(sn) * W == SQ * W - SX * SX), (f"entries[{e}]", R(nn) == z3.ToReal(n)),
                (f"minimum[{e}]", z3.If(n > 0, z3.And(mi.kz() == 0, mi.real() == lo), mi.kz() == 1)), (f"maximum[{e}]", z3.If(n > 0, z3.And(ma.kz() == 0, ma.real() == hi), ma.kz() == -1)),
                (f"nothing-seen[{e}]", z3.And(n >= 0, z3.If(n > 0, W > 0, z3.And(W == 0, SX == 0, SQ == 0, R(mun) == 0, R(sn) == 0))))]
    return out


class SO(M):
    stats = True
    cached = False

    def stat_init(self):
        d = {f: [] for f in ("mun", "n", "sn", "sumw", "_minimum", "_maximum")}
        self.tot = []
        for e in (0, 1):
            n = z3.Int(f"n{e}")
            for f in ("mun", "sn", "sumw"):
                d[f].append(VNum(z3.Real(f"{f}{e}")))
            d["n"].append(VNum(n))
            d["_minimum"].append(VNum(G("lo", e), z3.If(n > 0, z3.IntVal(0), z3.IntVal(1))))
            d["_maximum"].append(VNum(G("hi", e), z3.If(n > 0, z3.IntVal(0), z3.IntVal(-1))))
            self.tot.append((G("W", e), G("SX", e), G("SQ", e), n, G("lo", e), G("hi", e)))
        return d

    def requires(self, eng, S, a):
        r = super().requires(eng, S, a) + SI(eng, S, self, self.tot)
        if self.level:
            r.append(("monitored-since", R(self.at(S, "_ttally_monitored")) <= now(S)))
        return r

    def added(self, x, w):
        """totals with one more entry"""
        out = []
        for e, (W, SX, SQ, n, lo, hi) in enumerate(self.tot):
            c = z3.And(w > 0, x != 0) if e else w > 0
            f = lambda a, b: z3.If(c, a, b)
            out.append((f(W + w, W), f(SX + w * x, SX), f(SQ + w * x * x, SQ), f(n + 1, n), f(z3.If(z3.And(n > 0, lo <= x), lo, x), lo), f(z3.If(z3.And(n > 0, hi >= x), hi, x), hi)))
        return out

    # what a statistic reads: the totals up to now (callers of _tally_add_now know them by name only)
    def named(self):
        self.s.cur = self
        if not self.level:
            return self.tot
        return [(G("W_now", e), G("SX_now", e), G("SQ_now", e), z3.Int(f"n_now{e}"), G("lo_now", e), G("hi_now", e)) for e in (0, 1)]

    def upto_now(self, S):
        return self.added(TALLY, z3.If(MONITOR, now(S) - R(self.at(S, "_ttally_monitored")), z3.RealVal(0)))

    def same(self, S0, S1, *ch):
        return self.same_obj(S0, S1, "mun", "n", "sn", "sumw", "_minimum", "_maximum", "_weight", *ch)


class SOAddNow(SO):
    """bring the totals up to now: used by every statistic"""

    qual = "Monitor._tally_add_now"

    def requires(self, eng, S, a):
        c = self.s.cur
        if c is not self and isinstance(c, SO):
            self.tot, self.loc = getattr(c, "call_tot", c.tot), c.loc
            if isinstance(c, SOReset):
                return super().requires(eng, S, a) + [("nothing-to-add", R(self.at(S, "_ttally_monitored")) == now(S))]
        return super().requires(eng, S, a)

    def make_args(self, eng, st):
        self.s.cur = self
        return super().make_args(eng, st)

    def result(self, eng, S0, S1, a):
        d = dict(S1.objs[self.loc])
        for f in ("mun", "n", "sn", "sumw", "_minimum", "_maximum"):
            it = []
            for e in (0, 1):
                n = z3.Int(f"n_now{e}")
                if f == "n":
                    v = VNum(n)
                elif f == "_minimum":
                    v = VNum(G("lo_now", e), z3.If(n > 0, z3.IntVal(0), z3.IntVal(1)))
                elif f == "_maximum":
                    v = VNum(G("hi_now", e), z3.If(n > 0, z3.IntVal(0), z3.IntVal(-1)))
                else:
                    v = VNum(eng.fresh(f, REAL))
                it.append(v)
            S1.objs[d[f].loc] = PyList(it)
        d["_ttally_monitored"] = VNum(z3.If(MONITOR, now(S0), R(d["_ttally_monitored"])))
        d["_weight"] = VBool(eng.fresh("weight", BOOL))
        S1.objs[self.loc] = d
        return NONE

    def ensures(self, eng, S0, S1, a, r):
        own = self.s.cur is self
        return (SI(eng, S1, self, self.upto_now(S0) if own else self.s.cur.named())
                + [("monitored-since", R(self.at(S1, "_ttally_monitored")) == z3.If(MONITOR, now(S0), R(self.at(S0, "_ttally_monitored"))))] + (self.same(S0, S1, "_ttally_monitored") if own else []))


class SOTally(SO):
    def __init__(self, s, level):
        self.level = level
        self.props = ("C11",) if level else ("C12",)
        self.args = dict(value="real") if level else dict(value="real", weight="real")
        self.qual = f"Monitor.tally/stats_only,{'level' if level else 'values'}"
        super().__init__(s)

    def requires(self, eng, S, a):
        return super().requires(eng, S, a) + ([] if self.level else [("positive-weight", R(a["weight"]) > 0)])

    def ensures(self, eng, S0, S1, a, r):
        if self.level:
            tot = self.upto_now(S0)
            o = [("current-value", z3.And(R(self.at(S1, "_tally")) == R(a["value"]), R(self.at(S1, "_ttally")) == now(S0))), ("monitored-since", z3.Implies(MONITOR, R(self.at(S1, "_ttally_monitored")) == now(S0)))]
            ch = ("_tally", "_ttally", "_ttally_monitored")
        else:
            tot = self.added(R(a["value"]), z3.If(MONITOR, R(a["weight"]), z3.RealVal(0)))
            o, ch = [], ()
        return o + SI(eng, S1, self, tot) + self.same(S0, S1, *ch)


class SOMonitor(SO):
    def __init__(self, s, level, val):
        self.level, self.val = level, val
        self.props = ("C11",) if level else ("C12",)
        self.qual = f"Monitor.monitor/stats_only,{'level' if level else 'values'},{val}"
        super().__init__(s)

    def prepare(self, eng, st, env):
        self.named()
        env["value"] = NONE if self.val is None else VBool(z3.BoolVal(self.val))

    def mon_tot(self, S):
        return [tuple(z3.If(MONITOR, x, y) for x, y in zip(a, b)) for a, b in zip(self.named(), self.tot)]

    def ensures(self, eng, S0, S1, a, r):
        v = MONITOR if self.val is None else z3.BoolVal(self.val)
        o = [("returns-setting", eng.truth(r, S1) == v), ("switched", self.at(S1, "_monitor").b == v)]
        if self.val is None:
            return o + SI(eng, S1, self, self.tot) + self.same(S0, S1)
        if self.level:
            o.append(("monitored-since", R(self.at(S1, "_ttally_monitored")) == now(S0)))
        return o + SI(eng, S1, self, self.mon_tot(S0)) + self.same(S0, S1, "_monitor", "_ttally_monitored")


class SOReset(SO):
    zz = z3.RealVal(0)
    call_tot = [(zz, zz, zz, z3.IntVal(0), zz, zz)] * 2

    def named(self):
        return self.call_tot  # at the call there is no time to add (an obligation)

    def __init__(self, s, level, val):
        self.level, self.val = level, val
        self.props = ("C11",) if level else ("C12",)
        self.qual = f"Monitor.reset/stats_only,{'level' if level else 'values'},{val}"
        super().__init__(s)

    def prepare(self, eng, st, env):
        self.s.cur = self
        env["monitor"] = NONE if self.val is None else VBool(z3.BoolVal(self.val))

    def ensures(self, eng, S0, S1, a, r):
        z = z3.RealVal(0)
        on = MONITOR if self.val is None else z3.BoolVal(self.val)
        o = [("start", R(self.at(S1, "start")) == now(S0)), ("monitoring", self.at(S1, "_monitor").b == on)]
        if self.level:
            o.append(("monitored-since", R(self.at(S1, "_ttally_monitored")) == now(S0)))
        return o + SI(eng, S1, self, [(z, z, z, z3.IntVal(0), z, z)] * 2) + self.same(S0, S1, "_monitor", "_ttally_monitored", "start")


class SOStat(SO):
    def __init__(self, s, level, fn, ex0):
        self.level, self.fn, self.ex0 = level, fn, ex0
        self.props = ("C11",) if level else ("C12",)
        self.qual = f"Monitor.{fn}/stats_only,{'level' if level else 'values'}" + (",ex0" if ex0 else "")
        super().__init__(s)

    def prepare(self, eng, st, env):
        self.named()
        env["ex0"] = VBool(z3.BoolVal(self.ex0))

    def ensures(self, eng, S0, S1, a, r):
        tot = self.named()
        W, SX, SQ, n, lo, hi = tot[1 if self.ex0 else 0]
        if isinstance(r, VOpaque) and r.why == "nan":
            o = [("nan-only-without-entries", z3.And(n == 0, W == 0))]
        elif self.fn == "mean":
            o = [("mean", z3.And(W != 0, R(r) * W == SX))]
        elif self.fn == "std":
            o = [("std", z3.And(W != 0, R(r) >= 0, R(r) * R(r) * W * W == SQ * W - SX * SX))]
        elif self.fn in ("minimum", "maximum"):
            o = [(self.fn, z3.And(n > 0, r.kz() == 0, R(r) == (lo if self.fn == "minimum" else hi)))]
        elif self.fn == "number_of_entries":
            o = [("number", R(r) == z3.ToReal(n))]
        else:
            o = [("weight", R(r) == W)]
        # reading changes nothing that can be observed: the totals up to now are what they were
        if self.level:
            o.append(("monitored-since", R(self.at(S1, "_ttally_monitored")) == z3.If(MONITOR, now(S0), R(self.at(S0, "_ttally_monitored")))))
        return o + SI(eng, S1, self, tot) + self.same(S0, S1, "_ttally_monitored")

    def requires(self, eng, S, a):
        r = super().requires(eng, S, a)
        # weighted sums of squares: SQ*W >= SX^2 (Cauchy-Schwarz), for the totals up to now
        for e, (W, SX, SQ, n, lo, hi) in enumerate(self.named()):
            r.append((f"def.variance-not-negative[{e}]", SQ * W >= SX * SX))
        return r



# ------------------------------------------------------------------ C13: derived monitors
class Derived(M):
    """a new monitor is returned, the source is what it was"""

    props = ("C13",)
    name_arg = True

    def requires(self, eng, S, a):
        return super().requires(eng, S, a) + [("def.the-marker-is-not-0", z3.And(OFF != 0, OFFANY != 0))]

    def prepare(self, eng, st, env):
        env["name"] = VStr(const="new")

    def seqs(self, eng, S, r):
        d = S.objs[r.loc]
        return d, lst(eng, S, d["_x"]), lst(eng, S, d["_t"])

    def ensures(self, eng, S0, S1, a, r):
        d, x, t = self.seqs(eng, S1, r)
        i = eng.fresh("i", INT)
        out = [("a-new-monitor", z3.BoolVal(isinstance(r, VLocal) and r.loc != self.loc and d["_x"].loc != self.at(S1, "_x").loc and d["_t"].loc != self.at(S1, "_t").loc)), ("same-kind", z3.And(d["_level"].b == z3.BoolVal(self.level), z3.Not(d["_stats_only"].b))),
               ("not-monitoring", z3.And(z3.Not(d["_monitor"].b), d["isgenerated"].b))]
        out += [(n, f) for n, f in self.post(eng, S0, S1, a, d, x, lambda j: x.elem(j).real(), t, lambda j: t.elem(j).real(), i)]
        return out + self.same_obj(S0, S1)

    def weights_kept(self, eng, S1, d, i):
        w = d["_weight"]
        if self.weights:
            if not isinstance(w, VList):
                return [("weights-kept", z3.BoolVal(False))]
            q = lst(eng, S1, w)
            return [("weights-kept", z3.And(z3.BoolVal(w.loc != self.at(S1, "_weight").loc), q.n == N0, z3.Implies(z3.And(0 <= i, i < N0), q.elem(i).real() == W0(i))))]
        return [("no-weights", z3.Not(eng.truth(w, S1)))]


class Multiply(Derived):
    level = False
    args = dict(scale="real")

    def __init__(self, s, weights):
        self.weights = weights
        self.qual = "Monitor.multiply/" + ("weights" if weights else "values")
        super().__init__(s)

    def post(self, eng, S0, S1, a, d, x, X, t, T, i):
        c = z3.And(0 <= i, i < N0)
        return [("every-value-multiplied", z3.And(x.n == N0, z3.Implies(c, X(i) == X0(i) * R(a["scale"])))), ("times-kept", z3.And(t.n == N0, z3.Implies(c, T(i) == T0(i)))), ("start", R(d["start"]) == START)] + self.weights_kept(eng, S1, d, i)


class TMultiply(Derived):
    qual = "Monitor.t_multiply/level"
    args = dict(factor="real")

    def raises(self, eng, S, a):
        return [("TypeError", R(a["factor"]) <= 0)]

    def post(self, eng, S0, S1, a, d, x, X, t, T, i):
        f = R(a["factor"])
        n = z3.If(T0(N0 - 1) == now(S0), N0 - 1, N0)
        c = z3.And(0 <= i, i < n)
        return [("level-history-scaled", z3.And(x.n == n + 1, t.n == n + 1, z3.Implies(c, z3.And(X(i) == X0(i), T(i) == T0(i) * f)))), ("ends-off", z3.And(X(n) == OFF, T(n) == now(S0) * f)), ("start", R(d["start"]) == START * f)]

    def loops(self, L):
        out = []
        for l in L.mod_objs:
            if isinstance(L.head.objs[l], SymSeq) and "i" in L.ghost:
                el = lambda S, l=l: as_seq(L.eng, S, l)
                q = z3.Int("q")
                src = L.it.seq
                f = R(L.args["factor"])
                out.append((f"len({l})", lambda S, g, el=el: el(S).n == g["i"]))
                for nm, fn in (("same", lambda j: src.elem(j).real()), ("scaled", lambda j: src.elem(j).real() * f)):
                    out.append((f"{nm}({l})", lambda S, g, el=el, fn=fn: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g["i"]), el(S).elem(q).real() == fn(q)))))
        return out


def as_seq(eng, S, l):
    c = S.objs[l]
    if isinstance(c, PyList) and not c.items:
        return SymSeq(z3.IntVal(0), lambda i: VNum(0))
    return eng.as_symseq(c) if isinstance(c, PyList) else c


FX = z3.Function("func", REAL, REAL)


class XMap(Derived):
    args = dict()

    def __init__(self, s, level, weights=False):
        self.level, self.weights = level, weights
        self.qual = "Monitor.x_map/" + ("level" if level else ("weights" if weights else "values"))
        super().__init__(s)

    def prepare(self, eng, st, env):
        super().prepare(eng, st, env)
        env["func"] = VUserFn("func", lambda e, s, a: VNum(FX(R(a[0]))))
        env["monitors"] = eng.new_list(st, PyList([]))

    def requires(self, eng, S, a):
        return super().requires(eng, S, a) + [("marker-is-no-value", z3.ForAll([i_], z3.Implies(X0(i_) == OFFANY, X0(i_) == OFF), patterns=[X0(i_)]))]

    def post(self, eng, S0, S1, a, d, x, X, t, T, i):
        v = z3.If(X0(i) == OFF, OFFANY, FX(X0(i)))
        n = z3.If(T0(N0 - 1) == now(S0), N0 - 1, N0) if self.level else N0
        out = [("every-value-mapped", z3.And(x.n == n + (1 if self.level else 0), z3.Implies(z3.And(0 <= i, i < n), X(i) == v))), ("times-kept", z3.And(t.n == x.n, z3.Implies(z3.And(0 <= i, i < n), T(i) == T0(i))))]
        if self.level:
            return out + [("ends-off", z3.And(X(n) == OFFANY, T(n) == now(S0))), ("start", R(d["start"]) == T0(0))]
        return out + [("start", R(d["start"]) == START)] + self.weights_kept(eng, S1, d, i)

    def loops(self, L):
        out = []
        if "i" not in L.ghost:
            return []
        q = z3.Int("q")
        mp = lambda x: z3.If(x == OFF, OFFANY, x)
        for l in L.mod_objs:
            if isinstance(L.head.objs[l], SymSeq):
                el = lambda S, l=l: as_seq(L.eng, S, l)
                out.append((f"len({l})", lambda S, g, el=el: el(S).n == g["i"]))
                for nm, fn in (("marked", lambda j: mp(X0(j))), ("time", T0), ("mapped", lambda j: z3.If(X0(j) == OFF, OFFANY, FX(X0(j))))):
                    out.append((f"{nm}({l})", lambda S, g, el=el, fn=fn: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g["i"]), el(S).elem(q).real() == fn(q)))))
            if isinstance(L.head.objs[l], PyList) and len(L.head.objs[l].items) == 1:
                out.append((f"cur({l})", lambda S, g, l=l: z3.Implies(g["i"] > 0, S.objs[l].items[0].real() == mp(X0(g["i"] - 1)))))
        return out



Q = z3.Real("Q")  # an arbitrary moment


def held(x, t, n, q, v):
    """the step function with n entries has value v at q (q not before the first entry)"""
    return z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n, t(k_) <= q, z3.Or(k_ == n - 1, q < t(k_ + 1))), x(k_) == v))


def sorted_(t, n):
    return z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < n), t(i_) < t(j_)))


class Slice(Derived):
    def __init__(self, s, level, a, b):
        self.level, self.a, self.b = level, a, b
        self.args = dict(start="real" if a else "none", stop="real" if b else "none", modulo="none")
        self.qual = f"Monitor.slice/{'level' if level else 'values'},{'start' if a else '-'},{'stop' if b else '-'}"
        super().__init__(s)

    def period(self, S, a):
        off = S["Environment._offset"]
        lo = z3.If(R(a["start"]) + off > START, R(a["start"]) + off, START) if self.a else START
        hi = z3.If(R(a["stop"]) + off < now(S), R(a["stop"]) + off, now(S)) if self.b else now(S)
        return lo, hi

    def requires(self, eng, S, a):
        lo, hi = self.period(S, a)
        self.KQ, self.PA, self.PB = z3.Ints("KQ PA PB")
        cnt = lambda k, before: z3.And(0 <= k, k <= N0, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < N0), before(T0(i_)) == (i_ < k)), patterns=[T0(i_)]))
        r = super().requires(eng, S, a) + [("started", z3.And(START <= now(S), z3.Implies(N0 > 0, START <= T0(0))))]
        if self.level:
            return r + [("def.entries-until-Q", cnt(self.KQ, lambda t: t <= Q)), ("def.Q", z3.And(START <= Q, Q < now(S)))]
        return r + [("in-order-of-time", z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < N0), T0(i_) <= T0(j_)), patterns=[z3.MultiPattern(T0(i_), T0(j_))])),
                    ("def.entries-before-the-period", cnt(self.PA, lambda t: t < lo)), ("def.entries-until-the-end", cnt(self.PB, (lambda t: t < hi) if self.b else (lambda t: t <= hi)))]

    def E(self, S, a):
        lo, hi = self.period(S, a)
        return z3.If(z3.And(lo <= Q, Q < hi, self.KQ > 0), X0(self.KQ - 1), OFF)

    def post(self, eng, S0, S1, a, d, x, X, t, T, i):
        if self.level:
            return [("in-order", z3.And(x.n == t.n, sorted_(T, t.n))), ("from-the-start", z3.And(t.n > 0, T(z3.IntVal(0)) == START)), ("level-at-Q", held(X, T, t.n, Q, self.E(S0, a))), ("ends-off", z3.And(X(t.n - 1) == OFF, T(t.n - 1) <= now(S0)))]
        n = z3.If(self.PB > self.PA, self.PB - self.PA, z3.IntVal(0))
        return [("entries-within-the-period", z3.And(x.n == n, t.n == n, z3.Implies(z3.And(0 <= i, i < n), z3.And(X(i) == X0(self.PA + i), T(i) == T0(self.PA + i)))))]

    def loops(self, L):
        if "i" not in L.ghost or not hasattr(L.it, "base"):
            return self.loops0(L)
        out = []
        base, after = L.it.base, L.it.after
        r = L.head.env["new"]
        d = lambda S: S.objs[r.loc]
        xs = lambda S: as_seq(L.eng, S, d(S)["_x"].loc)
        ts = lambda S: as_seq(L.eng, S, d(S)["_t"].loc)
        q = z3.Int("q")
        if not self.level:
            if L.it.seg == 2:
                for nm, f, src in (("x", xs, X0), ("t", ts, T0)):
                    out.append((f"len-{nm}", lambda S, g, f=f: f(S).n == g["i"]))
                    out.append((f"entries-{nm}", lambda S, g, f=f, src=src: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g["i"]), f(S).elem(q).real() == src(base + q)))))
            return out
        X = lambda S: (lambda i: xs(S).elem(i).real())
        T = lambda S: (lambda i: ts(S).elem(i).real())
        k = lambda g: base + g["i"]
        front = lambda g: z3.If(g["i"] > 0, T0(k(g) - 1), after) if after is not None else z3.If(g["i"] > 0, T0(k(g) - 1), START)
        cur = lambda g: z3.If(k(g) > 0, X0(k(g) - 1), OFF)
        n = lambda S: ts(S).n
        out.append(("lengths", lambda S, g: z3.And(xs(S).n == n(S), n(S) > 0)))
        out.append(("sorted", lambda S, g: sorted_(T(S), n(S))))
        out.append(("from-the-start", lambda S, g: T(S)(z3.IntVal(0)) == START))
        out.append(("not-beyond", lambda S, g: T(S)(n(S) - 1) <= front(g)))
        if isinstance(L.head.env.get("curx"), VNum):
            out.append(("current", lambda S, g: S.env["curx"].real() == cur(g)))
        out.append(("last", lambda S, g: X(S)(n(S) - 1) == z3.If(S.env["enabled"].b, cur(g), OFF)))
        e = self.E(L.pre, L.args)
        out.append(("value-at-Q", lambda S, g: z3.Implies(Q < front(g), held(X(S), T(S), n(S), Q, e))))
        return out

    def loops0(self, L):
        return []


# ------------------------------------------------------------------ two monitors
N1 = z3.Int("n1")
X1 = z3.Function("x1", INT, REAL)
T1 = z3.Function("t1", INT, REAL)
START1 = z3.Real("start1")
F2 = z3.Function("func2", REAL, REAL, REAL)


class Two(Derived):
    """self and a second monitor"""

    def prepare(self, eng, st, env):
        super().prepare(eng, st, env)
        l = self.loc2 = eng.loc()
        d = dict(st.objs[self.loc])
        d["_x"] = eng.new_list(st, SymSeq(N1, lambda i: VNum(X1(i))))
        d["_t"] = eng.new_list(st, SymSeq(N1, lambda i: VNum(T1(i))))
        cl = eng.loc()
        st.objs[cl] = {}
        d.update(_tally=VNum(z3.Real("tally1")), _ttally=VNum(z3.Real("ttally1")), start=VNum(START1), _monitor=VBool(z3.Bool("monitor1")), cached_xweight=VDictL(cl))
        st.objs[l] = d
        self.other = VLocal(l, "Monitor")
        self.give(eng, st, env)

    def requires(self, eng, S, a):
        self.KA, self.KB = z3.Ints("KA KB")
        r = super().requires(eng, S, a)
        if not self.level:
            return r + [("in-order-of-time", z3.And([z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < n), T(i_) <= T(j_)), patterns=[z3.MultiPattern(T(i_), T(j_))]) for T, n in ((T0, N0), (T1, N1))])),
                        ("times-of-the-other", z3.And(N1 >= 0, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < N1), T1(i_) <= now(S)), patterns=[T1(i_)])))]
        cnt = lambda k, T, n: z3.And(0 <= k, k <= n, z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < n), (T(i_) <= Q) == (i_ < k)), patterns=[T(i_)]))
        return r + [("other", z3.And(N1 >= 1, z3.ForAll([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < N1), T1(i_) < T1(j_)), patterns=[z3.MultiPattern(T1(i_), T1(j_))]), T1(N1 - 1) <= now(S))),
                    ("def.entries-until-Q", z3.And(cnt(self.KA, T0, N0), cnt(self.KB, T1, N1))), ("def.Q", Q < now(S)),
                    ("marker-is-no-value", z3.ForAll([i_], z3.And(z3.Implies(X0(i_) == OFFANY, X0(i_) == OFF), z3.Implies(X1(i_) == OFFANY, X1(i_) == OFF)), patterns=[X0(i_), X1(i_)]))]

    def ensures(self, eng, S0, S1, a, r):
        out = super().ensures(eng, S0, S1, a, r)
        l, self.loc = self.loc, self.loc2
        out += [("other:" + n, f) for n, f in self.same_obj(S0, S1)]
        self.loc = l
        return out

    def level_a(self, k):
        return z3.If(k > 0, self.mark(X0(k - 1)), self.off)

    def level_b(self, k):
        return z3.If(k > 0, self.mark(X1(k - 1)), self.off)

    def E(self, ka, kb):
        u, v = self.level_a(ka), self.level_b(kb)
        return z3.If(z3.Or(u == self.off, v == self.off), self.off, self.comb(u, v))

    def post(self, eng, S0, S1, a, d, x, X, t, T, i):
        if self.level:
            lo = z3.If(T0(0) <= T1(0), T0(0), T1(0))
            return [("in-order", z3.And(x.n == t.n, sorted_(T, t.n))), ("starts-with-the-first", z3.And(t.n > 0, T(z3.IntVal(0)) == lo, R(d["start"]) == lo)), ("level-at-Q", held(X, T, t.n, Q, self.E(self.KA, self.KB))), ("ends-off", z3.And(X(t.n - 1) == self.off, T(t.n - 1) == now(S0)))]
        q = self.q
        x0 = lambda k: z3.If(q.pick(k), X0(q.ca(k)), X1(k - q.ca(k)))
        t0 = lambda k: z3.If(q.pick(k), T0(q.ca(k)), T1(k - q.ca(k)))
        n = N0 + N1
        return [("all-entries-in-order-of-time", z3.And(x.n == n, t.n == n, z3.Implies(z3.And(0 <= i, i < n), z3.And(X(i) == x0(i), T(i) == t0(i))))),
                ("every-entry-once", z3.And(q.ca(n) == N0, z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.If(q.pick(i), q.ca(i) < N0, i - q.ca(i) < N1), q.ca(i) >= 0, i - q.ca(i) >= 0, q.ca(i + 1) == q.ca(i) + z3.If(q.pick(i), z3.IntVal(1), z3.IntVal(0)))))),
                ("start", R(d["start"]) == z3.If(START <= START1, START, START1))]

    def loops(self, L):
        q = z3.Int("q")
        if "i" not in L.ghost or not hasattr(L.it.seq, "ca"):
            out = []
            if "i" in L.ghost:
                for l in L.mod_objs:
                    if isinstance(L.head.objs[l], SymSeq):
                        el = lambda S, l=l: as_seq(L.eng, S, l)
                        out.append((f"len({l})", lambda S, g, el=el: el(S).n == g["i"]))
                        src = L.it.seq
                        out.append((f"marked({l})", lambda S, g, el=el: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g["i"]), el(S).elem(q).real() == self.mark(src.elem(q).real())))))
            return out
        m = self.q = L.it.seq
        r = L.head.env["new"]
        d = lambda S: S.objs[r.loc]
        xs = lambda S: as_seq(L.eng, S, d(S)["_x"].loc)
        ts = lambda S: as_seq(L.eng, S, d(S)["_t"].loc)
        X = lambda S: (lambda i: xs(S).elem(i).real())
        T = lambda S: (lambda i: ts(S).elem(i).real())
        el = lambda k, j: m.elem(k).items[j].real()
        n = lambda S: ts(S).n
        out = []
        # the definition at the places of interest
        for S, i in ((L.head, L.ghost["i"]), (L.head, L.ghost["i"] - 1)):
            S.assume(z3.Or(m.pick(i), z3.Not(m.pick(i))))
        if not self.level:
            for nm, f, j in (("x", xs, 2), ("t", ts, 0)):
                out.append((f"len-{nm}", lambda S, g, f=f: f(S).n == g["i"]))
                out.append((f"entries-{nm}", lambda S, g, f=f, j=j: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < g["i"]), f(S).elem(q).real() == el(q, j)))))
            return out
        front = lambda g: el(g["i"] - 1, 0)
        some = lambda g: g["i"] > 0
        ca = lambda g: m.ca(g["i"])
        cb = lambda g: g["i"] - m.ca(g["i"])
        out.append(("lengths", lambda S, g: z3.And(xs(S).n == n(S), (n(S) > 0) == some(g))))
        out.append(("sorted", lambda S, g: sorted_(T(S), n(S))))
        out.append(("first", lambda S, g: z3.Implies(some(g), T(S)(z3.IntVal(0)) == el(z3.IntVal(0), 0))))
        out.append(("up-to-here", lambda S, g: z3.Implies(some(g), z3.And(T(S)(n(S) - 1) == front(g), z3.Implies(ca(g) > 0, T0(ca(g) - 1) <= front(g)), z3.Implies(cb(g) > 0, T1(cb(g) - 1) <= front(g))))))
        out.append(("rest-later", lambda S, g: z3.Implies(some(g), z3.And(z3.Implies(ca(g) < N0, front(g) <= T0(ca(g))), z3.Implies(cb(g) < N1, front(g) <= T1(cb(g)))))))
        for l in L.mod_objs:
            if isinstance(L.head.objs[l], PyList) and len(L.head.objs[l].items) == 2:
                out.append((f"current({l})", lambda S, g, l=l: z3.And(S.objs[l].items[0].real() == self.level_a(ca(g)), S.objs[l].items[1].real() == self.level_b(cb(g)))))
        out.append(("last", lambda S, g: z3.Implies(some(g), X(S)(n(S) - 1) == self.E(ca(g), cb(g)))))
        out.append(("value-at-Q", lambda S, g: z3.Implies(z3.And(some(g), Q < front(g)), held(X(S), T(S), n(S), Q, self.E(self.KA, self.KB)))))
        return out


class Merge(Two):
    off = OFF

    def __init__(self, s, level):
        self.level = level
        self.qual = "Monitor.merge/" + ("level,2" if level else "values,2")
        super().__init__(s)

    mark = staticmethod(lambda x: x)
    comb = staticmethod(lambda x, y: x + y)

    def give(self, eng, st, env):
        l = eng.loc()
        st.objs[l] = {"name": env.pop("name")}
        env["monitors"], env["kwargs"] = VTuple([self.other]), VDictL(l)


class XMap2(Two):
    off = OFFANY
    qual = "Monitor.x_map/level,2"
    mark = staticmethod(lambda x: z3.If(x == OFF, OFFANY, x))
    comb = staticmethod(lambda x, y: F2(x, y))

    def give(self, eng, st, env):
        env["func"] = VUserFn("func", lambda e, s, a: VNum(F2(R(a[0]), R(a[1]))))
        env["monitors"] = eng.new_list(st, PyList([self.other]))


def make(p):
    s = MonSession(p)
    s.add(SOAddNow, TallyLevel, MonitorAsk, GetLevel, GetNow, GetMethod, XWeightUse)
    L = []
    L += [MonitorSwitch(s, v) for v in (True, False)]
    L += [ResetLevel(s, v) for v in (None, True, False)] + [ResetLevel(s, v, False, w) for v in (None, True, False) for w in (False, True)]
    L += [ValueProp(s, "Monitor.t", TTALLY)]
    kinds = [(True, False), (False, False), (False, True)]
    for level, w in kinds:
        for ex0 in (False, True):
            L += [XWeight(s, level, w, ex0), Mean(s, level, w, ex0), Std(s, level, w, ex0), Extreme(s, level, w, ex0, "minimum"), Extreme(s, level, w, ex0, "maximum")]
            L.append(Weight(s, level, w, ex0, "duration" if level else "weight"))
            if not level:
                L.append(Entries(s, level, w, ex0))
                L.append(Bin(s, level, w, "bin_number_of_entries", ex0))
        L.append(XWeight(s, level, w, False, True))
        L.append(Bin(s, level, w, "bin_duration" if level else "bin_weight"))
        for fn, lv in ZERO:
            if lv == level:
                L.append(Zero(s, level, w, False, fn))
    L += [TallyValue(s, w, o) for w in (False, True) for o in (False, True)]
    L += [Multiply(s, w) for w in (False, True)] + [TMultiply(s)] + [XMap(s, True), XMap(s, False), XMap(s, False, True)]
    L += [Slice(s, lv, a, b) for lv in (True, False) for a in (True, False) for b in (True, False)] + [Merge(s, True), Merge(s, False), XMap2(s)]
    for level in (True, False):
        L += [SOTally(s, level)] + [x for v in (None, True, False) for x in (SOMonitor(s, level, v), SOReset(s, level, v))]
        for fn in ("mean", "std", "minimum", "maximum") + (("duration",) if level else ("weight", "number_of_entries")):
            L += [SOStat(s, level, fn, ex0) for ex0 in (False, True)]
    for c in L:
        s.contracts[c.qual] = c
    return s
