"""C14: distributions.  Every contract is about the real constructor together with sample() / mean(); random draws are arbitrary."""
from .mathx import *
from pyvc.engine import Out

TUF = z3.Real("time_unit_factor")


class DistSession(MathSession):
    name = "dist"
    houdini_timeout = 2000
    local_classes = ("_Distribution",)
    fields = {"Environment": {"_time_unit": "real"}, "g": {}}
    assumptions = (
        "random.Random: random() is in [0,1); uniform(a,b) = a+(b-a)*u with u in [0,1]; randint(a,b) is an integer in [a,b]; triangular(a,b,m) is within [a,b]; sample(l,k) picks k different positions; "
        "expovariate, gauss, normalvariate, gammavariate, weibullvariate, betavariate sample the distribution with the parameters given",
        "math.gamma and math.exp are uninterpreted functions; _time_unit_factor as proved in session mathx",
        "distribution objects are the ones created by the constructor (their attributes are only set by the verified code)",
    )

    def draw(self, eng, st, src, fn, args):
        """one call of the random source -> value"""
        d = list(st.notes.get("draws", ()))

        def rec(r, **kw):
            st.notes["draws"] = tuple(d + [dict(src=src, fn=fn, args=args, r=r, **kw)])
            return eng.ok(r, st)

        if fn == "random":
            u = eng.fresh("u", REAL)
            st.assume(z3.And(u >= 0, u < 1))
            return rec(VNum(u), u=u)
        if fn == "uniform":
            a, b = R(args[0]), R(args[1])
            u = eng.fresh("u", REAL)
            st.assume(z3.And(u >= 0, u <= 1))
            return rec(VNum(a + (b - a) * u), u=u)
        if fn == "randint":
            k = eng.fresh("k", INT)
            ea, eb = [x.e if z3.is_int(x.e) else z3.ToInt(x.e) for x in args]
            eng.oblige(st, "no-ValueError(randint: empty range)", ea <= eb)
            st.assume(z3.And(k >= ea, k <= eb))
            return rec(VNum(k))
        if fn == "triangular":
            lo, hi, mode = [R(x) for x in args]
            t = eng.fresh("t", REAL)
            st.assume(z3.And(t >= lo, t <= hi))
            return rec(VNum(t), mode=mode, lo=lo, hi=hi)
        if fn == "sample":
            sq = lst(eng, st, args[0])
            k = args[1].e
            eng.oblige(st, "no-ValueError(sample larger than population)", z3.And(0 <= k, k <= sq.n))
            f = eng.fresh_fn("pick", INT, INT)
            i, j = z3.Int("pi"), z3.Int("pj")
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(0 <= f(i), f(i) < sq.n)), patterns=[f(i)]))
            st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < k), f(i) != f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
            return rec(eng.new_list(st, SymSeq(k, lambda q: sq.elem(f(q)))), pick=f)
        x = eng.fresh(fn, REAL)
        if fn in ("expovariate", "weibullvariate", "gammavariate", "betavariate"):
            st.assume(x >= 0)
        if fn == "betavariate":
            st.assume(x <= 1)
        return rec(VNum(x))

    def builtin(self, eng, fv, args, kw, st):
        if fv.name.startswith("random."):
            return self.draw(eng, st, "random", fv.name[7:], args)
        if fv.name in ("math.gamma", "math.exp", "math.log"):
            return eng.ok(VNum(z3.Function(fv.name, REAL, REAL)(R(args[0]))), st)
        return super().builtin(eng, fv, args, kw, st)

    def call_opaque(self, eng, fv, args, kw, st):
        n = fv.name if isinstance(fv, VBuiltin) else fv.why
        if n.startswith("opaque:") and isinstance(fv.self_v, VOpaque) and fv.self_v.why == "stream":
            return self.draw(eng, st, "stream", n[7:], args)
        if n in ("_Distribution.sample", "_Distribution.mean"):
            x = eng.fresh("inner_" + n[14:], REAL)
            if n.endswith("mean"):
                x = z3.Real("inner_mean")
            else:
                st.notes["inner"] = tuple(list(st.notes.get("inner", ())) + [x])
            return eng.ok(VNum(x), st)
        return None


class FactorC(Contract):
    qual = "_time_unit_factor"
    verify = False
    trusted = "proved in session mathx; any positive factor"
    props = ("C14",)

    def result(self, eng, S0, S1, a):
        if isinstance(a["time_unit"], VNone):
            return VNum(1)
        S1.assume(TUF > 0)
        return VNum(TUF)


class CheckStream(Contract):
    qual = "_checkrandomstream"
    verify = False
    trusted = "only raises when the random stream is of a wrong type"
    props = ("C14",)


def stream(eng, st):
    v = VOpaque("stream")
    v.notnone = True
    return v


def inner(eng, st):
    l = eng.loc()
    st.objs[l] = {}
    return VLocal(l, "_Distribution")


class D(Contract):
    """base: harness 'x = Cls(args); return (x.sample(), x.mean())'"""

    props = ("C14",)
    cls = None
    args = {}
    tu = True
    call = None
    src = True
    multi = False

    def __init__(self, s, variant):
        # variant: (time unit given, own stream)
        tu, own = variant
        self.has_tu, self.own = tu, own
        nm = (f"{self.cls}{self.tag}: constructor, sample, mean" + (" [time_unit]" if tu else "") + (" [randomstream]" if own else ""))
        self.qual = nm
        self.params = dict(self.args)
        call = [f"{k}={k}" for k in self.args]
        if tu:
            self.params["time_unit"] = ("const", "minutes")
            call.append("time_unit=time_unit")
        if own:
            self.params["randomstream"] = stream
            call.append("randomstream=randomstream")
        self.source = f"def h({', '.join(self.params)}):\n    x = {self.cls}({', '.join(call)})\n    return {self.ret}\n"
        super().__init__(s)

    tag = ""
    ret = "(x.sample(), x.mean())"

    @property
    def f(self):
        return TUF if self.has_tu else z3.RealVal(1)

    def draws(self, S):
        return S.notes.get("draws", ())

    def source_ok(self, S):
        return [("random numbers come from the stream of the distribution", z3.BoolVal(all(d["src"] == ("stream" if self.own else "random") for d in self.draws(S))))]

    def ensures(self, eng, S0, S1, a, r):
        x, m = r.items
        if isinstance(x, VNone):
            return [("sample returns a value", z3.BoolVal(False))]
        return self.source_ok(S1) + self.post(eng, S1, a, x, m)

    def bounds(self, x, lo, hi):
        return [("lower bound", R(x) >= lo), ("upper bound", R(x) <= hi)]


class UniformC(D):
    cls = "Uniform"
    args = dict(lowerbound="real", upperbound="real")

    def ub(self, a):
        return R(a["upperbound"]) if "upperbound" in a else R(a["lowerbound"])

    def raises(self, eng, S, a):
        return [("ValueError", R(a["lowerbound"]) > self.ub(a))]

    def post(self, eng, S, a, x, m):
        lo, hi, f = R(a["lowerbound"]), self.ub(a), self.f
        ds = self.draws(S)
        out = self.bounds(x, lo * f, hi * f) + [("mean", R(m) == (lo + hi) / 2 * f)]
        if len(ds) == 1 and "u" in ds[0]:
            u = ds[0]["u"]
            out.append(("inverse of the distribution function", z3.Or(R(x) == (lo + (hi - lo) * u) * f, R(x) == (hi - (hi - lo) * u) * f)))
        return out


class Uniform1(UniformC):
    tag = " (one value)"
    args = dict(lowerbound="real")


class IntUniformC(UniformC):
    cls = "IntUniform"

    def raises(self, eng, S, a):
        lo, hi = R(a["lowerbound"]), self.ub(a)
        isint = lambda e: e == z3.ToReal(z3.ToInt(e))
        return [("ValueError", lo > hi), ("TypeError", z3.And(lo <= hi, z3.Or(z3.Not(isint(lo)), z3.Not(isint(hi)))))]

    def post(self, eng, S, a, x, m):
        lo, hi, f = R(a["lowerbound"]), self.ub(a), self.f
        k = eng.fresh("k", INT)
        ds = self.draws(S)
        out = self.bounds(x, lo * f, hi * f) + [("mean", R(m) == (lo + hi) / 2 * f)]
        if len(ds) == 1 and ds[0]["fn"] == "randint":
            out.append(("an integer of the range", R(x) == R(ds[0]["r"]) * f))
        return out


class TriangularC(D):
    cls = "Triangular"
    args = dict(low="real", high="real", mode="real")

    def vals(self, a):
        lo = R(a["low"])
        hi = R(a["high"]) if "high" in a else lo
        mo = R(a["mode"]) if "mode" in a else (lo + hi) / 2
        return lo, hi, mo

    def raises(self, eng, S, a):
        lo, hi, mo = self.vals(a)
        return [("ValueError", z3.Or(lo > hi, lo > mo, mo > hi))]

    def post(self, eng, S, a, x, m):
        lo, hi, mo = self.vals(a)
        f = self.f
        out = self.bounds(x, lo * f, hi * f) + [("mean", R(m) == (lo + hi + mo) / 3 * f)]
        for d in self.draws(S):
            if d["fn"] == "triangular":
                out.append(("parameters", z3.And(d["lo"] == lo, d["hi"] == hi, d["mode"] == mo)))
        return out


class Triangular2(TriangularC):
    tag = " (low, high)"
    args = dict(low="real", high="real")


class ConstantC(D):
    cls = "Constant"
    args = dict(value="real")

    def post(self, eng, S, a, x, m):
        return [("value", R(x) == R(a["value"]) * self.f), ("mean", R(m) == R(a["value"]) * self.f)]


class Param(D):
    """sample = named variate of the random source with the right parameters, times the time unit"""

    fn = None
    own_check = True

    def post(self, eng, S, a, x, m):
        ds = self.draws(S)
        if len(ds) != 1 or ds[0]["fn"] not in self.fn:
            raise Unsupported("sampled in another way")
        want = self.par(a)
        return [("parameters", z3.And([R(g) == w for g, w in zip(ds[0]["args"], want)])),
                ("sample", R(x) == R(ds[0]["r"]) * self.f), ("mean", R(m) == self.mu(eng, a) * self.f)]


class ExponentialC(Param):
    cls = "Exponential"
    args = dict(mean="real")
    fn = ("expovariate",)

    def raises(self, eng, S, a):
        return [("ValueError", list(a.values())[0].real() <= 0)]

    def par(self, a):
        return [1 / R(a["mean"])]

    def mu(self, eng, a):
        return R(a["mean"])


class ExponentialRate(ExponentialC):
    tag = " (rate)"
    args = dict(rate="real")

    def par(self, a):
        return [R(a["rate"])]

    def mu(self, eng, a):
        return 1 / R(a["rate"])


class NormalC(Param):
    cls = "Normal"
    args = dict(mean="real", standard_deviation="real", use_gauss="bool")
    fn = ("gauss", "normalvariate")

    def sd(self, a):
        return R(a["standard_deviation"])

    def raises(self, eng, S, a):
        return [("ValueError", self.sd(a) < 0)]

    def par(self, a):
        return [R(a["mean"]), self.sd(a)]

    def mu(self, eng, a):
        return R(a["mean"])


class NormalCV(NormalC):
    tag = " (coefficient of variation)"
    args = dict(mean="real", coefficient_of_variation="real")

    def sd(self, a):
        return R(a["mean"]) * R(a["coefficient_of_variation"])

    def raises(self, eng, S, a):
        return [("ValueError", z3.Or(R(a["mean"]) == 0, self.sd(a) < 0))]


class WeibullC(Param):
    cls = "Weibull"
    args = dict(scale="real", shape="real")
    fn = ("weibullvariate",)

    def raises(self, eng, S, a):
        return [("ValueError", R(a["shape"]) <= 0)]

    def par(self, a):
        return [R(a["scale"]), R(a["shape"])]

    def mu(self, eng, a):
        return R(a["scale"]) * z3.Function("math.gamma", REAL, REAL)(1 + 1 / R(a["shape"]))


class GammaC(Param):
    cls = "Gamma"
    args = dict(shape="real", scale="real")
    fn = ("gammavariate",)

    def sc(self, a):
        return R(a["scale"]) if "scale" in a else 1 / R(a["rate"])

    def raises(self, eng, S, a):
        return [("ValueError", z3.Or(R(a["shape"]) <= 0, (R(a["scale"]) if "scale" in a else R(a["rate"])) <= 0))]

    def par(self, a):
        return [R(a["shape"]), self.sc(a)]

    def mu(self, eng, a):
        return R(a["shape"]) * self.sc(a)


class GammaRate(GammaC):
    tag = " (rate)"
    args = dict(shape="real", rate="real")


class ErlangC(GammaC):
    cls = "Erlang"
    args = dict(shape="int", scale="real")


class ErlangRate(ErlangC):
    tag = " (rate)"
    args = dict(shape="int", rate="real")


class BetaC(Param):
    cls = "Beta"
    tu = False
    args = dict(alpha="real", beta="real")
    fn = ("betavariate",)

    def raises(self, eng, S, a):
        return [("ValueError", z3.Or(R(a["alpha"]) <= 0, R(a["beta"]) <= 0))]

    def par(self, a):
        return [R(a["alpha"]), R(a["beta"])]

    def mu(self, eng, a):
        return R(a["alpha"]) / (R(a["alpha"]) + R(a["beta"]))


class BoundedC(D):
    """dis is an arbitrary distribution"""

    cls = "Bounded"
    src = False
    args = dict(dis=inner, lowerbound="real", upperbound="real", number_of_retries="int", include_lowerbound="bool", include_upperbound="bool")

    def lo(self, a):
        return R(a["lowerbound"]) * self.f if "lowerbound" in a else None

    def hi(self, a):
        return R(a["upperbound"]) * self.f if "upperbound" in a else None

    def raises(self, eng, S, a):
        if "lowerbound" in a and "upperbound" in a:
            return [("ValueError", R(a["lowerbound"]) > R(a["upperbound"]))]
        return []

    def post(self, eng, S, a, x, m):
        il = a["include_lowerbound"].b if "include_lowerbound" in a else z3.BoolVal(True)
        iu = a["include_upperbound"].b if "include_upperbound" in a else z3.BoolVal(True)
        ok = []
        if "lowerbound" in a:
            ok.append(z3.If(il, R(x) >= self.lo(a), R(x) > self.lo(a)))
        if "upperbound" in a:
            ok.append(z3.If(iu, R(x) <= self.hi(a), R(x) < self.hi(a)))
        inn = S.notes.get("inner", ())
        fail = R(a["fail_value"]) if "fail_value" in a else (self.lo(a) if "lowerbound" in a else self.hi(a))
        sampled = z3.And(ok + [z3.BoolVal(bool(inn)) if not inn else z3.Or([R(x) == y for y in inn])])
        return [("within bounds, or the fail value", z3.Or(sampled, R(x) == fail)), ("mean unknown", z3.BoolVal(isinstance(m, VOpaque)))]


class BoundedLo(BoundedC):
    tag = " (lowerbound)"
    args = dict(dis=inner, lowerbound="real", include_lowerbound="bool")


class BoundedUp(BoundedC):
    tag = " (upperbound, fail value)"
    args = dict(dis=inner, upperbound="real", fail_value="real", include_upperbound="bool")


class BoundedNone(BoundedC):
    tag = " (no bounds)"
    args = dict(dis=inner)

    def post(self, eng, S, a, x, m):
        inn = S.notes.get("inner", ())
        return [("sample of the distribution", z3.Or([R(x) == y for y in inn] or [z3.BoolVal(False)])), ("mean of the distribution", R(m) == z3.Real("inner_mean"))]


# ------------------------------------------------------------------ empirical distributions
class PSum:
    """F(i) = sum of term(j) for 0 <= j <= i (definition by recursion); instances of the definition are given where they are needed"""

    def __init__(self, name, term):
        self.F = z3.Function(f"sum!{name}", INT, REAL)
        self.term = term

    def at(self, S, i):
        S.assume(self.F(-1) == 0)
        S.assume(z3.Implies(i >= 0, self.F(i) == self.F(i - 1) + self.term(i)))

    def __call__(self, i):
        return self.F(i)


def all_lists(S, L=None):
    """(label, getter, modified) of all lists: local variables and attributes of local objects"""
    out = []
    mod = L.mod_objs if L is not None else ()
    for k, v in S.env.items():
        if isinstance(v, VList):
            out.append((k, lambda T, k=k: T.env[k], v.loc in mod))
        if isinstance(v, VLocal):
            for n, w in S.objs[v.loc].items():
                if isinstance(w, VList):
                    out.append((f"{k}.{n}", lambda T, l=v.loc, n=n: T.objs[l][n], w.loc in mod))
    return out


def mod_nums(S, L):
    out = []
    for k, v in S.env.items():
        if isinstance(v, VNum) and k in L.mod_vars:
            out.append((k, lambda T, k=k: T.env[k]))
        if isinstance(v, VLocal) and v.loc in L.mod_objs:
            for n, w in S.objs[v.loc].items():
                if isinstance(w, VNum) and n in getattr(L.objkinds[v.loc], "changed", ()):
                    out.append((f"{k}.{n}", lambda T, l=v.loc, n=n: T.objs[l][n]))
    return out


class Emp(D):
    """empirical distributions: x values X(i), weights p(i) or cumulatives C(i), i < n"""

    ret = "(x.sample(), x.mean())"

    def make_args(self, eng, st):
        env = super().make_args(eng, st)
        self.setup(eng, st, env)
        return env

    def loops(self, L):
        eng = L.eng
        out = []
        i = z3.Int("li")
        alll = all_lists(L.head, L)
        lists = [(a, b) for a, b, m in alll if m]
        if L.it is not None and "i" in L.ghost:
            for q in self.sums:
                q.at(L.head, L.ghost["i"])
                q.at(L.entry, z3.IntVal(0))
        nums = mod_nums(L.head, L)
        sq = lambda S, g: lst(eng, S, g(S))
        # every modified list against the specification
        for ln_, g in lists:
            for dn, d in self.seqdefs(L):
                out.append((f"{ln_}[i]={dn}", lambda S, gh, g=g, d=d: forall(i, z3.Implies(z3.And(0 <= i, i < sq(S, g).n), sq(S, g).elem(i).real() == d(i)))))
            if L.it is not None:
                out.append((f"len({ln_})=i", lambda S, gh, g=g: sq(S, g).n == gh["i"]))
            else:
                for l2, g2 in lists:
                    if l2 > ln_:
                        out.append((f"len({ln_})=len({l2})", lambda S, gh, g=g, g2=g2: sq(S, g).n == sq(S, g2).n))
                    if l2 != ln_:
                        # ln_ is what is left of the flat specification, l2 what has been taken
                        out.append((f"len({ln_})=n-2*len({l2})", lambda S, gh, g=g, g2=g2: sq(S, g).n == self.flat_n - 2 * sq(S, g2).n))
                        out.append((f"{ln_}=rest after {l2}", lambda S, gh, g=g, g2=g2: forall(i, z3.Implies(z3.And(0 <= i, i < sq(S, g).n), sq(S, g).elem(i).real() == self.flat(i + 2 * sq(S, g2).n)))))
        for kn, kf in nums:
            for dn, d in self.numdefs(L):
                if L.it is not None:
                    out.append((f"{kn}={dn}(i)", lambda S, gh, kf=kf, d=d: kf(S).real() == d(gh["i"] - 1)))
            if L.it is None:
                for ln_, g in lists:
                    for dn, d in self.lastdefs(L):
                        last = lambda S, kf=kf, g=g, d=d: z3.And(kf(S).kz() == 0, kf(S).real() == d(sq(S, g).n - 1))
                        out.append((f"{kn}={dn} of {ln_}, or -inf", lambda S, gh, kf=kf, g=g, last=last: z3.If(sq(S, g).n > 0, last(S), kf(S).kz() == -1)))
                        out.append((f"{kn}={dn} of {ln_}, or 0", lambda S, gh, kf=kf, g=g, last=last: z3.If(sq(S, g).n > 0, last(S), z3.And(kf(S).kz() == 0, kf(S).real() == 0))))
        if L.it is not None and not lists and not nums:
            for un in [d["u"] for d in L.head.notes.get("draws", ()) if "u" in d]:
                for ln_, g, m in alll:
                    if ln_.startswith("self.") :
                        out.append((f"not before in {ln_}", lambda S, gh, g=g, un=un: z3.And(
                            forall(i, z3.Implies(z3.And(0 <= i, i < gh["i"], i < sq(S, g).n), un >= sq(S, g).elem(i).real())),
                            z3.Implies(gh["i"] > 0, un >= sq(S, g).elem(gh["i"] - 1).real()))))
        return out

    def lastdefs(self, L):
        return []

    def ground(self, eng, S, J):
        """names the element J of every list of the object, so that quantified facts are instantiated there"""
        v = S.env.get("x")
        if isinstance(v, VLocal):
            for w in S.objs[v.loc].values():
                if isinstance(w, VList) and isinstance(S.objs[w.loc], SymSeq):
                    S.assume(eng.fresh("w", REAL) == S.objs[w.loc].elem(J).real())


def flatspec(eng, st, env):
    """the flat list x0, p0, x1, p1 ..."""
    n = eng.fresh("spec_n", INT)
    st.assume(n >= 0)
    x, p = eng.fresh("spec_x", A1(REAL)), eng.fresh("spec_p", A1(REAL))
    env["spec"] = eng.new_list(st, SymSeq(n, lambda i: VNum(z3.If(i % 2 == 0, x[i / 2], p[i / 2]))))
    return n, x, p


def first_index(u, C, n, J):
    i = z3.Int("fi")
    return z3.And(0 <= J, J < n, u < C(J), forall(i, z3.Implies(z3.And(0 <= i, i < J), u >= C(i))))


class PdfC(Emp):
    cls = "Pdf"
    args = dict(spec=("seqarg", "real"), probabilities=("seqarg", "real"))

    def setup(self, eng, st, env):
        self.eng = eng
        xs, ps = lst(eng, st, env["spec"]), lst(eng, st, env["probabilities"])
        self.n = xs.n
        self.pn = ps.n
        self.X = lambda i: xs.elem(i).real() * self.f
        self.P = lambda i: ps.elem(i).real()
        self.flat = lambda i: z3.RealVal(0)
        self.flat_n = z3.IntVal(-1)
        self.SP = PSum("p", self.P)
        self.SXP = PSum("xp", lambda i: self.X(i) * self.P(i))
        self.sums = [self.SP, self.SXP]

    def requires(self, eng, S, a):
        i = z3.Int("i")
        return [("probabilities", forall(i, z3.Implies(z3.And(0 <= i, i < self.n), self.P(i) >= 0), self.P(i))), ("not empty", self.n > 0)]

    def raises(self, eng, S, a):
        return [("ValueError", z3.Or(self.n != self.pn, self.SP(self.n - 1) == 0))]

    def seqdefs(self, L):
        S_ = [d for d in (self.SP(self.n),)]
        return [("x", self.X), ("sum p", self.SP)]

    def numdefs(self, L):
        return [("sum p", self.SP), ("sum x*p", self.SXP)]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return []

    def post(self, eng, S, a, x, m):
        J = z3.Int("J")
        n = self.n
        tot = self.SP(n - 1)
        self.ground(eng, S, J)
        out = [("mean", R(m) * tot == self.SXP(n - 1))]
        ds = self.draws(S)
        if len(ds) == 1 and ds[0]["fn"] == "random":
            u = ds[0]["u"]
            # the value whose cumulative interval contains the random number
            out.append(("inverse of the cumulative distribution", z3.Implies(first_index(u, lambda i: self.SP(i) / tot, n, J), R(x) == self.X(J))))
            out.append(("index exists", z3.BoolVal(True)))
        elif len(ds) == 1 and ds[0]["fn"] == "sample":
            f = ds[0]["pick"]
            out.append(("equally likely values only with equal probabilities", forall(J, z3.Implies(z3.And(0 <= J, J + 1 < n), self.P(J) == self.P(J + 1)), self.P(J))))
            out.append(("a specified value", R(x) == self.X(f(0))))
        else:
            raise Unsupported("sampled in another way")
        return out


class PmfC(PdfC):
    cls = "Pmf"


class PdfFlat(PdfC):
    tag = " (flat list)"
    args = dict(spec=("seqarg", "real"))

    def setup(self, eng, st, env):
        n, x, p = flatspec(eng, st, env)
        self.n = (n + 1) / 2
        self.pn = n / 2
        self.flat_n = z3.IntVal(-1)
        self.flat = lambda i: z3.RealVal(0)
        self.X = lambda i: x[i] * self.f
        self.P = lambda i: p[i]
        self.SP = PSum("p", self.P)
        self.SXP = PSum("xp", lambda i: self.X(i) * self.P(i))
        self.sums = [self.SP, self.SXP]

    def requires(self, eng, S, a):
        i = z3.Int("i")
        return [("probabilities", forall(i, z3.Implies(z3.And(0 <= i, i < self.pn), self.P(i) >= 0))), ("not empty", self.n > 0)]


class CumPdfC(Emp):
    cls = "CumPdf"
    args = dict(spec=("seqarg", "real"), cumprobabilities=("seqarg", "real"))

    def setup(self, eng, st, env):
        xs, ps = lst(eng, st, env["spec"]), lst(eng, st, env["cumprobabilities"])
        self.n, self.pn = xs.n, ps.n
        self.X = lambda i: xs.elem(i).real() * self.f
        self.C = lambda i: ps.elem(i).real()
        self.flat = lambda i: z3.RealVal(0)
        self.flat_n = z3.IntVal(-1)
        self.P = lambda i: z3.If(i == 0, self.C(z3.IntVal(0)), self.C(i) - self.C(i - 1))
        self.SXP = PSum("xp", lambda i: self.X(i) * self.P(i))
        self.sums = [self.SXP]

    def requires(self, eng, S, a):
        i = z3.Int("i")
        return [("not empty", self.n > 0),
                ("cumulative probabilities", z3.And(self.C(z3.IntVal(0)) >= 0, forall(i, z3.Implies(z3.And(0 <= i, i + 1 < self.pn), self.C(i) <= self.C(i + 1)))))]

    def raises(self, eng, S, a):
        return [("ValueError", z3.Or(self.n != self.pn, self.C(self.n - 1) == 0))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return []

    def seqdefs(self, L):
        return [("x", self.X), ("cum", self.C)]

    def numdefs(self, L):
        return [("last cum", lambda k: z3.If(k < 0, z3.RealVal(0), self.C(k))), ("sum x*p", self.SXP)]

    def post(self, eng, S, a, x, m):
        J = z3.Int("J")
        n = self.n
        tot = self.C(n - 1)
        ds = self.draws(S)
        if len(ds) != 1 or "u" not in ds[0]:
            raise Unsupported("sampled in another way")
        u = ds[0]["u"]
        self.ground(eng, S, J)
        return [("mean", R(m) * tot == self.SXP(n - 1)),
                ("inverse of the cumulative distribution", z3.Implies(first_index(u, lambda i: self.C(i) / tot, n, J), R(x) == self.X(J)))]


class CumPmfC(CumPdfC):
    cls = "CumPmf"


class CdfC(Emp):
    cls = "Cdf"
    args = dict(spec=("seqarg", "real"))

    def setup(self, eng, st, env):
        n, x, c = flatspec(eng, st, env)
        self.flat_n = n
        self.n = n / 2
        self.flat = lambda i: z3.If(i % 2 == 0, x[i / 2], c[i / 2])
        self.X = lambda i: x[i] * self.f
        self.C = lambda i: c[i]
        self.tot = self.C(self.n - 1)
        self.SM = PSum("m", lambda i: (self.X(i) + self.X(i + 1)) / 2 * (self.C(i + 1) / self.tot - self.C(i) / self.tot))
        self.sums = [self.SM]

    def requires(self, eng, S, a):
        i = z3.Int("i")
        return [("pairs", z3.And(self.flat_n >= 2, self.flat_n % 2 == 0)), ("first is 0", self.C(z3.IntVal(0)) == 0), ("total", self.tot != 0),
                ("x sorted", forall(i, z3.Implies(z3.And(0 <= i, i + 1 < self.n), self.X(i) <= self.X(i + 1)))),
                ("cum sorted", forall(i, z3.Implies(z3.And(0 <= i, i + 1 < self.n), self.C(i) <= self.C(i + 1))))]

    def seqdefs(self, L):
        return [("x", self.X), ("cum", self.C)]

    def numdefs(self, L):
        return [("mean", self.SM)]

    def lastdefs(self, L):
        return [("x", self.X), ("cum", self.C)]

    def post(self, eng, S, a, x, m):
        J = z3.Int("J")
        n, tot = self.n, self.tot
        ds = self.draws(S)
        if len(ds) != 1 or "u" not in ds[0]:
            raise Unsupported("sampled in another way")
        u = ds[0]["u"]
        C = lambda i: self.C(i) / tot
        self.ground(eng, S, J)
        self.ground(eng, S, J - 1)
        out = [("mean", R(m) == self.SM(n - 2)),
               ("between adjacent points", z3.Implies(z3.And(first_index(u, C, n, J), J > 0), z3.And(R(x) >= self.X(J - 1), R(x) <= self.X(J))))]
        if self.has_tu:
            return out  # the exact inverse is proved in the variant without a time unit (the product with the time unit factor is out of the solvers' reach)
        return out + [("inverse of the cumulative distribution", z3.Implies(z3.And(first_index(u, C, n, J), J > 0), (R(x) - self.X(J - 1)) * (C(J) - C(J - 1)) == (self.X(J) - self.X(J - 1)) * (u - C(J - 1))))]


class ExprC(Contract):
    """expressions of distributions: sample and mean"""

    props = ("C14",)

    def __init__(self, s, op, kind):
        # kind: dd, dc, cd
        self.op, self.kind = op, kind
        self.qual = f"_Distribution.{op} ({kind}): sample, mean"
        meth = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "truediv": "__truediv__"}[op]
        rm = {"add": "__radd__", "sub": "__rsub__", "mul": "__rmul__", "truediv": "__rtruediv__"}[op]
        self.params = dict(a="real", b="real", c="real", d="real")
        if kind == "dd":
            mk = f"Uniform(a, b).{meth}(Uniform(c, d))"
        elif kind == "dc":
            mk = f"Uniform(a, b).{meth}(c)"
        else:
            mk = f"Uniform(a, b).{rm}(c)"
        self.source = f"def h(a, b, c, d):\n    x = {mk}\n    return (x.sample(), x.mean())\n"
        super().__init__(s)

    def requires(self, eng, S, a):
        return [("bounds", z3.And(R(a["a"]) < R(a["b"]), R(a["c"]) < R(a["d"]), R(a["c"]) > 0, R(a["a"]) > 0))]

    def ensures(self, eng, S0, S1, a, r):
        x, m = r.items
        A, B, C, Dd = (R(a[k]) for k in "abcd")
        ds = [d["r"].real() for d in S1.notes.get("draws", ())]
        o = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "mul": lambda p, q: p * q, "truediv": lambda p, q: p / q}[self.op]
        if self.kind == "dd":
            if len(ds) != 2:
                raise Unsupported("number of draws")
            val, mean = o(ds[0], ds[1]), (o((A + B) / 2, (C + Dd) / 2) if self.op in ("add", "sub") else None)
        elif self.kind == "dc":
            val, mean = o(ds[0], C), o((A + B) / 2, C)
        else:
            val, mean = o(C, ds[0]), (o(C, (A + B) / 2) if self.op != "truediv" else None)
        out = [("sample", R(x) == val)]
        out.append(("mean", R(m) == mean if mean is not None and isinstance(m, VNum) else z3.BoolVal(mean is None and isinstance(m, VOpaque))))
        return out


def make(program):
    s = DistSession(program)
    s.add(HasNumpy, FactorC, CheckStream)
    V4 = [(False, False), (True, False), (False, True), (True, True)]
    for k in (UniformC, Uniform1, IntUniformC, TriangularC, Triangular2, ConstantC, ExponentialC, ExponentialRate, NormalC, NormalCV, WeibullC, GammaC, GammaRate, ErlangC, ErlangRate, BetaC,
              PdfC, PmfC, PdfFlat, CumPdfC, CumPmfC, CdfC):
        for v in ((True, True), (False, False)):
            if v[0] and not k.tu:
                v = (False, v[1])
            c = k(s, v)
            s.contracts[c.qual] = c
    for k in (BoundedC, BoundedLo, BoundedUp, BoundedNone):
        for v in ((False, False), (True, False)):
            c = k(s, v)
            s.contracts[c.qual] = c
    for op in ("add", "sub", "mul", "truediv"):
        for kind in ("dd", "dc", "cd"):
            c = ExprC(s, op, kind)
            s.contracts[c.qual] = c
    return s
