"""C20: trajectories.  The movement is used by its contract (proved in session move): position 0 at time 0, the length at its duration, in between within."""
from .mathx import *
from .dist import PSum, all_lists, mod_nums
from pyvc.engine import Out

T_MOVE = z3.Real("movement.t")
L_MOVE = z3.Real("movement.length")
POS = z3.Function("movement.l_at_t", REAL, REAL)
SQRT = z3.Function("sqrt", REAL, REAL)
NOW = z3.Real("now")
TRX = {m: z3.Function("part." + m, INT, REAL, REAL) for m in ("x", "y", "angle", "length")}


def part(m):
    return ("fn", lambda eng, st, owner: VBuiltin("part." + m, owner))


class TrajSession(MathSession):
    name = "traj"
    local_classes = ("_Trajectory",)
    fields = {"Environment": {}, "g": {"default_env": "env"},
              "_Trajectory": dict(_duration="real", _length="real", _t0="real", x=part("x"), y=part("y"), angle=part("angle"), length=part("length"))}
    assumptions = (
        "_Movement by its contract (proved in session move for feasible movements over a positive length)",
        "trigonometric functions are uninterpreted; math.sqrt is the non-negative root; functools.lru_cache returns what the function returns",
        "a part of a merged trajectory is any object whose position depends on the time since its start only (proved here for polygon, circle, standstill and merged trajectories)",
    )

    def construct(self, eng, name, args, kw, st):
        if name != "_Movement":
            return None
        c, m = eng.p.find("_Movement", "__init__")
        env = eng.bind_args(m, [NONE] + list(args), kw, st)
        L = R(env["length"])
        eng.oblige(st, "movement length >= 0", L >= 0)
        for k in ("vmax", "v0", "v1", "acc", "dec"):
            exp = eng.cargs.get(k, NONE)
            same = (isinstance(env[k], VNone) and isinstance(exp, VNone)) or (isinstance(env[k], VNum) and isinstance(exp, VNum) and env[k].e.eq(exp.e))
            eng.oblige(st, f"movement gets the given {k}", z3.BoolVal(same))
        l = eng.loc()
        st.assume(z3.And(T_MOVE >= 0, L_MOVE == L, z3.Implies(L == 0, T_MOVE == 0), z3.Implies(L > 0, T_MOVE > 0)))
        st.objs[l] = {"t": VNum(T_MOVE)}
        return eng.ok(VLocal(l, "_Movement"), st)

    def builtin(self, eng, fv, args, kw, st):
        n = fv.name
        if n.startswith("part."):
            t, t0 = kw.get("t", args[0] if args else NONE), kw.get("_t0", NONE)
            o = fv.self_v
            d = st["_Trajectory._duration"][o] if isinstance(t, VNone) else (R(t) - (R(t0) if not isinstance(t0, VNone) else st["_Trajectory._t0"][o]))
            return eng.ok(VNum(TRX[n[5:]](o, d)), st)
        if n in ("math.radians", "math.degrees", "math.cos", "math.sin", "math.tan"):
            return eng.ok(VNum(z3.Function(n, REAL, REAL)(R(args[0]))), st)
        if n == "math.atan2":
            return eng.ok(VNum(z3.Function(n, REAL, REAL, REAL)(R(args[0]), R(args[1]))), st)
        if n in ("math.sqrt", "math.hypot"):
            a = R(args[0]) if n == "math.sqrt" else R(args[0]) * R(args[0]) + R(args[1]) * R(args[1])
            eng.oblige(st, "sqrt argument >= 0", a >= 0)
            r = SQRT(a)
            st.assume(z3.And(r >= 0, r * r == a))
            return eng.ok(VNum(r), st)
        return super().builtin(eng, fv, args, kw, st)

    def SUM(self, eng, seq, st):
        i = z3.Int("sumi")
        e = seq.elem(i).real()
        for q in getattr(self, "cur_sums", ()):
            if z3.is_true(z3.simplify(e == q.term(i))):
                return q(seq.n - 1)
        raise Unsupported("sum")


class Pos(Contract):
    qual = "_Movement.l_at_t"
    verify = False
    trusted = "proved in session move"
    props = ("C20",)

    def result(self, eng, S0, S1, a):
        t = R(a["t"])
        p = POS(t)
        S1.assume(z3.And(z3.Implies(t <= 0, p == 0), z3.Implies(t >= T_MOVE, p == L_MOVE), 0 <= p, p <= L_MOVE))
        return VNum(p)


class Now(Contract):
    qual = "Environment.now"
    verify = False
    trusted = "reads the clock"
    props = ("C20",)

    def result(self, eng, S0, S1, a):
        return VNum(NOW)


class TrajC(Contract):
    props = ("C20",)
    extra = {}

    def __init__(self, s, t0given, kind, tag=""):
        self.t0given, self.kind = t0given, kind
        self.qual = f"{self.cls}{tag}: {kind}" + (" [t0]" if t0given else "")
        self.params = dict(self.args, env="env")
        if t0given:
            self.params["t0"] = "real"
        self.params.update(self.extra)
        call = ", ".join(f"{k}={k}" for k in self.params)
        ret = self.rets[kind]
        if kind.startswith("any moment"):
            self.params["t"] = "real"
        if kind.startswith("as part"):
            self.params.update(t="real", s0="real")
        self.source = f"def h({', '.join(self.params)}):\n    p = {self.cls}({call})\n    return {ret}\n"
        super().__init__(s)

    rets = {"start": "(p.t0(), p.t1(), p.duration(), p.x(p.t0()), p.y(p.t0()), p.length(p.t0()))",
            "end": "(p.t0(), p.t1(), p.duration(), p.x(p.t1()), p.y(p.t1()), p.length(p.t1()))",
            "any moment": "(p.t0(), p.t1(), p.duration(), p.x(t), p.length(t))",
            "any moment (y)": "(p.t0(), p.t1(), p.duration(), p.y(t), p.length(t))",
            "total": "(p.t0(), p.t1(), p.duration(), p.length())",
            "as part": "(p.t0(), p.x(t, _t0=s0), p.x(t - s0 + p.t0()))",
            "as part (y)": "(p.t0(), p.y(t, _t0=s0), p.y(t - s0 + p.t0()))",
            "as part (length)": "(p.t0(), p.length(t, _t0=s0), p.length(t - s0 + p.t0()))"}

    def start(self, a):
        return R(a["t0"]) if self.t0given else NOW

    def ensures(self, eng, S0, S1, a, r):
        it = r.items
        if self.kind.startswith("as part"):
            return [("depends on the time since the start only", R(it[1]) == R(it[2]))]
        t0, t1, d = (R(x) for x in it[:3])
        out = [("t0", t0 == self.start(a)), ("t1", t1 == t0 + self.dur(eng, S0, a)), ("duration", d == self.dur(eng, S0, a))]
        return out + self.post(eng, S0, S1, a, [R(x) for x in it[3:]])

    def dur(self, eng, S, a):
        return T_MOVE


class StillC(TrajC):
    cls = "TrajectoryStandstill"
    args = dict(xy=lambda eng, st: VTuple([VNum(z3.Real("x0")), VNum(z3.Real("y0"))]), duration="real")

    def dur(self, eng, S, a):
        return R(a["duration"])

    def requires(self, eng, S, a):
        return [("duration", R(a["duration"]) >= 0)]

    def post(self, eng, S0, S1, a, v):
        x, y = z3.Real("x0"), z3.Real("y0")
        if self.kind == "total":
            return [("length", v[0] == 0)]
        if self.kind == "any moment":
            return [("x", v[0] == x), ("length", v[1] == 0)]
        return [("x", v[0] == x), ("y", v[1] == y), ("length", v[2] == 0)]


class CircleC(TrajC):
    cls = "TrajectoryCircle"
    args = dict(radius="real", x_center="real", y_center="real", angle0="real", angle1="real")

    def requires(self, eng, S, a):
        rad = z3.Function("math.radians", REAL, REAL)
        d = rad(R(a["angle1"]) - R(a["angle0"]))
        return [("radius", R(a["radius"]) > 0), ("radians", z3.And((d == 0) == (R(a["angle1"]) == R(a["angle0"]))))]

    def post(self, eng, S0, S1, a, v):
        rad = z3.Function("math.radians", REAL, REAL)
        cos, sin = z3.Function("math.cos", REAL, REAL), z3.Function("math.sin", REAL, REAL)
        d = rad(R(a["angle1"]) - R(a["angle0"]))
        L = z3.If(d >= 0, d, -d) * R(a["radius"])
        X = lambda ang: R(a["x_center"]) + R(a["radius"]) * cos(rad(ang))
        Y = lambda ang: R(a["y_center"]) + R(a["radius"]) * sin(rad(ang))
        if self.kind == "total":
            return [("length", v[0] == L)]
        if self.kind == "start":
            return [("x", v[0] == X(R(a["angle0"]))), ("y", v[1] == Y(R(a["angle0"]))), ("length", v[2] == 0)]
        return [("x", v[0] == X(R(a["angle1"]))), ("y", v[1] == Y(R(a["angle1"]))), ("length", v[2] == L)]


class PolyC(TrajC):
    cls = "TrajectoryPolygon"
    args = dict(polygon="none")

    def make_args(self, eng, st):
        self.params = dict(self.params, polygon=self.poly)
        return super().make_args(eng, st)

    def poly(self, eng, st):
        self.eng = eng
        n = self.n = eng.fresh("points", INT)
        x, y = eng.fresh("px", A1(REAL)), eng.fresh("py", A1(REAL))
        st.assume(n >= 2)
        self.X, self.Y = (lambda i: x[i]), (lambda i: y[i])
        self.seg2 = lambda i: (x[i + 1] - x[i]) * (x[i + 1] - x[i]) + (y[i + 1] - y[i]) * (y[i + 1] - y[i])
        self.SL = PSum("seg", lambda i: SQRT(self.seg2(i)))
        # C(k) = length up to point k
        self.C = lambda k: self.SL(k - 1)
        return eng.new_list(st, SymSeq(2 * n, lambda i: VNum(z3.If(i % 2 == 0, x[i / 2], y[i / 2]))))

    def requires(self, eng, S, a):
        i, j = z3.Int("i"), z3.Int("j")
        F = self.SL.F
        # lemma (induction over the definition of the sum of non-negative terms)
        return [("positive length", z3.Or(self.kind != "end", F(self.n - 2) > 0)),
                ("lemma: partial lengths are sorted", z3.And(F(-1) == 0, forall([i, j], z3.Implies(z3.And(-1 <= i, i <= j), F(i) <= F(j)), [z3.MultiPattern(F(i), F(j))])))]

    def loops(self, L):
        eng, out, i = L.eng, [], z3.Int("li")
        if "i" in L.ghost:
            self.SL.at(L.head, L.ghost["i"])
            self.SL.at(L.entry, z3.IntVal(0))
        sq = lambda S, g: lst(eng, S, g(S))
        defs = [("x", self.X), ("y", self.Y), ("length", self.C)]
        for ln_, g, m in all_lists(L.head, L):
            if m:
                out.append((f"len({ln_})=i", lambda S, gh, g=g: sq(S, g).n == gh["i"]))
                for dn, d in defs:
                    out.append((f"{ln_}[i]={dn}", lambda S, gh, g=g, d=d: forall(i, z3.Implies(z3.And(0 <= i, i < sq(S, g).n), sq(S, g).elem(i).real() == d(i)))))
        for kn, kf in mod_nums(L.head, L):
            out.append((f"{kn}=length(i)", lambda S, gh, kf=kf: kf(S).real() == self.C(gh["i"])))
            out.append((f"{kn}=x(i)", lambda S, gh, kf=kf: kf(S).real() == self.X(gh["i"])))
            out.append((f"{kn}=y(i)", lambda S, gh, kf=kf: kf(S).real() == self.Y(gh["i"])))
        return out

    def post(self, eng, S0, S1, a, v):
        n = self.n
        tot = self.C(n - 1)
        if self.kind == "total":
            return [("length", v[0] == tot)]
        if self.kind == "start":
            return [("x", v[0] == self.X(z3.IntVal(0))), ("y", v[1] == self.Y(z3.IntVal(0))), ("length", v[2] == 0)]
        if self.kind == "end":
            return [("x", v[0] == self.X(n - 1)), ("y", v[1] == self.Y(n - 1)), ("length", v[2] == tot)]
        # any moment: on the segment that contains the covered length, at that length
        V = self.X if self.kind == "any moment" else self.Y
        J = z3.Int("J")
        self.SL.at(S1, J)
        l = v[1]
        S1.assume(eng.fresh("w", REAL) == self.C(J))
        return [("length", l == POS(R(a["t"]) - self.start(a))),
                ("on the segment", z3.Implies(z3.And(0 <= J, J + 1 < n, self.C(J) < l, l < self.C(J + 1)), (v[0] - V(J)) * (self.C(J + 1) - self.C(J)) == (V(J + 1) - V(J)) * (l - self.C(J))))]


class MergedC(TrajC):
    cls = "TrajectoryMerged"
    args = dict(trajectories=("seqarg", ("ref", "_Trajectory", False), 1))

    def __init__(self, s, kind):
        super().__init__(s, False, kind)
        self.params.pop("env")
        self.source = f"def h({', '.join(self.params)}):\n    p = {self.cls}(trajectories)\n    return {self.rets[kind]}\n"

    def make_args(self, eng, st):
        env = super().make_args(eng, st)
        sq = lst(eng, st, env["trajectories"])
        self.n = sq.n
        self.ref = lambda i: sq.elem(i).e
        D, Ln = st["_Trajectory._duration"], st["_Trajectory._length"]
        self.SD = PSum("duration", lambda i: D[self.ref(i)])
        self.SLn = PSum("length", lambda i: Ln[self.ref(i)])
        self.s.cur_sums = [self.SD, self.SLn]
        i = z3.Int("i")
        st.assume(forall(i, self.ref(i) > 0, self.ref(i)))
        self.T = lambda k: st["_Trajectory._t0"][self.ref(z3.IntVal(0))] + self.SD(k - 1)
        return env

    def start(self, a):
        return self.T(z3.IntVal(0))

    def dur(self, eng, S, a):
        return self.SD(self.n - 1)

    def requires(self, eng, S, a):
        i, j = z3.Int("i"), z3.Int("j")
        F = self.SD.F
        G = self.SLn.F
        return [("durations and lengths", forall(i, z3.And(S["_Trajectory._duration"][self.ref(i)] >= 0, S["_Trajectory._length"][self.ref(i)] >= 0), self.ref(i))),
                ("takes time", z3.Or(self.kind != "end", F(self.n - 1) > 0)),
                ("lemma: partial sums are sorted", z3.And(F(-1) == 0, G(-1) == 0, forall([i, j], z3.Implies(z3.And(-1 <= i, i <= j), F(i) <= F(j)), [z3.MultiPattern(F(i), F(j))])))]

    def loops(self, L):
        eng, out, i = L.eng, [], z3.Int("li")
        if "i" in L.ghost:
            for q in (self.SD, self.SLn):
                q.at(L.head, L.ghost["i"])
                q.at(L.entry, z3.IntVal(0))
        sq = lambda S, g: lst(eng, S, g(S))
        defs = [("t0", self.T), ("length", lambda k: self.SLn(k - 1))]
        for ln_, g, m in all_lists(L.head, L):
            if m:
                out.append((f"len({ln_})=i", lambda S, gh, g=g: sq(S, g).n == gh["i"]))
                for dn, d in defs:
                    out.append((f"{ln_}[i]={dn}", lambda S, gh, g=g, d=d: forall(i, z3.Implies(z3.And(0 <= i, i < sq(S, g).n), sq(S, g).elem(i).real() == d(i)))))
        for kn, kf in mod_nums(L.head, L):
            for dn, d in defs:
                out.append((f"{kn}={dn}(i)", lambda S, gh, kf=kf, d=d: kf(S).real() == d(gh["i"])))
        return out

    def post(self, eng, S0, S1, a, v):
        n = self.n
        r0, rn = self.ref(z3.IntVal(0)), self.ref(n - 1)
        dn = S0["_Trajectory._duration"][rn]
        self.SD.at(S1, n - 1)
        if self.kind == "start":
            return [(m, v[k] == TRX[m](r0, z3.RealVal(0)) + 0) for k, m in enumerate(("x", "y", "length"))]
        before = self.SLn(n - 2)
        if self.kind == "end":
            return [("x", v[0] == TRX["x"](rn, dn)), ("y", v[1] == TRX["y"](rn, dn)), ("length", v[2] == TRX["length"](rn, dn) + before)]
        if self.kind == "total":
            return [("length", v[0] == TRX["length"](rn, dn) + before)]
        J, t = z3.Int("J"), R(a["t"])
        self.SD.at(S1, J)
        m = "x" if self.kind == "any moment" else "y"
        inside = z3.And(0 <= J, J < n, self.T(J) < t, t < self.T(J + 1))
        return [("position of the part", z3.Implies(inside, v[0] == TRX[m](self.ref(J), t - self.T(J)))),
                ("length of the part on top of the previous parts", z3.Implies(inside, v[1] == TRX["length"](self.ref(J), t - self.T(J)) + self.SLn(J - 1)))]


def make(program):
    s = TrajSession(program)
    s.add(HasNumpy, SearchSorted, Pos, Now)
    s.contracts["searchsorted"].verify = False
    s.contracts["searchsorted"].trusted = "proved in session mathx"
    for t0 in (True, False):
        for k in ("start", "end", "total", "any moment", "as part"):
            c = StillC(s, t0, k)
            s.contracts[c.qual] = c
            if k != "any moment":
                c = CircleC(s, t0, k)
                s.contracts[c.qual] = c
        for k in ("start", "end", "total", "any moment", "any moment (y)", "as part", "as part (y)", "as part (length)"):
            c = PolyC(s, t0, k)
            s.contracts[c.qual] = c
    for k in ("start", "end", "total", "any moment", "any moment (y)", "as part", "as part (y)", "as part (length)"):
        c = MergedC(s, k)
        s.contracts[c.qual] = c
    return s
