"""C18: component generators"""
from pyvc.session import *
from pyvc.values import *
import z3

i_, j_ = z3.Ints("i j")
SAMPLE = z3.Function("inter_arrival_sample", INT, REAL)
DIST = z3.Function("disturbance_sample", INT, REAL)
MOMENT = z3.Function("moment", INT, REAL)
GHOST = ["g.n", "g.t", "g.k", "g.d", "g.ended", "g.fin", "g.fin_t"]


class GenSession(Session):
    name = "gen"
    process_yields = True
    fields = {"Environment": dict(_now="real", _offset="real", _yieldless="bool"), "g": dict(default_env="env")}
    extra_maps = {"g.n": INT, "g.t": A1(REAL), "g.k": INT, "g.d": INT, "g.ended": INT, "g.fin": BOOL, "g.fin_t": REAL, "g.start": REAL, "g.start_process": INT, "g.started": INT}
    assumptions = (
        "a process that holds becomes current exactly at the requested moment (C01, C02; nobody interrupts, cancels or re-activates the generator); the clock may be reset to another value while it is holding",
        "activate(process=...) of the current component ends the running process and starts the given one at the given moment",
        "creating a component has no influence on the generator; inter arrival times and disturbances are numbers, or callables that return numbers; inter arrival times are not negative",
        "a generator of a distribution of classes (instead of one class) is covered by the bounded oracle only",
    )

    def globals(self, eng, name):
        if name == "issubclass":
            return VUserFn(name, lambda e, st, a: VBool(True))
        return super().globals(eng, name)

    noeffect = {"_frame_to_lineno", "_get_caller_frame"}

    def builtin(self, eng, fv, args, kw, st):
        if fv.name == "sorted" and len(args) == 1 and not kw and isinstance(args[0], VList) and isinstance(st.objs[args[0].loc], SymSeq):
            # the sorted list is a permutation of the list, in non-decreasing order
            sq = st.objs[args[0].loc]
            arr = eng.fresh("sorted", A1(REAL))
            to, fro = eng.fresh("to", A1(INT)), eng.fresh("fro", A1(INT))
            i, j = z3.Ints("i j")
            st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < sq.n), z3.And(0 <= fro[i], fro[i] < sq.n, arr[i] == sq.elem(fro[i]).real(), to[fro[i]] == i)), arr[i]))
            st.assume(forall(i, z3.Implies(z3.And(0 <= i, i < sq.n), z3.And(0 <= to[i], to[i] < sq.n, fro[to[i]] == i)), to[i]))
            st.assume(forall([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < sq.n), arr[i] <= arr[j]), z3.MultiPattern(arr[i], arr[j])))
            st.notes["sorted"] = (sq, arr)
            return eng.ok(eng.new_list(st, SymSeq(sq.n, lambda i: VNum(arr[i]))), st)
        return None


def gen_obj(c):
    """the generator object: attributes as set by the constructor"""

    def f(eng, st):
        l = eng.loc()
        st.objs[l] = {}
        return VLocal(l, "ComponentGenerator")

    return f


def create(eng, st, args, kw):
    """a component is created (now, or to start at the given moment)"""
    t = st["Environment._now"]
    if "at" in kw:
        t = kw["at"].real() + st["Environment._offset"]
    st["g.t"] = z3.Store(st["g.t"], st["g.n"], t)
    st["g.n"] = st["g.n"] + 1
    return VOpaque("component")


def draw(m, F):
    def f(eng, st, args):
        v = F(st[m])
        st[m] = st[m] + 1
        return VNum(v)

    return f


def ended(eng, st, args):
    st["g.ended"] = st["g.ended"] + 1
    return NONE


class HoldG(Contract):
    qual = "Component.hold"
    trusted = "the current component holds: it goes on exactly at the requested moment (C01, C02)"
    modifies = ("Environment._now", "Environment._offset")
    any_args = ("self", "duration", "till")

    def to(self, S, a):
        if not isinstance(a["duration"], VNone):
            return S["Environment._now"] + a["duration"].real()
        return a["till"].real() + S["Environment._offset"]

    def requires(self, eng, S, a):
        v = a["duration"] if not isinstance(a["duration"], VNone) else a["till"]
        return [("finite", v.kz() == 0), ("not-in-the-past", self.to(S, a) >= S["Environment._now"])]

    def ensures(self, eng, S0, S1, a, r):
        return [("on-time", S1["Environment._now"] == self.to(S0, a))]


class ActivateG(Contract):
    qual = "Component.activate"
    any_args = ("self", "process", "at")
    trusted = "activate(process=..., at=...) of the current component ends the running process"
    suspends = True
    modifies = ("g.fin", "g.fin_t")

    def branches(self, eng, pre, a):
        return [dict(kind="suspend")]

    def requires(self, eng, S, a):
        ok = isinstance(a["process"], VStr) and a["process"].const == "do_finalize"
        return [("finalizes", z3.BoolVal(ok)), ("finite", a["at"].kz() == 0), ("not-in-the-past", a["at"].real() + S["Environment._offset"] >= S["Environment._now"])]

    def ensures(self, eng, S0, S1, a, r):
        return [("finalize-planned", z3.And(S1["g.fin"], S1["g.fin_t"] == a["at"].real() + S0["Environment._offset"]))]


class GenC(Contract):
    props = ("C18",)
    suspends = True
    modifies = GHOST + ["Environment._now", "Environment._offset"]

    def __init__(self, s, fn, fixed):
        self.fn, self.fixed = fn, fixed
        self.qual = f"ComponentGenerator.{fn}" + ("/" + ("number" if fixed else "callable") if fixed is not None else "")
        self.name = self.qual
        super().__init__(s)

    params = dict(self=gen_obj(None))

    def make_args(self, eng, st):
        e = super().make_args(eng, st)
        o = st.objs[e["self"].loc]
        nk = eng.fresh("number_k", INT)
        tk = eng.fresh("till_k", INT)
        st.assume(z3.And(nk >= 0, nk <= 1, tk >= 0, tk <= 1))
        c = VUserFn("component_class", create)
        c.kw = True
        e["$number"] = VNum(eng.fresh("number", INT), nk)
        e["$till"] = VNum(eng.fresh("till", REAL), tk)
        e["$iat"] = VNum(eng.fresh("iat", REAL))
        e["$dis"] = VNum(eng.fresh("disturbance", REAL))
        n = eng.fresh("intervals_n", INT)
        e["$n"] = VNum(n)
        arr = eng.fresh("intervals", A1(REAL))
        e["$intervals"] = SymSeq(n, lambda i: VNum(arr[i]))
        e["$force_at"] = VBool(eng.fresh("force_at", BOOL))
        o.update(env=VEnv(), component_class=c, kwargs=VOpaque("kwargs"), at_end=VUserFn("at_end", ended), number=e["$number"], till=e["$till"], force_at=e["$force_at"],
                 intervals=eng.new_list(st, e["$intervals"]), iat=e["$iat"] if self.fixed else VUserFn("iat", draw("g.k", SAMPLE)), disturbance=e["$dis"] if self.fixed else VUserFn("disturbance", draw("g.d", DIST)))
        return e

    def iat(self, S, a, i):
        return a["$iat"].e if self.fixed else SAMPLE(S["g.k"] + i)

    def dis(self, S, a, i):
        return a["$dis"].e if self.fixed else DIST(S["g.d"] + i)

    def requires(self, eng, S, a):
        nb, till = a["$number"], a["$till"]
        return [("number", z3.Implies(nb.k == 0, nb.e >= 1)), ("till", z3.Implies(till.k == 0, till.e >= S["Environment._now"])), ("iat", z3.And(a["$iat"].e >= 0, forall(i_, SAMPLE(i_) >= 0, SAMPLE(i_)))),
                ("counters", z3.And(S["g.n"] >= 0)), ("not-finalized", z3.Not(S["g.fin"]))]

    def lt(self, x, v):
        """x <= v (v may be infinite)"""
        return z3.Or(v.k == 1, x <= v.e)

    def count(self, S0, S1):
        return S1["g.n"] - S0["g.n"]

    def kept(self, S0, S1):
        return forall(i_, z3.Implies(z3.And(i_ >= 0, i_ < S0["g.n"]), S1["g.t"][i_] == S0["g.t"][i_]), S1["g.t"][i_])


class Iat(GenC):
    def times(self, S0, S1, a):
        n0 = S0["g.n"]
        return [("first", z3.Implies(S1["g.n"] > n0, S1["g.t"][n0] == S0["Environment._now"])),
                ("then-after-each-inter-arrival-time", forall(i_, z3.Implies(z3.And(i_ > n0, i_ < S1["g.n"]), S1["g.t"][i_] == S1["g.t"][i_ - 1] + self.iat(S0, a, i_ - n0 - 1)), S1["g.t"][i_])),
                ("never-after-the-end", forall(i_, z3.Implies(z3.And(i_ >= n0, i_ < S1["g.n"]), self.lt(S1["g.t"][i_], a["$till"])), S1["g.t"][i_])),
                ("earlier-ones-kept", self.kept(S0, S1))]

    def ensures(self, eng, S0, S1, a, r):
        nb, till = a["$number"], a["$till"]
        c = self.count(S0, S1)
        fin = S1["g.fin"]
        return self.times(S0, S1, a) + [
            ("at-least-one", c >= 1),
            ("never-more-than-number", z3.Implies(nb.k == 0, c <= nb.e)),
            ("ends-at-the-number-or-at-till", z3.If(fin, z3.And(till.k == 0, S1["g.fin_t"] == till.e, z3.Or(nb.k == 1, c < nb.e), S1["g.t"][S1["g.n"] - 1] + self.iat(S0, a, c - 1) > till.e), z3.And(nb.k == 0, c == nb.e))),
            ("end-action-exactly-once", S1["g.ended"] == S0["g.ended"] + z3.If(fin, z3.IntVal(0), z3.IntVal(1))),
        ]

    def due(self, S0, S, a):
        """the moment of the next creation"""
        c = S["g.n"] - S0["g.n"]
        return z3.If(c == 0, S["Environment._now"] == S0["Environment._now"], S["Environment._now"] == S["g.t"][S["g.n"] - 1] + self.iat(S0, a, c - 1))

    def loops(self, L):
        P, a = L.pre, L.args
        nb = a["$number"]
        out = [("n>=", lambda S, g: S["g.n"] >= P["g.n"]), ("due", lambda S, g: self.due(P, S, a)), ("now<=till", lambda S, g: self.lt(S["Environment._now"], a["$till"])),
               ("below-number", lambda S, g: z3.Implies(nb.k == 0, S["g.n"] - P["g.n"] < nb.e)), ("ended", lambda S, g: S["g.ended"] == P["g.ended"]), ("fin", lambda S, g: z3.Not(S["g.fin"])),
               ("fin", lambda S, g: S["g.fin"] == P["g.fin"]),
               ("drawn", lambda S, g: S["g.k"] == P["g.k"] + (S["g.n"] - P["g.n"] if not self.fixed else 0)),
               ("drawn2", lambda S, g: S["g.d"] == P["g.d"] + (S["g.n"] - P["g.n"] if not self.fixed else 0))]
        for nm, _ in self.times(P, P, a):
            out.append((nm, lambda S, g, nm=nm: dict(self.times(P, S, a))[nm]))
        for k in L.mod_vars:
            if isinstance(L.head.env[k], VNum):
                out.append((f"{k}=created", lambda S, g, k=k: S.env[k].real() == z3.ToReal(S["g.n"] - P["g.n"])))
                out.append((f"{k}>=0", lambda S, g, k=k: S.env[k].e >= 0))
                if nb is not None:
                    out.append((f"{k}+created=number", lambda S, g, k=k: z3.Implies(nb.k == 0, S.env[k].e == nb.e - (S["g.n"] - P["g.n"]))))
        return out


class IatDisturbance(Iat):
    """one inter arrival time after another; each component starts with a disturbance from its regular moment"""

    def requires(self, eng, S, a):
        x = DIST(i_)
        return super().requires(eng, S, a)

    def base(self, S0, a, k):
        """regular moment k, given by recurrence (ghost function)"""
        return BASE(k)

    def times(self, S0, S1, a):
        n0 = S0["g.n"]
        f = a["$force_at"].b
        at = lambda k: BASE(k) + z3.If(f, z3.RealVal(0), self.iat(S0, a, k)) + self.dis(S0, a, k)
        return [("regular-moment-plus-disturbance", forall(i_, z3.Implies(z3.And(i_ >= n0, i_ < S1["g.n"]), S1["g.t"][i_] == at(i_ - n0)), S1["g.t"][i_])),
                ("never-after-the-end", forall(i_, z3.Implies(z3.And(i_ >= n0, i_ < S1["g.n"]), self.lt(S1["g.t"][i_], a["$till"])), S1["g.t"][i_])),
                ("earlier-ones-kept", self.kept(S0, S1))]

    def requires(self, eng, S, a):
        return super().requires(eng, S, a) + [("regular-moments", z3.And(BASE(z3.IntVal(0)) == S["Environment._now"], forall(i_, z3.Implies(i_ >= 1, BASE(i_) == BASE(i_ - 1) + self.iat(S, a, i_ - 1)), BASE(i_))))]

    def due(self, S0, S, a):
        return S["Environment._now"] == BASE(S["g.n"] - S0["g.n"])

    def ensures(self, eng, S0, S1, a, r):
        nb, till = a["$number"], a["$till"]
        c = self.count(S0, S1)
        fin = S1["g.fin"]
        at = BASE(c) + z3.If(a["$force_at"].b, z3.RealVal(0), self.iat(S0, a, c)) + self.dis(S0, a, c)
        return self.times(S0, S1, a) + [
            ("never-more-than-number", z3.Implies(nb.k == 0, c <= nb.e)),
            ("ends-at-the-number-or-at-till", z3.If(fin, z3.And(till.k == 0, S1["g.fin_t"] == z3.If(till.e >= BASE(c), till.e, BASE(c)), z3.Or(nb.k == 1, c < nb.e), at > till.e), z3.And(nb.k == 0, c == nb.e))),
            ("end-action-exactly-once", S1["g.ended"] == S0["g.ended"] + z3.If(fin, z3.IntVal(0), z3.IntVal(1))),
        ]

    def loops(self, L):
        return super().loops(L)


BASE = z3.Function("regular_moment", INT, REAL)


class Spread(GenC):
    suspends = False

    def requires(self, eng, S, a):
        sq = a["$intervals"]
        return [("moments", z3.And(sq.n >= 1, sq.elem(z3.IntVal(0)).e == 0, MOMENT(z3.IntVal(0)) == S["Environment._now"])),
                ("intervals", forall(i_, z3.Implies(z3.And(i_ >= 1, i_ < sq.n), z3.And(sq.elem(i_).e == MOMENT(i_) - MOMENT(i_ - 1), sq.elem(i_).e >= 0)), sq.elem(i_).e)), ("counters", S["g.n"] >= 0)]

    def times(self, S0, S1, a):
        return [("exactly-at-the-moments", forall(i_, z3.Implies(z3.And(i_ >= S0["g.n"], i_ < S1["g.n"]), S1["g.t"][i_] == MOMENT(i_ - S0["g.n"])), S1["g.t"][i_])), ("earlier-ones-kept", self.kept(S0, S1))]

    def ensures(self, eng, S0, S1, a, r):
        return self.times(S0, S1, a) + [("all-of-them", self.count(S0, S1) == a["$intervals"].n), ("end-action-exactly-once", S1["g.ended"] == S0["g.ended"] + 1), ("not-finalized", S1["g.fin"] == S0["g.fin"])]

    def loops(self, L):
        P, a = L.pre, L.args
        out = [("ended", lambda S, g: S["g.ended"] == P["g.ended"]), ("fin", lambda S, g: S["g.fin"] == P["g.fin"])]
        for nm, _ in self.times(P, P, a):
            out.append((nm, lambda S, g, nm=nm: dict(self.times(P, S, a))[nm]))
        idx = [lambda S, g: g["i"]] if "i" in L.ghost else []
        for k in L.mod_vars:
            if isinstance(L.head.env[k], VNum):
                idx.append(lambda S, g, k=k: S.env[k].e)
        for x, f in enumerate(idx):
            out.append((f"created{x}", lambda S, g, f=f: S["g.n"] == P["g.n"] + f(S, g)))
            out.append((f"now{x}", lambda S, g, f=f: S["Environment._now"] == MOMENT(z3.If(f(S, g) == 0, z3.IntVal(0), f(S, g) - 1))))
        return out


class Finalize(GenC):
    suspends = False

    def requires(self, eng, S, a):
        return []

    def ensures(self, eng, S0, S1, a, r):
        return [("end-action-exactly-once", S1["g.ended"] == S0["g.ended"] + 1), ("nothing-created", z3.And(S1["g.n"] == S0["g.n"], S1["g.fin"] == S0["g.fin"]))]


class SpecTo(Contract):
    trusted = "numbers are returned as they are (as floats), None as None; texts and datetimes are converted (outside this session)"
    any_args = ("self", "spec")

    def __init__(self, s, nm):
        self.qual = f"Environment.{nm}"
        super().__init__(s)

    def result(self, eng, S0, S1, a):
        v = a["spec"]
        if not isinstance(v, (VNone, VNum)):
            raise Unsupported("specification of time")
        return v


class Init(Contract):
    qual = "Component.__init__"
    trusted = "the component is created and starts the given process at the given moment, or is not started (C02)"
    any_args = ("self", "name", "env", "process", "at", "suppress_trace", "suppress_pause_at_step")
    modifies = ("g.start", "g.start_process", "g.started")

    def ensures(self, eng, S0, S1, a, r):
        at = a["at"]
        out = [("process", S1["g.start_process"] == a["process"].e)]
        if isinstance(at, VNone):
            return out + [("not-started", S1["g.started"] == 0)]
        return out + [("started", z3.And(S1["g.started"] == 1, z3.Implies(at.kz() == 0, S1["g.start"] == at.real() + S0["Environment._offset"]), at.kz() == 0))]

    def requires(self, eng, S, a):
        return [] if isinstance(a["at"], VNone) else [("finite-moment", a["at"].kz() == 0), ("not-in-the-past", a["at"].real() + S["Environment._offset"] >= S["Environment._now"])]


class GenInit(Contract):
    props = ("C18",)
    modifies = ("g.start", "g.start_process", "g.started", "g.k", "g.d")

    def __init__(self, s, at, end, number, iat):
        self.shape = (at, end, number, iat)
        self.qual = "ComponentGenerator.__init__/" + ",".join(x for x in (at, end, "number" if number else "", iat) if x)
        super().__init__(s)

    params = dict(self=gen_obj(None))

    def make_args(self, eng, st):
        e = super().make_args(eng, st)
        at, end, number, iat = self.shape
        y = lambda n, k: self.s.sym(eng, n, k, st)
        c = VUserFn("component_class", create)
        c.kw = True
        e.update(component_class=c, generator_name=VStr(const="generator."), env=VEnv())
        if at:
            e[at] = y(at, "real")
        if end:
            e[end] = y(end, "real")
        if number:
            e["number"] = y("number", "int")
        if iat == "iat":
            e["iat"] = y("iat", "real")
            e["force_at"] = y("force_at", "bool")
        elif iat == "callable":
            e["iat"] = VUserFn("iat", draw("g.k", SAMPLE))
            e["force_at"] = y("force_at", "bool")
        elif iat == "disturbance":
            e["iat"] = y("iat", "real")
            e["force_at"] = y("force_at", "bool")
            e["disturbance"] = VUserFn("disturbance", draw("g.d", DIST))
        elif iat == "equidistant":
            e["equidistant"] = VBool(True)
        return e

    def t0(self, S, a):
        at = self.shape[0]
        if at == "at":
            return a["at"].real() + S["Environment._offset"]
        return S["Environment._now"] + (a["delay"].real() if at else 0)

    def till(self, S, a):
        """end moment, or None (never)"""
        end = self.shape[1]
        if end == "till":
            return a["till"].real() + S["Environment._offset"]
        if end == "duration":
            return self.t0(S, a) + a["duration"].real()
        return None

    def requires(self, eng, S, a):
        out = [("not-in-the-past", self.t0(S, a) >= S["Environment._now"])]
        if self.shape[3] in ("iat", "disturbance"):
            out.append(("iat", a["iat"].real() >= 0))
        if self.shape[3] == "callable":
            out.append(("iat", forall(i_, SAMPLE(i_) >= 0, SAMPLE(i_))))
        return out

    def raises(self, eng, S, a):
        c = []
        if self.shape[1]:
            c.append(self.till(S, a) < self.t0(S, a))
        if self.shape[2]:
            c.append(a["number"].e < 0)
        if self.shape[3] == "equidistant":
            c.append(a["number"].e == 1)
        return [("ValueError", z3.Or(c) if c else z3.BoolVal(False))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return [("not-started", S1["g.started"] == S0["g.started"])]

    def ensures(self, eng, S0, S1, a, r):
        o = S1.objs[a["self"].loc]
        T0, T = self.t0(S0, a), self.till(S0, a)
        kind = self.shape[3]
        num = a["number"].e if self.shape[2] else None
        sn = lambda nm: S1["g.start_process"] == z3.IntVal(strcode(nm))
        yl = S0["Environment._yieldless"]
        eqn = lambda v, t: z3.BoolVal(isinstance(v, VNum)) if not isinstance(v, VNum) else (z3.And(v.kz() == 0, v.real() == t) if t is not None else v.kz() == 1)
        some = z3.BoolVal(True) if num is None else num >= 1
        first = T0
        if kind in ("iat", "callable"):
            x = a["iat"].real() if kind == "iat" else SAMPLE(S0["g.k"])
            first = T0 + z3.If(a["force_at"].b, z3.RealVal(0), x)
        proc = "do_iat_disturbance" if kind == "disturbance" else "do_iat"
        late = z3.BoolVal(False) if T is None or kind == "equidistant" else first > T
        out = [
            ("nothing-to-create", z3.Implies(z3.Not(some), S1["g.started"] == 0)),
            ("starts-at-the-first-moment", z3.Implies(z3.And(some, z3.Not(late)), z3.And(S1["g.started"] == 1, S1["g.start"] == first, z3.If(yl, sn(proc + "_yieldless"), sn(proc))))),
            ("only-the-end-action-if-first-is-too-late", z3.Implies(z3.And(some, late), z3.And(S1["g.started"] == 1, S1["g.start"] == (T if T is not None else 0), z3.If(yl, sn("do_finalize"), sn("do_finalize_yield"))))),
            ("number", z3.And(o["number"].kz() == (0 if num is not None else 1), o["number"].e == num if num is not None else z3.BoolVal(True))),
        ]
        if kind == "equidistant":
            out += [("interval", z3.Implies(some, o["iat"].real() * z3.ToReal(num - 1) == T - T0 if isinstance(o["iat"], VNum) else z3.BoolVal(False))), ("no-end", z3.Implies(some, o["till"].kz() == 1))]
            out += [("forced", z3.Implies(some, eng.truth(o["force_at"], S1)))]
        else:
            out += [("till", eqn(o["till"], T)), ("iat", z3.BoolVal(o["iat"] is a["iat"]) if isinstance(a["iat"], VUserFn) else o["iat"].real() == a["iat"].real()),
                    ("force_at", eng.truth(o["force_at"], S1) == a["force_at"].b)]
        return out


class GenMoments(Contract):
    """created exactly at the given moments"""

    qual = "ComponentGenerator.__init__/moments"
    props = ("C18",)
    modifies = GenInit.modifies
    params = dict(self=gen_obj(None), moments=("seqarg", "real", 1))

    def make_args(self, eng, st):
        e = super().make_args(eng, st)
        c = VUserFn("component_class", create)
        c.kw = True
        e.update(component_class=c, generator_name=VStr(const="generator."), env=VEnv())
        e["$moments"] = st.objs[e["moments"].loc]
        return e

    def requires(self, eng, S, a):
        m = a["$moments"]
        return [("not-in-the-past", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < m.n), m.elem(i_).real() + S["Environment._offset"] >= S["Environment._now"]), m.elem(i_).real()))]

    def ensures(self, eng, S0, S1, a, r):
        o = S1.objs[a["self"].loc]
        m, off = a["$moments"], S0["Environment._offset"]
        sn = lambda nm: S1["g.start_process"] == z3.IntVal(strcode(nm))
        if "sorted" not in S1.notes or "intervals" not in o:
            return [("moments-in-order", z3.BoolVal(False))]
        sq, arr = S1.notes["sorted"]
        iv = S1.objs[o["intervals"].loc]
        ok = lambda i: z3.And(0 <= i, i < m.n)
        return [("all-moments-in-order", z3.And(sq.n == m.n, forall(i_, z3.Implies(ok(i_), sq.elem(i_).real() == m.elem(i_).real() + off)))),
                ("starts-at-the-first-moment", z3.And(S1["g.started"] == 1, S1["g.start"] == arr[0], z3.If(S0["Environment._yieldless"], sn("do_spread_yieldless"), sn("do_spread")))),
                ("intervals", z3.And(iv.n == m.n, iv.elem(z3.IntVal(0)).real() == 0, forall(i_, z3.Implies(z3.And(ok(i_), i_ >= 1), z3.And(iv.elem(i_).real() == arr[i_] - arr[i_ - 1], iv.elem(i_).real() >= 0)), arr[i_])))]


def make(p):
    s = GenSession(p)
    s.add(HoldG, ActivateG)
    for sfx in ("", "_yieldless"):
        for fixed in (True, False):
            for cls, fn in ((Iat, "do_iat"), (IatDisturbance, "do_iat_disturbance")):
                c = cls(s, fn + sfx, fixed)
                s.contracts[c.qual] = c
        c = Spread(s, "do_spread" + sfx, None)
        s.contracts[c.qual] = c
    for nm in ("spec_to_time", "spec_to_duration"):
        c = SpecTo(s, nm)
        s.contracts[c.qual] = c
    s.add(Init, GenMoments)
    for at in ("", "at", "delay"):
        for end in ("", "till", "duration"):
            for number in (False, True):
                for kind in ("iat", "callable", "disturbance", "equidistant"):
                    if kind == "equidistant" and not (end and number):
                        continue
                    c = GenInit(s, at, end, number, kind)
                    s.contracts[c.qual] = c
    for fn in ("do_finalize", "do_finalize_yield"):
        c = Finalize(s, fn, None)
        s.contracts[c.qual] = c
    return s
