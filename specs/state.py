"""C09, C08: states and waiting for states (on top of session res's waiting lines)."""
from .res import *
from . import res as RS

ST_FIELDS = {k: dict(v) for k, v in RES_FIELDS.items()}
ST_FIELDS["State"].update(_value="obj", value=("sub", "_StateMonitor"))
ST_FIELDS["Component"].update(_cond=("ref", "Condition", True), _wait_all="bool")
ST_SUBS = {**RES_SUBS, "State.value": dict(_tally="obj")}
HOLD1 = z3.Function("holds_text", INT, INT, BOOL)  # a condition given as text, for a value of the state
HOLD2 = z3.Function("holds_function", INT, INT, INT, INT, BOOL)  # a condition given as function of (value, component, state)
ISFUN = z3.Function("is_function", INT, BOOL)
DOLLAR = z3.Function("text_contains_dollar", INT, BOOL)
WM = [f"Component._waits#{x}" for x in ("len", "0", "1", "2")]
STM = LEAVE_MAPS + PLANM + [STATUS, "g.order", "g.seq"] + WM + ["g.wi"]
SGHOST = dict(RGHOST)
SGHOST.update({"g.order": A1(INT), "g.seq": INT, "g.hc": INT})


class SSession(RSession):
    name = "state"
    fields = ST_FIELDS
    sub_fields = ST_SUBS
    extra_maps = SGHOST
    merge_paths = True
    obj_texts = True
    assumptions = RSession.assumptions[:4] + (
        "values of states are compared with ==, which is the equality of the values; a text condition is a function of the state's value; a condition function is a pure function of (value, component, state)",
        "wait_for (a condition without states) is not part of this session",
    )

    def __init__(self, p):
        super().__init__(p)
        self.sub_methods[("State.value", "tally")] = self.h_value

    def text_contains(self, v, txt):
        if isinstance(v, VBool):
            return z3.BoolVal(txt in "True" or txt in "False") if txt in ("$",) else None
        return z3.Function("text_contains_" + ("dollar" if txt == "$" else txt), INT, BOOL)(v.e)

    def seq_op(self, eng, st, field, op, **k):
        if field.key == "Component._waits" and op == "append":
            s = k["elem"].items[0].e
            w = st["g.wi"]
            st["g.wi"] = z3.Store(w, field.owner, z3.Store(w[field.owner], s, k["pos"]))

    def h_value(self, eng, sub, args, kw, st):
        eng.write(st, "State.value._tally", "obj", sub.owner, args[0])
        return eng.ok(NONE, st)

    def call_opaque(self, eng, fv, args, kw, st):
        if isinstance(fv, VObj) and len(args) == 3 and isinstance(args[0], VObj) and isinstance(args[1], VRef) and isinstance(args[2], VRef):
            return eng.ok(VBool(HOLD2(fv.e, args[0].e, args[1].e, args[2].e)), st)
        if isinstance(fv, VBuiltin) and fv.name == "opaque:replace" and isinstance(fv.self_v, VObj) and len(args) == 2 and all(isinstance(x, VStr) and x.const is not None for x in args) and args[0].const == "$":
            v = VOpaque("text")
            v.parts = (fv.self_v, args[1].const)
            return eng.ok(v, st)
        return super().call_opaque(eng, fv, args, kw, st)

    def globals(self, eng, name):
        if name == "eval":
            return VBuiltin("eval")
        return super().globals(eng, name)

    def builtin(self, eng, fv, args, kw, st):
        if fv.name == "inspect.isfunction":
            return eng.ok(VBool(ISFUN(args[0].e) if isinstance(args[0], VObj) else z3.BoolVal(False)), st)
        if fv.name == "eval" and isinstance(args[0], VOpaque) and hasattr(args[0], "parts"):
            v, txt = args[0].parts
            var, _, attr = txt.partition(".")
            o = st.env.get(var)
            if attr != "_value" or not isinstance(o, VRef) or o.cls != "State":
                raise Unsupported("eval")
            return eng.ok(VBool(HOLD1(v.e, st["State._value"][o.e])), st)
        return super().builtin(eng, fv, args, kw, st)


def sval(S, s):
    return S["State._value"][s]


def wval(S, c, i):
    return S["Component._waits#1"][c][i]


def wtyp(S, c, i):
    return S["Component._waits#2"][c][i]


def term(S, c, i):
    s, v, t = wstate(S, c, i), wval(S, c, i), wtyp(S, c, i)
    return z3.If(t == 0, v == sval(S, s), z3.If(t == 1, HOLD1(v, sval(S, s)), HOLD2(v, sval(S, s), c, s)))


def cond(S, c):
    w = z3.Int("w")
    inr = lambda i: z3.And(0 <= i, i < waits_n(S, c))
    return z3.If(S["Component._wait_all"][c], z3.ForAll([i_], z3.Implies(inr(i_), term(S, c, i_)), patterns=[wstate(S, c, i_)]), z3.Exists([w], z3.And(inr(w), term(S, c, w))))


COND = z3.Function("condition_of_wait", A1(INT), INT, A1(INT), A1(INT), A1(INT), BOOL, INT, BOOL)


def ocond(S, c):
    """the condition of a wait, as a function of all it may depend on (its definition, cond, is given where a body that evaluates it is verified)"""
    return COND(S["State._value"], waits_n(S, c), *[S[f"Component._waits#{k}"][c] for k in "012"], S["Component._wait_all"][c], c)


def holds(S, c):
    return z3.And(status(S, c) != code("interrupted"), ocond(S, c))


def WT(S):
    return [("wait-types", forall([c_, i_], z3.Implies(z3.And(0 <= i_, i_ < waits_n(S, c_)), z3.And(0 <= wtyp(S, c_, i_), wtyp(S, c_, i_) <= 2)), wtyp(S, c_, i_))), ("no-cond", forall(c_, S["Component._cond"][c_] == 0, S["Component._cond"][c_]))]


def SEQ(S):
    return [("order-below-seq", forall(c_, S["g.order"][c_] < S["g.seq"], S["g.order"][c_]))]


def nodes3(S0, S1):
    live = lambda n: z3.And(own(S0, n) != 0, qkind(own(S0, n)) == 3)
    return [
        ("nodes-kept-or-detached", forall(n_, z3.Implies(live(n_), z3.Or(own(S1, n_) != own(S0, n_), z3.And(prio(S1, n_) == prio(S0, n_), comp(S1, n_) == comp(S0, n_)))),
                                         [own(S1, n_), comp(S1, n_), prio(S1, n_)])),
        ("sentinels-kept", forall(n_, z3.Implies(z3.And(live(n_), z3.Or(pos(S0, n_) == 0, pos(S0, n_) == ln(S0, own(S0, n_)) + 1)), own(S1, n_) == own(S0, n_)), [own(S1, n_)])),
        ("nodes-of-the-kept-kept", forall(n_, z3.Implies(z3.And(live(n_), same(S0, S1, comp(S0, n_))), own(S1, n_) == own(S0, n_)), [own(S1, n_), own(S0, n_)])),
        ("no-new-in-lines", forall(n_, z3.Implies(z3.And(own(S1, n_) != 0, qkind(own(S1, n_)) == 3), own(S0, n_) == own(S1, n_)), [own(S1, n_)])),
        ("order-kept", forall([a_, b_], z3.Implies(z3.And(own(S1, a_) != 0, own(S1, a_) == own(S1, b_), qkind(own(S1, a_)) == 3), (pos(S0, a_) < pos(S0, b_)) == (pos(S1, a_) < pos(S1, b_))),
                              z3.MultiPattern(pos(S1, a_), pos(S1, b_)))),
    ]


def same(S0, S1, c):
    return waits_n(S1, c) == waits_n(S0, c)


def hon(S0, S1, c):
    return z3.And(waits_n(S0, c) > 0, waits_n(S1, c) == 0)


def TS(S0, S1):
    """what honoring waits may do: every component is left as it was, or its condition holds and it is scheduled now and has left all lines"""
    P = lambda c: [waits_n(S1, c), status(S1, c), on(S1, c)]
    out = [
        ("kept-or-honored", forall(c_, z3.Or(same(S0, S1, c_), hon(S0, S1, c_)), P(c_))),
        ("kept-waits", forall(c_, z3.Implies(same(S0, S1, c_), z3.And([S1[f"Component._waits#{k}"][c_] == S0[f"Component._waits#{k}"][c_] for k in "012"])), [S1[f"Component._waits#{k}"][c_] for k in "012"] + [waits_n(S1, c_)])),
        ("kept-plan", forall(c_, z3.Implies(same(S0, S1, c_), z3.And(status(S1, c_) == status(S0, c_), on(S1, c_) == on(S0, c_), S1["Component._scheduled_time"][c_] == S0["Component._scheduled_time"][c_],
                                                                     S1["Component._scheduled_time#k"][c_] == S0["Component._scheduled_time#k"][c_], S1["g.order"][c_] == S0["g.order"][c_])), P(c_) + [S1["g.order"][c_]])),
        ("kept-lines", forall([c_, q_], z3.Implies(same(S0, S1, c_), dom(S1, c_, q_) == dom(S0, c_, q_)), [dom(S1, c_, q_)])),
        ("honored-holds", forall(c_, z3.Implies(hon(S0, S1, c_), holds(S0, c_)), P(c_))),
        ("honored-now", forall(c_, z3.Implies(hon(S0, S1, c_), z3.And(status(S1, c_) == code("scheduled"), on(S1, c_), S1["Component._scheduled_time"][c_] == now(S0), S1["Component._scheduled_time#k"][c_] == 0,
                                                                      S1["g.order"][c_] >= S0["g.seq"])), P(c_))),
        ("honored-left", forall([c_, s_], z3.Implies(z3.And(hon(S0, S1, c_), s_ > 0), z3.Not(dom(S1, c_, waiters(S1, s_)))), [dom(S1, c_, waiters(S1, s_))])),
        ("other-lines-kept", forall([c_, q_], z3.Implies(qkind(q_) != 3, dom(S1, c_, q_) == dom(S0, c_, q_)), [dom(S1, c_, q_)])),
        ("seq-grows", S1["g.seq"] >= S0["g.seq"]),
    ]
    return out + nodes3(S0, S1)


def INV3(S, exc=None):
    return GI(S) + WL(S, exc) + SEQ(S) + WT(S)


class CTryWait(Contract):
    qual = "Component._trywait"
    params = dict(self=("ref", "Component"))
    modifies = STM + ["g.hc"]
    suspends = True
    props = ("C09", "C08")

    def requires(self, eng, S, a):
        return INV3(S) + link(S) + [("waiting", waits_n(S, a["self"].e) > 0)]

    def make_args(self, eng, st):
        env = super().make_args(eng, st)
        c = env["self"].e
        st.assume(ocond(st, c) == cond(st, c))  # the definition
        st.assume(st["Component._cond"][c] == 0)  # an instance of the precondition
        return env

    def suspend_cond(self, S, a):
        return z3.And(S["Environment._yieldless"], a["self"].e == S["Environment._current_component"][1])

    def branches(self, eng, pre, a):
        c = self.suspend_cond(pre, a)
        h = holds(pre, a["self"].e)
        return [dict(cond=z3.Or(z3.Not(c), z3.Not(h))), dict(cond=z3.And(c, h), kind="suspend")]

    def result(self, eng, S0, S1, a):
        return VBool(holds(S0, a["self"].e))

    def ghost(self, eng, pre, s, a):
        s["g.hc"] = pre["g.hc"] + z3.If(holds(pre, a["self"].e), z3.IntVal(1), z3.IntVal(0))

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        h = holds(S0, c)
        out = [] if isinstance(r, VNone) else [("returns-honored", eng.truth(r, S1) == h)]
        out += [
            ("honored-iff-holds", z3.If(h, waits_n(S1, c) == 0, waits_n(S1, c) == waits_n(S0, c))),
            ("nothing-if-not", z3.Implies(z3.Not(h), z3.And([S1[m] == S0[m] for m in STM]))),
            ("nobody-else", forall(c_, z3.Implies(c_ != c, same(S0, S1, c_)), [waits_n(S1, c_)])),
            ("order", z3.Implies(h, z3.And(S1["g.order"][c] == S0["g.seq"], S1["g.seq"] == S0["g.seq"] + 1))),
        ]
        return out + TS(S0, S1) + INV3(S1)

    def loops(self, L):
        E, c = L.entry, L.args["self"].e
        out = []
        if "i" not in L.ghost:
            return []
        if not L.mod_heap:
            out.append(("all-before", lambda S, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), term(L.pre, c, i_)), wstate(L.pre, c, i_))))
            out.append(("none-before", lambda S, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), z3.Not(term(L.pre, c, i_))), wstate(L.pre, c, i_))))
            for k, v in L.head.env.items():
                if isinstance(v, VBool) and k in L.mod_vars:
                    out.append((f"{k}=all", lambda S, g, k=k: S.env[k].b == forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), term(L.pre, c, i_)), wstate(L.pre, c, i_))))
                    out.append((f"{k}=any", lambda S, g, k=k: z3.Not(S.env[k].b) == forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), z3.Not(term(L.pre, c, i_))), wstate(L.pre, c, i_))))
            return out
        for x, _ in GI(E):
            out.append(("GI." + x, lambda S, g, x=x: dict(GI(S))[x]))
        for x, _ in WL(E, exc=c):
            out.append(("WL." + x, lambda S, g, x=x: dict(WL(S, exc=c))[x]))
        for x, _ in nodes3(E, E):
            if x == "nodes-of-the-kept-kept":
                continue
            out.append((x, lambda S, g, x=x: dict(nodes3(E, S))[x]))
        out.append(("others-nodes", lambda S, g: forall(n_, z3.Implies(z3.And(own(E, n_) != 0, comp(E, n_) != c), own(S, n_) == own(E, n_)), [own(S, n_), own(E, n_)])))
        line = lambda i: waiters(E, L.it.seq.elem(i).items[0].e)
        out.append(("other-members", lambda S, g: forall([c_, q_], z3.Implies(c_ != c, dom(S, c_, q_) == dom(E, c_, q_)), dom(S, c_, q_))))
        out.append(("left", lambda S, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), z3.Not(dom(S, c, line(i_)))), line(i_))))
        out.append(("stay", lambda S, g: forall(q_, z3.Implies(qkind(q_) != 3, dom(S, c, q_) == dom(E, c, q_)), [dom(S, c, q_)])))
        out.append(("not-more", lambda S, g: forall(q_, z3.Implies(dom(S, c, q_), dom(E, c, q_)), [dom(S, c, q_)])))
        return out


class SReschedule(PReschedule):
    """... and every plan gets a number; a plan with priority 0 that is not urgent gets a higher one than all earlier plans"""

    modifies = PLANM + ["g.order", "g.seq"]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        last = z3.And(z3.Not(a["urgent"].b), xnum(a["priority"]).kz() == 0, xnum(a["priority"]).real() == 0)
        return super().ensures(eng, S0, S1, a, r) + [
            ("order", z3.And(S1["g.order"] == z3.Store(S0["g.order"], c, S1["g.order"][c]), S1["g.order"][c] <= S0["g.seq"], S1["g.seq"] == S0["g.seq"] + 1)),
            ("order-after-earlier-plans", z3.Implies(last, S1["g.order"][c] == S0["g.seq"])),
        ]


def nocur3(S):
    return [("current-not-waiting", waits_n(S, S["Environment._current_component"][1]) == 0)]


class STryWait(Contract):
    """State._trywait(max)"""

    qual = "State._trywait"
    params = dict(self=("ref", "State"), max="xreal")
    modifies = STM + ["g.hc"]
    props = ("C09", "C08")

    def make_args(self, eng, st):
        e = super().make_args(eng, st)
        return e

    def requires(self, eng, S, a):
        return INV3(S) + link(S) + nocur3(S) + [("no-minus-infinity", xnum(a["max"]).kz() >= 0)]

    def ensures(self, eng, S0, S1, a, r):
        q = waiters(S0, a["self"].e)
        m = xnum(a["max"])
        n = S1["g.hc"] - S0["g.hc"]
        inl = lambda x: z3.And(own(S0, x) == q, pos(S0, x) >= 1, pos(S0, x) <= ln(S0, q))
        H = lambda x: hon(S0, S1, comp(S0, x))
        full = z3.And(m.kz() == 0, z3.ToReal(n) >= m.real())
        return TS(S0, S1) + INV3(S1) + nocur3(S1) + [
            ("only-waiters-of-this-state", forall(c_, z3.Implies(hon(S0, S1, c_), dom(S0, c_, q)), [waits_n(S1, c_)])),
            ("at-most-max", z3.And(n >= 0, z3.Implies(m.kz() == 0, z3.Or(n == 0, z3.ToReal(n - 1) < m.real())))),
            ("none-counted-if-none-holds", z3.Implies(forall(a_, z3.Implies(inl(a_), z3.Not(holds(S0, comp(S0, a_)))), own(S0, a_)), n == 0)),
            ("nobody-left", z3.Or(full, forall(a_, z3.Implies(z3.And(inl(a_), holds(S0, comp(S0, a_))), H(a_)), own(S0, a_)))),
            ("first-in-line-first", forall([a_, b_], z3.Implies(z3.And(inl(a_), inl(b_), pos(S0, a_) < pos(S0, b_), H(b_), holds(S0, comp(S0, a_))), H(a_)), z3.MultiPattern(own(S0, a_), own(S0, b_)))),
            ("in-order-of-the-line", forall([a_, b_], z3.Implies(z3.And(inl(a_), inl(b_), pos(S0, a_) < pos(S0, b_), H(a_), H(b_)), S1["g.order"][comp(S0, a_)] < S1["g.order"][comp(S0, b_)]), z3.MultiPattern(own(S0, a_), own(S0, b_)))),
        ]

    def loops(self, L):
        E = L.pre
        q = waiters(E, L.args["self"].e)
        m = xnum(L.args["max"])
        out = []
        for x, _ in INV3(E) + nocur3(E):
            out.append(("I." + x, lambda S, g, x=x: dict(INV3(S) + nocur3(S))[x]))
        for x, _ in TS(E, E):
            out.append(("TS." + x, lambda S, g, x=x: dict(TS(E, S))[x]))
        inl = lambda x: z3.And(own(E, x) == q, pos(E, x) >= 1, pos(E, x) <= ln(E, q))
        H = lambda S, x: hon(E, S, comp(E, x))
        n = lambda S: S["g.hc"] - E["g.hc"]
        out.append(("only-this", lambda S, g: forall(c_, z3.Implies(hon(E, S, c_), dom(E, c_, q)), [waits_n(S, c_)])))
        for k, v in L.head.env.items():
            if isinstance(v, VNum) and k in L.mod_vars:
                out.append((f"{k}-left", lambda S, g, k=k: z3.And(S.env[k].kz() == m.kz(), z3.Implies(m.kz() == 0, S.env[k].real() == m.real() - z3.ToReal(n(S))), n(S) >= 0, z3.Implies(m.kz() == 0, z3.Or(n(S) == 0, z3.ToReal(n(S) - 1) < m.real())))))
            if isinstance(v, VRef) and v.cls == "Qmember" and k in L.mod_vars:
                mx = lambda S, k=k: S.env[k].e
                out.append((f"{k}-in-line", lambda S, g, mx=mx: z3.And(mx(S) > 0, own(S, mx(S)) == q, own(E, mx(S)) == q, pos(S, mx(S)) >= 1, pos(E, mx(S)) >= 1)))
                out.append((f"{k}-before-honored", lambda S, g, mx=mx: forall(a_, z3.Implies(z3.And(inl(a_), pos(E, a_) < pos(E, mx(S)), holds(E, comp(E, a_))), H(S, a_)), own(E, a_))))
                out.append((f"{k}-rest-kept", lambda S, g, mx=mx: forall(a_, z3.Implies(z3.And(inl(a_), pos(E, a_) >= pos(E, mx(S))), z3.And(z3.Not(H(S, a_)), own(S, a_) == q)), own(E, a_))))
                out.append((f"{k}-counted", lambda S, g: z3.Implies(forall(a_, z3.Implies(inl(a_), z3.Not(holds(E, comp(E, a_)))), own(E, a_)), n(S) == 0)))
                out.append((f"{k}-order", lambda S, g, mx=mx: forall([a_, b_], z3.Implies(z3.And(inl(a_), inl(b_), pos(E, a_) < pos(E, b_), H(S, a_), H(S, b_)), S["g.order"][comp(E, a_)] < S["g.order"][comp(E, b_)]), z3.MultiPattern(own(E, a_), own(E, b_)))))
        return out


VM = ["State._value", "State.value._tally"]


class SSet(Contract):
    params = dict(self=("ref", "State"), value="obj")
    modifies = STM + ["g.hc"] + VM
    props = ("C09",)

    def __init__(self, s, fn):
        self.qual = f"State.{fn}"
        super().__init__(s)

    def requires(self, eng, S, a):
        return INV3(S) + link(S) + nocur3(S)

    def ensures(self, eng, S0, S1, a, r):
        s, v = a["self"].e, a["value"].e
        q = waiters(S0, s)
        M = S0.fork()  # the moment between: the new value, everything else as before
        M.heap["State._value"] = z3.Store(S0["State._value"], s, v)
        ch = sval(S0, s) != v
        inl = lambda x: z3.And(own(S0, x) == q, pos(S0, x) >= 1, pos(S0, x) <= ln(S0, q))
        H = lambda x: hon(S0, S1, comp(S0, x))
        out = [("value", S1["State._value"] == z3.Store(S0["State._value"], s, v)), ("monitor", z3.Implies(ch, S1["State.value._tally"] == z3.Store(S0["State.value._tally"], s, v))),
               ("nothing-if-same-value", z3.Implies(z3.Not(ch), z3.And([S1[m] == S0[m] for m in self.modifies if m != "State._value"])))]
        out += [(x, z3.Implies(ch, f)) for x, f in TS(M, S1)]
        return out + INV3(S1) + nocur3(S1) + [
            ("only-waiters-of-this-state", forall(c_, z3.Implies(hon(S0, S1, c_), dom(S0, c_, q)), [waits_n(S1, c_)])),
            ("everyone-whose-condition-holds", z3.Implies(ch, forall(a_, z3.Implies(z3.And(inl(a_), holds(M, comp(S0, a_))), H(a_)), own(S0, a_)))),
            ("in-order-of-the-line", forall([a_, b_], z3.Implies(z3.And(inl(a_), inl(b_), pos(S0, a_) < pos(S0, b_), H(a_), H(b_)), S1["g.order"][comp(S0, a_)] < S1["g.order"][comp(S0, b_)]), z3.MultiPattern(own(S0, a_), own(S0, b_)))),
        ]


class STrigger(Contract):
    """State.trigger(value, value_after, max)"""

    qual = "State.trigger/after"
    params = dict(self=("ref", "State"), value="obj", value_after="obj", max="xreal")
    modifies = STM + ["g.hc"] + VM
    props = ("C09",)

    def requires(self, eng, S, a):
        given = [("after-value-given", a["value_after"].e != 0)] if isinstance(a["value_after"], VObj) else []
        return INV3(S) + link(S) + nocur3(S) + [("no-minus-infinity", xnum(a["max"]).kz() >= 0)] + given

    def ensures(self, eng, S0, S1, a, r):
        s = a["self"].e
        v1 = a["value"].e
        v2 = sval(S0, s) if isinstance(a["value_after"], VNone) else a["value_after"].e
        q = waiters(S0, s)
        M1, M2 = S0.fork(), S0.fork()  # the temporary value, the value after; everything else as before
        M1.heap["State._value"] = z3.Store(S0["State._value"], s, v1)
        M2.heap["State._value"] = z3.Store(S0["State._value"], s, v2)
        h1, h2 = lambda c: holds(M1, c), lambda c: holds(M2, c)
        m = xnum(a["max"])
        n = S1["g.hc"] - S0["g.hc"]
        inl = lambda x: z3.And(own(S0, x) == q, pos(S0, x) >= 1, pos(S0, x) <= ln(S0, q))
        H = lambda x: hon(S0, S1, comp(S0, x))
        C = lambda x: comp(S0, x)
        P = [waits_n(S1, c_)]
        nobody = lambda h: forall(a_, z3.Implies(inl(a_), z3.Not(h(C(a_)))), own(S0, a_))
        return INV3(S1) + nocur3(S1) + [x for x in TS(M1, S1) if x[0] != "honored-holds"] + [
            ("value-after", S1["State._value"] == z3.Store(S0["State._value"], s, v2)),
            ("monitor", S1["State.value._tally"] == z3.Store(S0["State.value._tally"], s, v2)),
            ("honored-holds", forall(c_, z3.Implies(hon(S0, S1, c_), z3.Or(h1(c_), h2(c_))), P)),
            ("only-waiters-of-this-state", forall(c_, z3.Implies(hon(S0, S1, c_), dom(S0, c_, q)), P)),
            ("at-most-max", z3.Implies(nobody(h2), z3.Or(n == 0, m.kz() == 1, z3.ToReal(n - 1) < m.real()))),
            ("everyone-for-the-after-value", forall(a_, z3.Implies(z3.And(inl(a_), h2(C(a_))), H(a_)), own(S0, a_))),
            ("everyone-if-no-maximum", z3.Implies(m.kz() == 1, forall(a_, z3.Implies(z3.And(inl(a_), h1(C(a_))), H(a_)), own(S0, a_)))),
            ("first-in-line-first", forall([a_, b_], z3.Implies(z3.And(inl(a_), inl(b_), pos(S0, a_) < pos(S0, b_), H(b_), z3.Not(h2(C(b_))), h1(C(a_))), H(a_)), z3.MultiPattern(own(S0, a_), own(S0, b_)))),
        ]


class STriggerKeep(STrigger):
    """State.trigger(value, max=..): back to the value it had"""

    qual = "State.trigger/back"
    params = dict(self=("ref", "State"), value="obj", value_after="none", max="xreal")


class CWait(Contract):
    """the current component waits for one state: wait(state), wait((state, value)), wait((state, value, priority)), with or without a fail delay"""

    modifies = STM + INS_MAPS + ["g.alloc", "g.hc", "Component._cond", "Component._wait_all", "Component._failed", "Component._remaining_duration", "Component._remaining_duration#k"]
    suspends = True
    props = ("C09", "C08")

    def __init__(self, s, shape, delay):
        self.qual = f"Component.wait/{shape}{'/delay' if delay else ''}"
        self.shape, self.delay = shape, delay
        super().__init__(s)

    def make_args(self, eng, st):
        y = lambda n, k: self.s.sym(eng, n, k, st)
        s = y("state", ("ref", "State"))
        arg = {"state": s}.get(self.shape)
        if arg is None:
            arg = VTuple([s, y("value", "obj")] + ([y("prio", "real")] if self.shape == "triple" else []))
        e = dict(self=y("self", ("ref", "Component")), args=VTuple([arg]), all=y("all", "bool"), urgent=y("urgent", "bool"), request_priority=y("request_priority", "real"), priority=y("priority", "real"))
        if self.delay:
            e["fail_delay"] = y("fail_delay", "real")
        V, b, x = z3.Consts("V_ a0_ a1_ a2_", A1(INT)), z3.Bool("all_"), z3.Int("comp_")
        va, a0, a1, a2 = V
        t = z3.If(a2[0] == 0, a1[0] == va[a0[0]], z3.If(a2[0] == 1, HOLD1(a1[0], va[a0[0]]), HOLD2(a1[0], va[a0[0]], x, a0[0])))
        k = COND(va, z3.IntVal(1), a0, a1, a2, b, x)
        st.assume(forall([va, a0, a1, a2, b, x], k == t, k))  # the definition of the condition of one term
        return e

    def parts(self, a):
        x = a["args"].items[0]
        if isinstance(x, VTuple):
            return x.items[0].e, x.items[1].e, (x.items[2] if len(x.items) > 2 else a["request_priority"]).real()
        return x.e, z3.Function("box_bool", BOOL, INT)(z3.BoolVal(True)), a["request_priority"].real()

    def requires(self, eng, S, a):
        c = a["self"].e
        s, v, p = self.parts(a)
        out = INV3(S) + link(S) + AL(S) + [("current", z3.And(c == S["Environment._current_component"][1], status(S, c) == code("current"), z3.Not(on(S, c)), waits_n(S, c) == 0)), ("state", s > 0)]
        if self.delay:
            out.append(("delay", a["fail_delay"].real() >= 0))
        return out

    def term(self, S, a):
        s, v, p = self.parts(a)
        if self.shape == "state":
            return v == sval(S, s)
        return z3.If(ISFUN(v), HOLD2(v, sval(S, s), a["self"].e, s), z3.If(DOLLAR(v), HOLD1(v, sval(S, s)), v == sval(S, s)))

    def branches(self, eng, pre, a):
        y = pre["Environment._yieldless"]
        return [dict(cond=z3.Not(y)), dict(cond=y, kind="suspend")]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        s, v, p = self.parts(a)
        q = waiters(S0, s)
        h = self.term(S0, a)
        T = S1["Component._scheduled_time"][c]
        K = S1["Component._scheduled_time#k"][c]
        fail = z3.And(K == 0, T == now(S0) + a["fail_delay"].real()) if self.delay else K == 1
        pr = prio(S1, qm(S1, c, q))
        typ = z3.IntVal(0) if self.shape == "state" else z3.If(ISFUN(v), z3.IntVal(2), z3.If(DOLLAR(v), z3.IntVal(1), z3.IntVal(0)))
        return INV3(S1) + [
            ("not-failed", z3.Not(S1["Component._failed"][c])),
            ("all-or-any", S1["Component._wait_all"][c] == a["all"].b),
            ("continues-if-it-holds", z3.Implies(h, z3.And(waits_n(S1, c) == 0, status(S1, c) == code("scheduled"), on(S1, c), K == 0, T == now(S0), z3.Not(dom(S1, c, q))))),
            ("waits-if-not", z3.Implies(z3.Not(h), z3.And(waits_n(S1, c) == 1, wstate(S1, c, 0) == s, wval(S1, c, 0) == v, wtyp(S1, c, 0) == typ, status(S1, c) == code("waiting"), dom(S1, c, q), pr == p))),
            ("until-the-fail-moment", z3.Implies(z3.Not(h), z3.And(fail, on(S1, c) == z3.BoolVal(bool(self.delay))))),
            ("nobody-else", forall(c_, z3.Implies(c_ != c, z3.And(same(S0, S1, c_), status(S1, c_) == status(S0, c_), on(S1, c_) == on(S0, c_))), [waits_n(S1, c_), status(S1, c_), on(S1, c_)])),
            ("other-queues", forall([c_, q_], z3.Implies(z3.Or(c_ != c, qkind(q_) != 3), dom(S1, c_, q_) == dom(S0, c_, q_)), [dom(S1, c_, q_)])),
            ("no-other-line", forall(s_, z3.Implies(z3.And(s_ > 0, s_ != s), z3.Not(dom(S1, c, waiters(S1, s_)))), [dom(S1, c, waiters(S1, s_))])),
        ]

    def loops(self, L):
        return []


class SGet(Contract):
    params = dict(self=("ref", "State"))
    props = ("C09",)

    def __init__(self, s, fn):
        self.qual = f"State.{fn}"
        super().__init__(s)

    def requires(self, eng, S, a):
        return []

    def ensures(self, eng, S0, S1, a, r):
        return [("value", r.e == sval(S0, a["self"].e))]


def make(p):
    s = SSession(p)
    s.add(*QCORE)
    for c in (Q.Contains, Q.Len, Q.GetItem):
        s.add(c)
    s.add(*PLANC)
    s.add(SReschedule)
    for c in s.contracts.values():
        c.verify = False
        c.props = ()
    s.add(CTryWait, STryWait, STrigger, STriggerKeep)
    for c in [*[CWait(s, sh, d) for sh in ("state", "pair", "triple") for d in (False, True)], SSet(s, "set"), SSet(s, "reset"), SGet(s, "get"), SGet(s, "__call__"), SGet(s, "_get_value")]:
        s.contracts[c.qual] = c
    return s
