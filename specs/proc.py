"""C01, C02, C17, C21: the event list, the process interactions and the event loop."""
import z3
from pyvc.values import *
from pyvc.engine import Out
from pyvc.session import Session, Contract, forall, A1, A2

c_, i_, j_ = z3.Int("c"), z3.Int("i"), z3.Int("j")
ONE = z3.IntVal(1)
EVK = ("seq", ("tuple", "real", "xreal", "int", ("ref", "Component", False), "obj"))
STL = ("seq", ("ref", "Component", False))

PROC_FIELDS = {
    "Component": dict(_on_event_list="bool", _scheduled_time="xreal", _remaining_duration="xreal", _interrupted_status="str", _interrupt_level="int",
                      _failed="bool", _skip_standby="bool", status=("sub", "_StatusMonitor"), env="env", _process_isgenerator="bool",
                      _claims=("dict", "Resource", "real"), _glet="opaque", _process="opaque", _creation_time="real", _mode_time="real", process="obj"),
    "Environment": dict(_now="real", _offset="real", _seq="int", _event_list=EVK, _standbylist=STL, _pendingstandbylist=STL,
                        _current_component=("ref", "Component", False), _main=("ref", "Component", False), _yieldless="bool", _any_yield="bool",
                        end_on_empty_eventlist="bool", _ui="bool", _animate="bool", running="bool", _trace="bool", stopped="bool", _blind_animation="bool"),
    "g": dict(_default_cap_now="bool"),
}
PROC_SUBS = {"Component.status": dict(_tally="str")}
EVM = ["Environment._event_list#" + x for x in ("len", "0", "1", "1k", "2", "3", "4")]
SBM = ["Environment._standbylist#len", "Environment._standbylist#0", "Environment._pendingstandbylist#len", "Environment._pendingstandbylist#0", "g.sbw", "g.sbi"]
GHOST = {"g.idx": A1(INT), "g.heap": BOOL, "g.sbw": A1(INT), "g.sbi": A1(INT)}
PLAN = EVM + ["g.idx", "g.heap", "Component._on_event_list"]
SCHED = ["Component._scheduled_time", "Component._scheduled_time#k"]
STATUS = "Component.status._tally"


def code(s):
    return z3.IntVal(strcode(s))


def n(S):
    return S["Environment._event_list#len"][1]


def col(S, k):
    return S["Environment._event_list#" + k][1]


def idx(S, c):
    return S["g.idx"][c]


def on(S, c):
    return S["Component._on_event_list"][c]


def status(S, c):
    return S[STATUS][c]


def now(S):
    return S["Environment._now"]


def sched(S, c):
    return VNum(S["Component._scheduled_time"][c], S["Component._scheduled_time#k"][c])


def remain(S, c):
    return VNum(S["Component._remaining_duration"][c], S["Component._remaining_duration#k"][c])


def xeq(a, b):
    """extended reals are equal"""
    ka, kb = a.kz(), b.kz()
    return z3.And(ka == kb, z3.Implies(ka == 0, a.real() == b.real()))


def lt_e(A, a, B, b, strict=False):
    """entry a of columns A precedes entry b of B: time, then priority, then sequence number"""
    ta, pa, ka, sa = A[0][a], A[1][a], A[2][a], A[3][a]
    tb, pb, kb, sb = B[0][b], B[1][b], B[2][b], B[3][b]
    peq = z3.And(ka == kb, z3.Or(ka != 0, pa == pb))
    plt = z3.Or(ka < kb, z3.And(ka == 0, kb == 0, pa < pb))
    return z3.Or(ta < tb, z3.And(ta == tb, z3.Or(plt, z3.And(peq, sa < sb if strict else sa <= sb))))


COLS = ["0", "1", "1k", "2", "3", "4"]


def cols(S):
    return [col(S, k) for k in COLS]


def entry(S, c):
    i = idx(S, c)
    return [x[i] for x in cols(S)]


def same_entry(S0, S1, c):
    return z3.And([a == b for (k, a), b in zip(zip(COLS, entry(S0, c)), entry(S1, c)) if k != "3"])


def sl(S, w):
    nm = "Environment._standbylist" if w == 1 else "Environment._pendingstandbylist"
    return S[nm + "#len"][1], S[nm + "#0"][1]


def EV(S):
    N, C = n(S), cols(S)
    A = lambda f: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < N), f), [C[4][i_], C[0][i_], C[3][i_], C[1][i_]])
    return [
        ("heap", z3.And(S["g.heap"], N >= 0, S["Environment._seq"] >= 0)),
        ("entries", A(z3.And(C[4][i_] > 0, idx(S, C[4][i_]) == i_, on(S, C[4][i_])))),
        ("not-before-now", A(C[0][i_] >= now(S))),
        ("first-is-minimal", A(lt_e(C, z3.IntVal(0), C, i_))),
        ("sequence-numbers", A(z3.And(C[3][i_] != 0, C[3][i_] <= S["Environment._seq"], -C[3][i_] <= S["Environment._seq"], C[2][i_] >= -1, C[2][i_] <= 1))),
        ("sequence-unique", forall([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < j_, j_ < N), C[3][i_] != C[3][j_]), z3.MultiPattern(C[3][i_], C[3][j_]))),
        ("listed", forall(c_, z3.Implies(on(S, c_), z3.And(0 <= idx(S, c_), idx(S, c_) < N, C[4][idx(S, c_)] == c_)), [on(S, c_), idx(S, c_)])),
        ("plan=event", forall(c_, z3.Implies(on(S, c_), z3.And(S["Component._scheduled_time#k"][c_] == 0, S["Component._scheduled_time"][c_] == C[0][idx(S, c_)])),
                              [on(S, c_), S["Component._scheduled_time"][c_]])),
    ]


def isin(e, *names):
    return z3.Or([e == code(x) for x in names])


def ST(S, exc=None):
    """statuses, plans and standby lists agree (for every component but exc)"""
    ne = (lambda c: c != exc) if exc is not None else (lambda c: z3.BoolVal(True))
    r = [
        ("status-of-scheduled", forall(c_, z3.Implies(on(S, c_), isin(status(S, c_), "scheduled", "requesting", "waiting")), [on(S, c_), status(S, c_)])),
        ("no-plan-no-time", forall(c_, z3.Implies(z3.And(ne(c_), z3.Not(on(S, c_)), status(S, c_) != code("standby")), S["Component._scheduled_time#k"][c_] == 1),
                                   [on(S, c_), status(S, c_)])),
        ("interrupted-state", forall(c_, z3.Implies(z3.And(ne(c_), status(S, c_) == code("interrupted")),
                                                    z3.And(S["Component._interrupt_level"][c_] >= 1, S["Component._interrupted_status"][c_] == code("scheduled"),
                                                           S["Component._remaining_duration#k"][c_] >= 0,
                                                           z3.Implies(S["Component._remaining_duration#k"][c_] == 0, S["Component._remaining_duration"][c_] >= 0))), [status(S, c_)])),
    ]
    for w, nm in ((1, "standby-list"), (2, "pending-standby-list")):
        N, L = sl(S, w)
        r.append((nm, z3.And(N >= 0, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < N), z3.And(L[i_] > 0, S["g.sbw"][L[i_]] == w, S["g.sbi"][L[i_]] == i_,
                                                                                            status(S, L[i_]) == code("standby"))), L[i_]))))
    (n1, l1), (n2, l2) = sl(S, 1), sl(S, 2)
    w, p = S["g.sbw"][c_], S["g.sbi"][c_]
    r.append(("standby-listed", forall(c_, z3.Implies(z3.And(ne(c_), status(S, c_) == code("standby")),
                                                      z3.Or(z3.And(w == 1, 0 <= p, p < n1, l1[p] == c_), z3.And(w == 2, 0 <= p, p < n2, l2[p] == c_))), [status(S, c_), p])))
    if exc is not None:
        r.append(("not-listed", z3.And([forall(i_, z3.Implies(z3.And(0 <= i_, i_ < N), L[i_] != exc), L[i_]) for N, L in (sl(S, 1), sl(S, 2))])))
    return r


def INV(S, exc=None, pre=""):
    return [(pre + a, f) for a, f in EV(S) + ST(S, exc)]


def others(S0, S1, c0):
    """plans of all other components as before"""
    return [("other-plans-kept", forall(c_, z3.Implies(c_ != c0, z3.And(on(S1, c_) == on(S0, c_), z3.Implies(on(S0, c_), same_entry(S0, S1, c_)))), [on(S1, c_), idx(S1, c_)]))]


def only(S0, S1, c0, *maps):
    r = []
    for m in maps:
        r.append((f"only-self({m})", forall(c_, z3.Implies(c_ != c0, S1[m][c_] == S0[m][c_]), S1[m][c_])))
    return r


def standby_same(S0, S1):
    r = []
    for w, nm in ((1, "standbylist"), (2, "pendingstandbylist")):
        (na, la), (nb, lb) = sl(S0, w), sl(S1, w)
        r.append((nm + "-kept", z3.And(na == nb, forall(i_, z3.Implies(z3.And(0 <= i_, i_ < na), lb[i_] == la[i_]), lb[i_]))))
    return r


def standby_without(S0, S1, c0):
    """the standby lists are as before, in the same order, without c0"""
    r = []
    for w, nm in ((1, "standbylist"), (2, "pendingstandbylist")):
        (na, la), (nb, lb) = sl(S0, w), sl(S1, w)
        k = S0["g.sbi"][c0]
        was = z3.And(status(S0, c0) == code("standby"), S0["g.sbw"][c0] == w)
        r.append((nm + "-without-self", z3.And(nb == z3.If(was, na - 1, na),
                                               forall(i_, z3.Implies(z3.And(0 <= i_, i_ < nb), lb[i_] == la[z3.If(z3.And(was, i_ >= k), i_ + 1, i_)]), lb[i_]))))
    return r


def planned(S0, S1, c, t, prio, urgent, seq0=None):
    """c has exactly one pending event: at t, with this priority, after (urgent: before) all earlier scheduled ones; none if t is infinite"""
    e = entry(S1, c)
    q = S0["Environment._seq"] if seq0 is None else seq0
    return [
        ("pending-iff-finite", on(S1, c) == (t.kz() == 0)),
        ("time", z3.Implies(t.kz() == 0, e[0] == t.real())),
        ("priority", z3.Implies(t.kz() == 0, z3.And(e[2] == prio.kz(), z3.Implies(prio.kz() == 0, e[1] == prio.real())))),
        ("order", z3.Implies(t.kz() == 0, z3.And(S1["Environment._seq"] == q + 1, e[3] == z3.If(urgent, -(q + 1), q + 1)))),
        ("no-order", z3.Implies(t.kz() != 0, S1["Environment._seq"] == q)),
        ("scheduled-time", xeq(sched(S1, c), t)),
    ]


def noplan(S1, c):
    return [("no-pending-event", z3.Not(on(S1, c))), ("scheduled-time-inf", S1["Component._scheduled_time#k"][c] == 1)]


def vmax(eng, a, b):
    lt = eng.cmp(a, b, "<")
    return VNum(z3.If(lt, b.real(), a.real()), z3.If(lt, b.kz(), a.kz()))


def xnum(v):
    return v if not v.finite else VNum(v.real(), z3.IntVal(0))


class ProcSession(Session):
    name = "proc"
    fields = PROC_FIELDS
    sub_fields = PROC_SUBS
    extra_maps = GHOST
    noeffect = {"set_mode", "quit", "video_close"}
    assumptions = (
        "heapq.heappush/heappop/heapify: the list is rearranged to a heap, heappop takes a minimal entry (compared on time, priority, sequence number; sequence numbers are unique, so components are never compared)",
        "an event list element is a 5-tuple (time, priority, sequence, component, value); the clock and event times are finite (runs that end on an empty event list)",
        "greenlet.switch / generator send ends the verified path (the code after it is verified from its own contract)",
        "no user interface loop (env._ui) and no animation during step",
        "Monitor.tally on the status monitor sets the current value (proved in session monitor)",
        "_release gives claimed quantity back and may only change other components from requesting to scheduled (see C06/C07)",
        "_check_fail removes the component from its waiting lines and does not touch plans or statuses (proved in session wait)",
    )

    def __init__(self, p):
        super().__init__(p)
        self.sub_methods = {("Component.status", "tally"): self.h_status, ("Component.status", "__call__"): self.h_statuscall}

    def h_status(self, eng, sub, args, kw, st):
        eng.write(st, STATUS, "str", sub.owner, args[0])
        eng.used_contracts.add("Monitor.tally (session monitor)")
        return eng.ok(NONE, st)

    def h_statuscall(self, eng, sub, args, kw, st):
        return eng.ok(VStr(st[STATUS][sub.owner]), st)

    def globals(self, eng, name):
        if name == "PyPy":
            return VBool(False)
        return super().globals(eng, name)

    def background(self, eng, st):
        r = [z3.And(st["Environment._current_component"][1] > 0, st["Environment._main"][1] > 0)]
        r.append(forall(c_, st["Component.process"][c_] != 0, st["Component.process"][c_]))
        for m, a in st.heap.items():
            if m.endswith("#k") and a.sort() == A1(INT):
                r.append(forall(c_, z3.And(a[c_] >= -1, a[c_] <= 1), a[c_]))
        return r

    def call_opaque(self, eng, fv, args, kw, st):
        if isinstance(fv, VBuiltin) and fv.name in ("opaque:send", "opaque:switch"):
            return [Out("suspend", None, st)]
        if isinstance(fv, VOpaque):
            if fv.why.endswith("_process"):
                return [Out("suspend", None, st)]
        if isinstance(fv, VBuiltin) and fv.name == "opaque:filename_lineno_to_str":
            return eng.ok(VOpaque("text"), st)
        if isinstance(fv, VObj):
            return eng.ok(VOpaque("generator"), st)
        return None

    # ---- ghost state of the lists
    def seq_op(self, eng, st, field, op, **k):
        key = field.key
        if key == "Environment._event_list":
            ix = st["g.idx"]
            st["g.heap"] = z3.BoolVal(False)
            if op in ("append", "set"):
                st["g.idx"] = z3.Store(ix, self.comp_of(eng, st, k["elem"]), k["pos"])
            elif op == "pop":
                f = eng.fresh("idx", A1(INT))
                st.assume(forall(c_, f[c_] == z3.If(ix[c_] > k["pos"], ix[c_] - 1, ix[c_]), [f[c_]]))
                st["g.idx"] = f
            else:
                if not k["parts"]:
                    st["g.heap"] = z3.BoolVal(True)
                else:
                    st["g.idx"] = eng.fresh("idx", A1(INT))
        elif key in ("Environment._standbylist", "Environment._pendingstandbylist"):
            W = 1 if key == "Environment._standbylist" else 2
            w, p = st["g.sbw"], st["g.sbi"]
            if op in ("append", "set"):
                e = k["elem"].e
                st["g.sbw"], st["g.sbi"] = z3.Store(w, e, z3.IntVal(W)), z3.Store(p, e, k["pos"])
            elif op == "pop":
                f = eng.fresh("sbi", A1(INT))
                st.assume(forall(c_, f[c_] == z3.If(z3.And(w[c_] == W, p[c_] > k["pos"]), p[c_] - 1, p[c_]), [f[c_]]))
                st["g.sbi"] = f
                st["g.sbw"] = z3.Store(w, k["elem"].e, z3.IntVal(0))
            else:
                nw, npos = eng.fresh("sbw", A1(INT)), eng.fresh("sbi", A1(INT))
                ew, ep = z3.If(w[c_] == W, z3.IntVal(0), w[c_]), p[c_]
                off = z3.IntVal(0)
                for sq, src in k["parts"]:
                    s = {"Environment._standbylist": 1, "Environment._pendingstandbylist": 2}.get(src)
                    if s is not None:
                        ew, ep = z3.If(w[c_] == s, z3.IntVal(W), ew), z3.If(w[c_] == s, off + p[c_], ep)
                    off = off + sq.n
                st.assume(forall(c_, z3.And(nw[c_] == ew, npos[c_] == ep), [nw[c_], npos[c_]]))
                st["g.sbw"], st["g.sbi"] = nw, npos

    def comp_of(self, eng, st, e):
        items = e.items if isinstance(e, VTuple) else st.objs[e.loc].items
        return items[3].e

    def arrange(self, eng, st, N, ext, ix, hole=None):
        """the event list becomes a heap that is a permutation of the columns ext (without position hole)"""
        M = N if hole is None else N - 1
        pi, pv = eng.fresh_fn("pi", INT, INT), eng.fresh_fn("pinv", INT, INT)
        ok = (lambda j: z3.And(0 <= j, j < N)) if hole is None else (lambda j: z3.And(0 <= j, j < N, j != hole))
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < M), z3.And(ok(pi(i_)), pv(pi(i_)) == i_)), pi(i_)))
        st.assume(forall(i_, z3.Implies(ok(i_), z3.And(0 <= pv(i_), pv(i_) < M, pi(pv(i_)) == i_)), pv(i_)))
        new = []
        for k, a in zip(COLS, ext):
            key = "Environment._event_list#" + k
            f = eng.fresh(key, a.sort())
            new.append(f)
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < M), z3.And([f[i_] == a[pi(i_)] for f, a in zip(new, ext)])), [f[i_] for f in new]))
        st.assume(forall(i_, z3.Implies(z3.And(0 <= i_, i_ < M), lt_e(new, z3.IntVal(0), new, i_)), [f[i_] for f in new]))
        nx = eng.fresh("idx", A1(INT))
        st.assume(forall(c_, nx[c_] == (pv(ix[c_]) if hole is None else z3.If(ix[c_] == hole, z3.IntVal(-1), pv(ix[c_]))), nx[c_]))
        for k, f in zip(COLS, new):
            key = "Environment._event_list#" + k
            st[key] = z3.Store(st[key], ONE, f)
        st["Environment._event_list#len"] = z3.Store(st["Environment._event_list#len"], ONE, M)
        st["g.idx"], st["g.heap"] = nx, z3.BoolVal(True)

    def builtin(self, eng, fv, args, kw, st):
        nm = fv.name
        if nm in ("heapq.heappush", "heapq.heappop", "heapq.heapify"):
            l = args[0]
            if not (isinstance(l, VField) and l.key == "Environment._event_list"):
                raise Unsupported("heap operation on another list")
            N = n(st)
            if nm == "heapq.heapify":
                self.arrange(eng, st, N, cols(st), st["g.idx"])
                return eng.ok(NONE, st)
            eng.oblige(st, "list is a heap", st["g.heap"])
            if nm == "heapq.heappush":
                ts = self.seq_unelem(eng, EVK[1], args[1], st)
                ext = [z3.Store(a, N, t) for a, t in zip(cols(st), ts)]
                self.arrange(eng, st, N + 1, ext, z3.Store(st["g.idx"], ts[4], N))
                return eng.ok(NONE, st)
            eng.oblige(st, "no-IndexError(heappop)", N > 0)
            C = cols(st)
            x = self.seq_elem(eng, EVK[1], [a[z3.IntVal(0)] for a in C])
            self.arrange(eng, st, N, C, st["g.idx"], hole=z3.IntVal(0))
            return eng.ok(x, st)
        if nm in ("inspect.getsourcelines", "inspect.signature"):
            return eng.ok(VOpaque("source"), st)
        if nm == "next":
            return [Out("suspend", None, st)]
        if nm == "hasattr":
            return eng.ok(VBool(z3.Function("has_process", INT, BOOL)(args[0].e)), st)
        if nm == "inspect.isgeneratorfunction":
            return eng.ok(VBool(z3.Function("is_generator", INT, BOOL)(eng.cargs["self"].e)), st)
        if nm == "greenlet.greenlet":
            return eng.ok(VOpaque("greenlet"), st)
        if nm == "getattr" and len(args) == 2 and isinstance(args[0], VRef):
            return eng.ok(VObj(st["Component.process"][args[0].e]), st)
        return None


has_process = z3.Function("has_process", INT, BOOL)
is_generator = z3.Function("is_generator", INT, BOOL)


class P(Contract):
    props = ("C02",)
    suspends = True

    def self_(self, a):
        return a["self"].e

    def requires(self, eng, S, a):
        return INV(S)

    def suspend_cond(self, S, a):
        return z3.And(S["Environment._yieldless"], self.self_(a) == S["Environment._current_component"][1])

    def branches(self, eng, pre, a):
        if not self.suspends:
            return [dict()]
        c = self.suspend_cond(pre, a)
        return [dict(cond=z3.Not(c)), dict(cond=c, kind="suspend")]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return []


class Push(P):
    qual = "Component._push"
    params = dict(self=("ref", "Component"), t="xreal", priority="xreal", urgent="bool", return_value="obj", switch="bool")
    modifies = PLAN + ["Environment._seq"]
    props = ("C01", "C02", "C17")

    def requires(self, eng, S, a):
        c, t = a["self"].e, xnum(a["t"])
        return [(x, f) for x, f in INV(S, exc=c)] + [
            ("not-pending", z3.Not(on(S, c))),
            ("status", isin(status(S, c), "scheduled", "requesting", "waiting")),
            ("scheduled-time-set", xeq(sched(S, c), t)),
            ("not-in-the-past", z3.And(t.kz() >= 0, z3.Implies(t.kz() == 0, t.real() >= now(S)))),
        ]

    def suspend_cond(self, S, a):
        sw = a["switch"].b
        return z3.And(sw, super().suspend_cond(S, a))

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        return planned(S0, S1, c, xnum(a["t"]), xnum(a["priority"]), a["urgent"].b) + others(S0, S1, c) + INV(S1, pre="INV.") + [
            ("value", z3.Implies(xnum(a["t"]).kz() == 0, entry(S1, c)[5] == eng.coerce(a["return_value"], "obj", S1)[0] if not isinstance(a["return_value"], VOpaque) else True))
        ] + only(S0, S1, c, "Component._on_event_list")


class Remove(P):
    qual = "Component._remove"
    params = dict(self=("ref", "Component"))
    modifies = PLAN + SBM
    suspends = False
    props = ("C01", "C02", "C17", "C21")

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        return [("no-pending-event", z3.Not(on(S1, c)))] + others(S0, S1, c) + only(S0, S1, c, "Component._on_event_list") + standby_without(S0, S1, c) + INV(S1, exc=c, pre="INV.")

    def loops(self, L):
        out = []
        c = L.args["self"].e
        N0 = n(L.pre)
        if L.it is not None and "i" in L.ghost:
            out.append(("not-found-yet", lambda S, g: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < g["i"]), col(S, "3")[j_] != c), col(S, "3")[j_])))
        return out


class Reschedule(P):
    qual = "Component._reschedule"
    any_args = ("s0", "extra", "caller")
    params = dict(self=("ref", "Component"), scheduled_time="xreal", priority="xreal", urgent="bool", caller="opaque", cap_now="bool", return_value="obj", switch="bool")
    modifies = PLAN + ["Environment._seq"] + SCHED
    props = ("C01", "C02", "C17")

    def requires(self, eng, S, a):
        c = a["self"].e
        return [(x, f) for x, f in INV(S, exc=c)] + [("not-pending", z3.Not(on(S, c))), ("status", isin(status(S, c), "scheduled", "requesting", "waiting"))]

    def suspend_cond(self, S, a):
        return z3.And(a["switch"].b, super().suspend_cond(S, a))

    def cap(self, S, a):
        return S["g._default_cap_now"] if isinstance(a["cap_now"], VNone) else a["cap_now"].b

    def raises(self, eng, S, a):
        return [("ValueError", z3.And(eng.cmp(xnum(a["scheduled_time"]), VNum(now(S)), "<"), z3.Not(self.cap(S, a))))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        t = vmax(eng, xnum(a["scheduled_time"]), VNum(now(S0), z3.IntVal(0)))
        return planned(S0, S1, c, t, xnum(a["priority"]), a["urgent"].b) + others(S0, S1, c) + INV(S1, pre="INV.") + only(S0, S1, c, "Component._on_event_list", *SCHED)


class RescheduleDefault(Reschedule):
    qual = "Component._reschedule/default"
    params = dict(Reschedule.params, cap_now="none")


class CheckFail(P):
    qual = "Component._check_fail"
    params = dict(self=("ref", "Component"))
    modifies = ["Component._failed"]
    suspends = False
    trusted = "the waiting lines are not modelled in this session; see session wait (C08)"

    def requires(self, eng, S, a):
        return []

    def ensures(self, eng, S0, S1, a, r):
        return only(S0, S1, a["self"].e, "Component._failed")


class ReleaseC(P):
    qual = "Component._release"
    any_args = ("s0",)
    params = dict(self=("ref", "Component"), r=("ref", "Resource"))
    modifies = PLAN + ["Environment._seq", STATUS] + SCHED + ["Component._failed", "Component._claims#dom"]
    suspends = False
    trusted = "releasing honors waiting requests only; see C06/C07"

    def requires(self, eng, S, a):
        return INV(S, exc=a["self"].e) + [("not-pending", z3.Not(on(S, a["self"].e)))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        return released(S0, S1, c) + [(x, f) for x, f in INV(S1, exc=c)]


def released(S0, S1, c):
    return [
        ("self-kept", z3.And(z3.Not(on(S1, c)), status(S1, c) == status(S0, c), S1["Component._scheduled_time"][c] == S0["Component._scheduled_time"][c],
                             S1["Component._scheduled_time#k"][c] == S0["Component._scheduled_time#k"][c])),
        ("others-kept-or-honored", forall(c_, z3.Implies(c_ != c, z3.Or(
            z3.And(status(S1, c_) == status(S0, c_), on(S1, c_) == on(S0, c_), z3.Implies(on(S0, c_), same_entry(S0, S1, c_))),
            z3.And(status(S0, c_) == code("requesting"), status(S1, c_) == code("scheduled"), on(S1, c_), entry(S1, c_)[0] == now(S0)))), [status(S1, c_), on(S1, c_), idx(S1, c_)])),
    ]


def release_loop(L, c):
    pre = L.entry
    out = []
    out += [(f"rel.{i}", lambda S, g, i=i: released(pre, S, c)[i][1]) for i in range(2)]
    k = len(INV(pre, exc=c))
    for i in range(k):
        out.append((f"INV.{i}", lambda S, g, i=i: INV(S, exc=c)[i][1]))
    return out


STATUSES_OK = lambda S, c: z3.BoolVal(True)


class ActivateBase(P):
    modifies = PLAN + SBM + SCHED + ["Environment._seq", STATUS, "Component._failed", "Environment._any_yield", "Component._process_isgenerator"]
    starts = False  # a process is given

    def delay(self, a):
        return xnum(a["delay"]) if not isinstance(a.get("delay"), VNone) and "delay" in a else VNum(z3.RealVal(0), z3.IntVal(0))

    def when(self, eng, S, a):
        d = xnum(a["delay"]) if "delay" in a else VNum(z3.RealVal(0), z3.IntVal(0))
        at = a.get("at", NONE)
        if isinstance(at, VNone):
            return VNum(now(S) + d.real(), d.kz())
        at = xnum(at)
        k = z3.If(at.kz() != 0, at.kz(), d.kz())
        return VNum(at.real() + S["Environment._offset"] + d.real(), k)

    def start(self, S, a):
        return z3.BoolVal(True) if self.starts else status(S, a["self"].e) == code("data")

    def requires(self, eng, S, a):
        r = INV(S)
        d = xnum(a["delay"]) if "delay" in a else None
        if d is not None and "at" in self.params and self.params["at"] != "none":
            r.append(("no inf-inf", z3.Not(z3.And(d.kz() != 0, xnum(a["at"]).kz() != 0, d.kz() != xnum(a["at"]).kz()))))
        # the current component has status current (it is calling) or is being rescheduled in a yield model
        return r

    def cap(self, S, a):
        return S["g._default_cap_now"] if isinstance(a.get("cap_now", NONE), VNone) else a["cap_now"].b

    def raises(self, eng, S, a):
        c = a["self"].e
        noproc = z3.BoolVal(False) if self.starts else z3.And(status(S, c) == code("data"), z3.Not(has_process(c)))
        g = is_generator(c)
        yl = S["Environment._yieldless"]
        bad = z3.And(self.start(S, a), z3.If(g, yl, z3.And(z3.Not(yl), z3.Not(S["Environment._any_yield"]))))
        past = z3.And(eng.cmp(self.when(eng, S, a), VNum(now(S)), "<"), z3.Not(self.cap(S, a)))
        return [("AttributeError", noproc), ("ValueError", z3.And(z3.Not(noproc), z3.Or(bad, past)))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        t = vmax(eng, self.when(eng, S0, a), VNum(now(S0), z3.IntVal(0)))
        return ([("status-scheduled", status(S1, c) == code("scheduled"))] + planned(S0, S1, c, t, xnum(a["priority"]), a["urgent"].b) + others(S0, S1, c)
                + only(S0, S1, c, STATUS, "Component._on_event_list", "Component._failed", *SCHED) + standby_without(S0, S1, c) + INV(S1, pre="INV."))


def activates():
    base = dict(self=("ref", "Component"), priority="xreal", urgent="bool")
    out = []
    for nm, extra, starts in (
        ("delay", dict(at="none", delay="xreal", process="none", keep_request="bool", keep_wait="bool", cap_now="bool"), False),
        ("at", dict(at="xreal", delay="xreal", process="none", cap_now="none"), False),
        ("process", dict(at="none", delay="xreal", process=("const", "process"), cap_now="none"), True),
    ):
        out.append(type("Activate_" + nm, (ActivateBase,), dict(qual="Component.activate/" + nm, params=dict(base, **extra), starts=starts)))
    return out


class HoldBase(P):
    modifies = PLAN + SBM + SCHED + ["Environment._seq", STATUS, "Component._failed"]
    props = ("C02", "C01")

    def when(self, eng, S, a):
        d, t = a.get("duration", NONE), a.get("till", NONE)
        if not isinstance(d, VNone):
            d = xnum(d)
            return VNum(now(S) + d.real(), d.kz())
        if not isinstance(t, VNone):
            t = xnum(t)
            return VNum(t.real() + S["Environment._offset"], t.kz())
        return VNum(now(S), z3.IntVal(0))

    def cap(self, S, a):
        return S["g._default_cap_now"] if isinstance(a.get("cap_now", NONE), VNone) else a["cap_now"].b

    def raises(self, eng, S, a):
        c = a["self"].e
        d = status(S, c) == code("data")
        return [("ValueError", z3.Or(d, z3.And(eng.cmp(self.when(eng, S, a), VNum(now(S)), "<"), z3.Not(self.cap(S, a)))))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        t = vmax(eng, self.when(eng, S0, a), VNum(now(S0), z3.IntVal(0)))
        return ([("status-scheduled", status(S1, c) == code("scheduled"))] + planned(S0, S1, c, t, xnum(a["priority"]), a["urgent"].b) + others(S0, S1, c)
                + only(S0, S1, c, STATUS, "Component._on_event_list", "Component._failed", *SCHED) + standby_without(S0, S1, c) + INV(S1, pre="INV."))


class HoldDuration(HoldBase):
    qual = "Component.hold/duration"
    params = dict(self=("ref", "Component"), duration="xreal", till="none", priority="xreal", urgent="bool", cap_now="bool", interrupted=("const", False))


class HoldTill(HoldBase):
    qual = "Component.hold/till"
    params = dict(self=("ref", "Component"), duration="none", till="xreal", priority="xreal", urgent="bool", cap_now="none", interrupted=("const", False))


class HoldNow(HoldBase):
    qual = "Component.hold/now"
    params = dict(self=("ref", "Component"), duration="none", till="none", priority="xreal", urgent="bool", cap_now="none", interrupted=("const", False))


INTR = ["Component._remaining_duration", "Component._remaining_duration#k", "Component._interrupted_status", "Component._interrupt_level"]


class HoldInterrupted(HoldBase):
    qual = "Component.hold/interrupted"
    params = dict(self=("ref", "Component"), duration="xreal", till="none", priority="xreal", urgent="bool", cap_now="none", interrupted="int")
    modifies = HoldBase.modifies + INTR
    props = ("C02", "C17")

    def requires(self, eng, S, a):
        return INV(S) + [("level", a["interrupted"].e >= 1)]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        t = vmax(eng, self.when(eng, S0, a), VNum(now(S0), z3.IntVal(0)))
        return ([("status-interrupted", status(S1, c) == code("interrupted")), ("level", S1["Component._interrupt_level"][c] == a["interrupted"].e),
                 ("remaining", xeq(remain(S1, c), VNum(t.real() - now(S0), t.kz())))] + noplan(S1, c) + others(S0, S1, c)
                + only(S0, S1, c, STATUS, "Component._on_event_list", "Component._failed", *(SCHED + INTR)) + standby_without(S0, S1, c) + INV(S1, pre="INV."))


class Passivate(P):
    qual = "Component.passivate"
    params = dict(self=("ref", "Component"))
    modifies = PLAN + SBM + SCHED + [STATUS, "Component._failed"] + INTR[:2]
    props = ("C02",)

    def raises(self, eng, S, a):
        return [("ValueError", status(S, a["self"].e) == code("data"))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        s0 = status(S0, c)
        sc = sched(S0, c)
        return ([("status-passive", status(S1, c) == code("passive")),
                 ("remaining-of-current", z3.Implies(s0 == code("current"), xeq(remain(S1, c), VNum(z3.RealVal(0), z3.IntVal(0))))),
                 ("remaining-of-scheduled", z3.Implies(z3.Or(on(S0, c), s0 == code("scheduled")), xeq(remain(S1, c), VNum(sc.real() - now(S0), sc.kz())))),
                 ("remaining-of-interrupted", z3.Implies(s0 == code("interrupted"), xeq(remain(S1, c), remain(S0, c))))]
                + noplan(S1, c) + others(S0, S1, c) + only(S0, S1, c, STATUS, "Component._on_event_list", "Component._failed", *(SCHED + INTR[:2])) + standby_without(S0, S1, c) + INV(S1, pre="INV."))


class Standby(P):
    qual = "Component.standby"
    params = dict(self=("ref", "Component"))
    modifies = PLAN + SBM + SCHED + [STATUS, "Component._failed"]
    props = ("C02", "C21")

    def raises(self, eng, S, a):
        c = a["self"].e
        return [("ValueError", z3.And(status(S, c) != code("current"), z3.Or(status(S, c) == code("data"), c == S["Environment._main"][1])))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        (na, la), (nb, lb) = sl(S0, 1), sl(S1, 1)
        (n2, l2), (m2, k2) = sl(S0, 2), sl(S1, 2)
        k = S0["g.sbi"][c]
        was = lambda w: z3.And(status(S0, c) == code("standby"), S0["g.sbw"][c] == w)
        rest = z3.If(was(1), na - 1, na)
        return ([("status-standby", status(S1, c) == code("standby")), ("no-pending-event", z3.Not(on(S1, c))), ("time-is-now", xeq(sched(S1, c), VNum(now(S0), z3.IntVal(0)))),
                 ("last-in-line", z3.And(nb == rest + 1, lb[rest] == c)),
                 ("order-kept", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < rest), lb[i_] == la[z3.If(z3.And(was(1), i_ >= k), i_ + 1, i_)]), lb[i_])),
                 ("pending-kept", z3.And(m2 == z3.If(was(2), n2 - 1, n2), forall(i_, z3.Implies(z3.And(0 <= i_, i_ < m2), k2[i_] == l2[z3.If(z3.And(was(2), i_ >= k), i_ + 1, i_)]), k2[i_])))]
                + others(S0, S1, c) + only(S0, S1, c, STATUS, "Component._on_event_list", "Component._failed", *SCHED) + INV(S1, pre="INV."))


class Interrupt(P):
    qual = "Component.interrupt"
    params = dict(self=("ref", "Component"))
    modifies = PLAN + SBM + SCHED + [STATUS] + INTR
    props = ("C02", "C17")
    suspends = False

    def raises(self, eng, S, a):
        s = status(S, a["self"].e)
        return [("ValueError", z3.Not(isin(s, "scheduled", "interrupted")))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return Contract.exc_ensures(self, eng, S0, S1, a, exc)

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        was = status(S0, c) == code("interrupted")
        sc = sched(S0, c)
        return ([("status-interrupted", status(S1, c) == code("interrupted")),
                 ("level", S1["Component._interrupt_level"][c] == z3.If(was, S0["Component._interrupt_level"][c] + 1, z3.IntVal(1))),
                 ("remaining", z3.If(was, xeq(remain(S1, c), remain(S0, c)), xeq(remain(S1, c), VNum(sc.real() - now(S0), sc.kz()))))]
                + noplan(S1, c) + others(S0, S1, c) + standby_same(S0, S1) + only(S0, S1, c, STATUS, "Component._on_event_list", *(SCHED + INTR)) + INV(S1, pre="INV."))


class Resume(P):
    qual = "Component.resume"
    params = dict(self=("ref", "Component"), all="bool", priority="xreal", urgent="bool")
    modifies = PLAN + SCHED + ["Environment._seq", STATUS] + INTR
    props = ("C02", "C17")

    def raises(self, eng, S, a):
        return [("ValueError", status(S, a["self"].e) != code("interrupted"))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return Contract.exc_ensures(self, eng, S0, S1, a, exc)

    def suspend_cond(self, S, a):
        return super().suspend_cond(S, a)

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        L0, L1 = S0["Component._interrupt_level"][c], S1["Component._interrupt_level"][c]
        more = z3.And(L0 > 1, z3.Not(a["all"].b))
        rm = remain(S0, c)
        t = VNum(now(S0) + rm.real(), rm.kz())
        go = [(x, z3.Implies(z3.Not(more), f)) for x, f in planned(S0, S1, c, t, xnum(a["priority"]), a["urgent"].b)]
        return ([("level", L1 == L0 - 1), ("remaining-kept", xeq(remain(S1, c), rm)),
                 ("still-interrupted", z3.Implies(more, z3.And(status(S1, c) == code("interrupted"), z3.Not(on(S1, c)), S1["Component._scheduled_time#k"][c] == 1))),
                 ("continues", z3.Implies(z3.Not(more), status(S1, c) == code("scheduled")))] + go
                + others(S0, S1, c) + only(S0, S1, c, STATUS, "Component._on_event_list", *(SCHED + INTR)) + INV(S1, pre="INV."))


class Cancel(P):
    qual = "Component.cancel"
    params = dict(self=("ref", "Component"))
    modifies = PLAN + SBM + SCHED + [STATUS, "Component._failed", "Environment._seq", "Component._claims#dom"]
    props = ("C02",)

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        return ([("status-data", status(S1, c) == code("data"))] + noplan(S1, c) + released(S0, S1, c)[1:] + standby_without(S0, S1, c) + INV(S1, pre="INV.")
                + [("nothing-claimed-nothing-changed", z3.Implies(S0["Component._claims#dom"][c] == z3.K(INT, z3.BoolVal(False)), z3.And([f for _, f in others(S0, S1, c) + only(S0, S1, c, STATUS)])))])

    def loops(self, L):
        c = L.args["self"].e
        pre = L.entry
        none = pre["Component._claims#dom"][c] == z3.K(INT, z3.BoolVal(False))
        return release_loop(L, c) + [("none", lambda S, g: z3.Implies(none, z3.And([f for _, f in others(pre, S, c) + only(pre, S, c, STATUS)])))]


class Terminate(P):
    qual = "Environment._terminate"
    params = dict(self="env", c=("ref", "Component"))
    modifies = PLAN + SCHED + [STATUS, "Component._failed", "Environment._seq", "Component._claims#dom"]
    props = ("C02",)
    suspends = False

    def requires(self, eng, S, a):
        c = a["c"].e
        return INV(S) + [("was-current", z3.And(z3.Not(on(S, c)), status(S, c) == code("current")))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["c"].e
        return [("status-data", status(S1, c) == code("data"))] + noplan(S1, c) + released(S0, S1, c)[1:] + INV(S1, pre="INV.")

    def loops(self, L):
        return release_loop(L, L.args["c"].e)


class ScheduledTime(P):
    qual = "Component.scheduled_time"
    params = dict(self=("ref", "Component"))
    suspends = False

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        e = entry(S0, c)
        return [("of-pending-event", z3.Implies(on(S0, c), xeq(xnum(r), VNum(e[0] - S0["Environment._offset"], z3.IntVal(0))))),
                ("inf-otherwise", z3.Implies(z3.And(z3.Not(on(S0, c)), status(S0, c) != code("standby")), xnum(r).kz() == 1))]


class ScheduledPriority(P):
    qual = "Component.scheduled_priority"
    params = dict(self=("ref", "Component"))
    suspends = False

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        e = entry(S0, c)
        if isinstance(r, VNone):
            return [("none-only-if-not-pending", z3.Not(on(S0, c)))]
        return [("of-pending-event", z3.And(on(S0, c), xeq(xnum(r), VNum(e[1], e[2]))))]

    def loops(self, L):
        c = L.args["self"].e
        if L.it is not None and "i" in L.ghost:
            return [("not-found-yet", lambda S, g: forall(j_, z3.Implies(z3.And(0 <= j_, j_ < g["i"]), col(S, "3")[j_] != c), col(S, "3")[j_]))]
        return []


class Remaining(P):
    qual = "Component.remaining_duration"
    params = dict(self=("ref", "Component"), value="none")
    suspends = False
    props = ("C02", "C17")

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        s = status(S0, c)
        sc = sched(S0, c)
        r = xnum(r)
        return [("scheduled", z3.Implies(isin(s, "scheduled", "requesting", "waiting"), xeq(r, VNum(sc.real() - now(S0), sc.kz())))),
                ("passive-or-interrupted", z3.Implies(isin(s, "passive", "interrupted"), xeq(r, remain(S0, c)))),
                ("none", z3.Implies(isin(s, "current", "data", "standby"), xeq(r, VNum(z3.RealVal(0), z3.IntVal(0)))))]


class RemainingSet(P):
    qual = "Component.remaining_duration/set"
    params = dict(self=("ref", "Component"), value="xreal", priority="xreal", urgent="bool")
    modifies = PLAN + SBM + SCHED + ["Environment._seq"] + INTR[:2]
    props = ("C02", "C17")

    def requires(self, eng, S, a):
        v = xnum(a["value"])
        s = status(S, a["self"].e)
        return INV(S) + [("not-negative", z3.And(v.kz() >= 0, v.real() >= 0)), ("status", isin(s, "scheduled", "requesting", "waiting", "passive", "interrupted", "current", "data", "standby"))]

    def raises(self, eng, S, a):
        return [("ValueError", isin(status(S, a["self"].e), "current", "data", "standby"))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return Contract.exc_ensures(self, eng, S0, S1, a, exc)

    def suspend_cond(self, S, a):
        return super().suspend_cond(S, a)

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        s = status(S0, c)
        v = xnum(a["value"])
        p = isin(s, "passive", "interrupted")
        t = VNum(now(S0) + v.real(), v.kz())
        return ([("remaining", z3.Implies(p, z3.And(xeq(remain(S1, c), v), on(S1, c) == on(S0, c))))]
                + [(x, z3.Implies(z3.Not(p), f)) for x, f in planned(S0, S1, c, t, xnum(a["priority"]), a["urgent"].b)]
                + others(S0, S1, c) + standby_same(S0, S1) + only(S0, S1, c, "Component._on_event_list", *(SCHED + INTR[:2])) + INV(S1, pre="INV."))


class InterruptLevel(P):
    qual = "Component.interrupt_level"
    params = dict(self=("ref", "Component"))
    suspends = False
    props = ("C17",)

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        return [("level", r.e == z3.If(status(S0, c) == code("interrupted"), S0["Component._interrupt_level"][c], z3.IntVal(0)))]


class InterruptedStatus(P):
    qual = "Component.interrupted_status"
    params = dict(self=("ref", "Component"))
    suspends = False
    props = ("C17",)

    def raises(self, eng, S, a):
        return [("ValueError", status(S, a["self"].e) != code("interrupted"))]

    def ensures(self, eng, S0, S1, a, r):
        return [("scheduled", r.e == code("scheduled"))]


class IsStatus(P):
    suspends = False
    params = dict(self=("ref", "Component"))

    def ensures(self, eng, S0, S1, a, r):
        return [("status", r.b == (status(S0, a["self"].e) == code(self.of)))]


def isstatus():
    return [type("Is_" + s, (IsStatus,), dict(qual="Component.is" + s, of=s)) for s in ("passive", "current", "requesting", "waiting", "scheduled", "standby", "interrupted", "data")]


class Step(P):
    qual = "Environment.step"
    params = dict(self="env")
    modifies = PLAN + SBM + SCHED + [STATUS, "Component._failed", "Environment._now", "Environment._current_component", "Environment.running"]
    props = ("C01", "C21")

    def requires(self, eng, S, a):
        return INV(S) + [("no-ui", z3.And(z3.Not(S["Environment._ui"]), z3.Not(S["Environment._animate"]))),
                         ("events-left-or-end", z3.Or(n(S) > 0, S["Environment.end_on_empty_eventlist"])),
                         ("main-plan", z3.Implies(n(S) == 0, z3.Not(isin(status(S, S["Environment._main"][1]), "standby", "interrupted"))))]

    def ensures(self, eng, S0, S1, a, r):
        cur0, cur = S0["Environment._current_component"][1], S1["Environment._current_component"][1]
        (n1, l1), (n2, l2) = sl(S0, 1), sl(S0, 2)
        (m1, k1), (m2, k2) = sl(S1, 1), sl(S1, 2)
        stand = z3.And(z3.Not(S0["Component._skip_standby"][cur0]), n2 > 0)
        C = cols(S0)
        main = S0["Environment._main"][1]
        ev = z3.And(z3.Not(stand), n(S0) > 0)
        none = z3.And(z3.Not(stand), n(S0) == 0)
        I = z3.Implies
        return [
            ("current", z3.And(status(S1, cur) == code("current"), z3.Not(on(S1, cur)), S1["Component._scheduled_time#k"][cur] == 1)),
            ("standby-first", I(stand, z3.And(cur == l2[0], now(S1) == now(S0)))),
            ("standby-rest", I(stand, z3.And(m1 == n1, m2 == n2 - 1, forall(i_, I(z3.And(0 <= i_, i_ < n1), k1[i_] == l1[i_]), k1[i_]),
                                             forall(i_, I(z3.And(0 <= i_, i_ < m2), k2[i_] == l2[i_ + 1]), k2[i_])))),
            ("standby-after-event", I(z3.Not(stand), z3.And(m1 == 0, m2 == n1 + n2, forall(i_, I(z3.And(0 <= i_, i_ < n2), k2[i_] == l2[i_]), k2[i_]),
                                                            forall(i_, I(z3.And(0 <= i_, i_ < n1), k2[n2 + i_] == l1[i_]), l1[i_])))),
            ("event-was-pending", I(ev, on(S0, cur))),
            ("at-its-time", I(ev, now(S1) == C[0][idx(S0, cur)])),
            ("first-event", I(ev, forall(c_, I(on(S0, c_), lt_e(C, idx(S0, cur), C, idx(S0, c_))), [on(S0, c_)]))),
            ("clock-not-backwards", now(S1) >= now(S0)),
            ("no-events-left", I(none, z3.And(cur == main, now(S1) == now(S0)))),
            ("main-ends-run", I(z3.And(z3.Not(stand), cur == main), z3.Not(S1["Environment.running"]))),
            ("others-go-on", I(z3.Or(stand, cur != main), S1["Environment.running"] == S0["Environment.running"])),
        ] + others(S0, S1, cur) + only(S0, S1, cur, STATUS, "Component._on_event_list", *SCHED) + INV(S1, pre="INV.")


class Peek(P):
    qual = "Environment.peek"
    params = dict(self="env")
    suspends = False
    props = ("C01",)

    def ensures(self, eng, S0, S1, a, r):
        r = xnum(r)
        (n2, l2) = sl(S0, 2)
        off = S0["Environment._offset"]
        at = VNum(now(S0) - off, z3.IntVal(0))
        return [("pending-standby", z3.Implies(n2 > 0, xeq(r, at))),
                ("next-event", z3.Implies(z3.And(n2 == 0, n(S0) > 0), z3.And(r.kz() == 0, forall(c_, z3.Implies(on(S0, c_), r.real() + off <= entry(S0, c_)[0]), [on(S0, c_)]),
                                                                            r.real() + off == col(S0, "0")[0]))),
                ("no-event", z3.Implies(z3.And(n2 == 0, n(S0) == 0), z3.If(S0["Environment.end_on_empty_eventlist"], xeq(r, at), r.kz() == 1)))]


class Now(P):
    qual = "Environment.now"
    params = dict(self="env")
    suspends = False
    props = ("C01",)

    def ensures(self, eng, S0, S1, a, r):
        return [("now", r.real() == now(S0) - S0["Environment._offset"])]


class RunBase(P):
    """up to the moment the main component gives control to the event loop: it is scheduled at the end of the run, after all events of that moment"""
    modifies = PLAN + SCHED + ["Environment._seq", STATUS, "Environment.running", "Environment.end_on_empty_eventlist"]
    props = ("C01",)

    def requires(self, eng, S, a):
        m = S["Environment._main"][1]
        return INV(S) + [("main-runs", z3.And(S["Environment._current_component"][1] == m, status(S, m) == code("current"), z3.Not(on(S, m)))), ("yieldless", S["Environment._yieldless"])]

    def when(self, eng, S, a):
        return HoldBase.when(self, eng, S, a)

    def cap(self, S, a):
        return S["g._default_cap_now"] if isinstance(a.get("cap_now", NONE), VNone) else a["cap_now"].b

    def raises(self, eng, S, a):
        return [("ValueError", z3.And(eng.cmp(self.when(eng, S, a), VNum(now(S)), "<"), z3.Not(self.cap(S, a))))]

    def ensures(self, eng, S0, S1, a, r):
        m = S0["Environment._main"][1]
        t = vmax(eng, self.when(eng, S0, a), VNum(now(S0), z3.IntVal(0)))
        return [("main-scheduled", status(S1, m) == code("scheduled"))] + planned(S0, S1, m, t, xnum(a["priority"]), a["urgent"].b) + others(S0, S1, m) + INV(S1, pre="INV.") + [
            ("end-on-empty", S1["Environment.end_on_empty_eventlist"] == z3.BoolVal(self.empty))]

    empty = False


class RunDuration(RunBase):
    qual = "Environment.run/duration"
    params = dict(self="env", duration="xreal", till="none", priority="xreal", urgent="bool", cap_now="none")


class RunTill(RunBase):
    qual = "Environment.run/till"
    params = dict(self="env", duration="none", till="xreal", priority="xreal", urgent="bool", cap_now="bool")


class RunAll(RunBase):
    qual = "Environment.run/all"
    params = dict(self="env", duration="none", till="none", priority="xreal", urgent="bool", cap_now="none")
    empty = True

    def when(self, eng, S, a):
        return VNum(z3.RealVal(0), z3.IntVal(1))


def make(p):
    s = ProcSession(p)
    s.add(Push, Remove, Reschedule, RescheduleDefault, CheckFail, ReleaseC, *activates(), HoldDuration, HoldTill, HoldNow, HoldInterrupted, Passivate, Standby, Interrupt, Resume, Cancel,
          Terminate, ScheduledTime, ScheduledPriority, Remaining, RemainingSet, InterruptLevel, InterruptedStatus, *isstatus(), Step, Peek, Now, RunDuration, RunTill, RunAll)
    return s
