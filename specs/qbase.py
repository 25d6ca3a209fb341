"""Heap typing, representation invariant and contracts of the queue core (linked list of Qmembers)."""
import z3
from pyvc.values import *
from pyvc.engine import Out
from pyvc.session import Session, Contract, forall, A1, A2, FALSE1

n_, i_, q_, c_, x_, a_, b_, j_ = [z3.Int(v) for v in ("n", "i", "q", "c", "x", "a", "b", "j")]

QUEUE_FIELDS = {
    "Qmember": dict(successor=("ref", "Qmember"), predecessor=("ref", "Qmember"), priority="real", component=("ref", "Component"),
                    queue=("ref", "Queue"), enter_time="real"),
    "Queue": dict(_head=("ref", "Qmember", False), _tail=("ref", "Qmember", False), _length="int", _isinternal="bool", env="env",
                  number_of_arrivals="int", number_of_departures="int", number_of_arrivals_t0="real", number_of_departures_t0="real",
                  _iter_touched=("special", "touched"), _iter_sequence="int",
                  capacity=("sub", "_CapacityMonitor"), available_quantity=("sub", "_SystemMonitor"), length=("sub", "_SystemMonitor"),
                  length_of_stay=("sub", "Monitor")),
    "Component": dict(_qmembers=("dict", "Queue", ("ref", "Qmember")), env="env"),
    "Environment": dict(_now="real", _offset="real", _trace="bool"),
}
QUEUE_SUBS = {
    "Queue.capacity": dict(_tally="xreal"),
    "Queue.available_quantity": dict(_tally="xreal"),
    "Queue.length": dict(_tally="xreal"),
    "Queue.length_of_stay": dict(_last="real", _cnt="int"),
}
QGHOST = {"g.own": A1(INT), "g.pos": A1(INT), "g.at": A2(INT), "g.isq": A1(BOOL)}
LIST_MAPS = ["Qmember.successor", "Qmember.predecessor", "Qmember.priority", "Qmember.component", "Qmember.queue", "Qmember.enter_time",
             "Queue._length", "Component._qmembers#dom", "Component._qmembers", "g.own", "g.pos", "g.at"]
STAT_MAPS = ["Queue.available_quantity._tally", "Queue.available_quantity._tally#k", "Queue.length._tally", "Queue.length._tally#k"]
INS_MAPS = LIST_MAPS + STAT_MAPS + ["Queue.number_of_arrivals"]
LEAVE_MAPS = LIST_MAPS + STAT_MAPS + ["Queue.number_of_departures", "Queue.length_of_stay._last", "Queue.length_of_stay._cnt"]


def own(S, n):
    return S["g.own"][n]


def pos(S, n):
    return S["g.pos"][n]


def at(S, q, i):
    return S["g.at"][q][i]


def ln(S, q):
    return S["Queue._length"][q]


def prio(S, n):
    return S["Qmember.priority"][n]


def comp(S, n):
    return S["Qmember.component"][n]


def succ(S, n):
    return S["Qmember.successor"][n]


def pred(S, n):
    return S["Qmember.predecessor"][n]


def dom(S, c, q):
    return S["Component._qmembers#dom"][c][q]


def qm(S, c, q):
    return S["Component._qmembers"][c][q]


def head(S, q):
    return S["Queue._head"][q]


def tail(S, q):
    return S["Queue._tail"][q]


def isq(S, q):
    return S["g.isq"][q]


isStore = z3.Function("isinstance_Store", INT, BOOL)


def cap(S, q):
    return VNum(S["Queue.capacity._tally"][q], S["Queue.capacity._tally#k"][q])


def avail(S, q):
    return VNum(S["Queue.available_quantity._tally"][q], S["Queue.available_quantity._tally#k"][q])


def GI_struct(S):
    """representation invariant of all queues"""
    L = ln
    return [
        ("ends", forall(q_, z3.Implies(isq(S, q_), z3.And(q_ > 0, L(S, q_) >= 0, at(S, q_, 0) == head(S, q_), at(S, q_, L(S, q_) + 1) == tail(S, q_))),
                        [head(S, q_), tail(S, q_), L(S, q_), isq(S, q_)])),
        ("positions", forall([q_, i_], z3.Implies(z3.And(isq(S, q_), 0 <= i_, i_ <= L(S, q_) + 1),
                                                  z3.And(at(S, q_, i_) > 0, own(S, at(S, q_, i_)) == q_, pos(S, at(S, q_, i_)) == i_)), at(S, q_, i_))),
        ("owned", forall(n_, z3.Implies(own(S, n_) != 0, z3.And(n_ > 0, isq(S, own(S, n_)), 0 <= pos(S, n_), pos(S, n_) <= L(S, own(S, n_)) + 1,
                                                                at(S, own(S, n_), pos(S, n_)) == n_)), own(S, n_))),
        ("successor", forall(n_, z3.Implies(z3.And(own(S, n_) != 0, pos(S, n_) <= L(S, own(S, n_))), succ(S, n_) == at(S, own(S, n_), pos(S, n_) + 1)), succ(S, n_))),
        ("predecessor", forall(n_, z3.Implies(z3.And(own(S, n_) != 0, pos(S, n_) >= 1), pred(S, n_) == at(S, own(S, n_), pos(S, n_) - 1)), pred(S, n_))),
        ("interior", forall(n_, z3.Implies(z3.And(own(S, n_) != 0, 1 <= pos(S, n_), pos(S, n_) <= L(S, own(S, n_))),
                                           z3.And(comp(S, n_) > 0, dom(S, comp(S, n_), own(S, n_)), qm(S, comp(S, n_), own(S, n_)) == n_, S["Qmember.queue"][n_] == own(S, n_))),
                            [comp(S, n_), own(S, n_)])),
        ("sentinels", forall(n_, z3.Implies(z3.And(own(S, n_) != 0, z3.Or(pos(S, n_) == 0, pos(S, n_) == L(S, own(S, n_)) + 1)), comp(S, n_) == 0), [comp(S, n_), own(S, n_)])),
        ("membership", forall([c_, q_], z3.Implies(dom(S, c_, q_), z3.And(c_ > 0, isq(S, q_), qm(S, c_, q_) > 0, own(S, qm(S, c_, q_)) == q_, comp(S, qm(S, c_, q_)) == c_,
                                                                         1 <= pos(S, qm(S, c_, q_)), pos(S, qm(S, c_, q_)) <= L(S, q_))), dom(S, c_, q_))),
    ]


def GI_sorted(S):
    return [("sorted", forall([q_, i_, j_], z3.Implies(z3.And(isq(S, q_), 1 <= i_, i_ < j_, j_ <= ln(S, q_)),
                                                       prio(S, at(S, q_, i_)) <= prio(S, at(S, q_, j_))),
                              z3.MultiPattern(at(S, q_, i_), at(S, q_, j_))))]


def GI_stats(S):
    """length monitor and available quantity agree with the list"""
    av, cp = avail(S, q_), cap(S, q_)
    return [
        ("length-monitor", forall(q_, z3.Implies(isq(S, q_), z3.And(S["Queue.length._tally"][q_] == z3.ToReal(ln(S, q_)), S["Queue.length._tally#k"][q_] == 0)),
                                  [S["Queue.length._tally"][q_], S["Queue.length._tally#k"][q_]])),
        ("available-quantity", forall(q_, z3.Implies(isq(S, q_), z3.And(cp.k >= -1, cp.k <= 1, av.k == cp.k, z3.Implies(cp.k == 0, av.e == cp.e - z3.ToReal(ln(S, q_))))), [av.e, av.k])),
    ]


def GI(S, pre=""):
    return [(pre + n, f) for n, f in GI_struct(S) + GI_sorted(S) + GI_stats(S)]


class QSession(Session):
    fields = QUEUE_FIELDS
    sub_fields = QUEUE_SUBS
    extra_maps = QGHOST

    def __init__(self, p):
        super().__init__(p)
        self.sub_methods = {("*", "tally"): self.h_tally, ("Queue.length_of_stay", "tally"): self.h_los}

    def h_tally(self, eng, sub, args, kw, st):
        """contract of Monitor.tally on a level monitor (proved in session monitor): the current value becomes the argument"""
        eng.write(st, f"{sub.prefix}._tally", "xreal", sub.owner, args[0])
        eng.used_contracts.add("Monitor.tally (session monitor)")
        return eng.ok(NONE, st)

    def h_los(self, eng, sub, args, kw, st):
        """contract of Monitor.tally on a non-level monitor: one more entry, with the given value"""
        eng.write(st, "Queue.length_of_stay._last", "real", sub.owner, args[0])
        cur = st["Queue.length_of_stay._cnt"]
        st["Queue.length_of_stay._cnt"] = z3.Store(cur, sub.owner, cur[sub.owner] + 1)
        eng.used_contracts.add("Monitor.tally (session monitor)")
        return eng.ok(NONE, st)

    def construct(self, eng, name, args, kw, st):
        if name == "Qmember":
            e = eng.fresh("newnode", INT)
            st.assume(z3.And(e > 0, st["g.own"][e] == 0))
            for p in [v for k, v in st.notes.items() if k.startswith("new:")]:
                st.assume(e != p)
            st.notes[f"new:{e}"] = e
            return eng.ok(VRef(e, "Qmember", False), st)
        return None

    def iter_of(self, eng, v, st):
        if isinstance(v, VRef) and self.p.issub(v.cls, "Queue"):
            S = st.fork()
            q = v.e
            from pyvc.values import SymSeq

            seq = SymSeq(ln(S, q), lambda i: VRef(comp(S, at(S, q, i + 1)), "Component", False))
            return eng.ok(VIter("seq", seq=seq, desc=("queue", q), live=v), st)
        if isinstance(v, VField) and v.kind == ("special", "touched"):
            return eng.ok(VIter("static", items=[]), st)
        return None

    def getitem(self, eng, v, i, st):
        if isinstance(v, VField) and v.kind == ("special", "touched"):
            # nothing is inserted between two yields (assumption of the __iter__ contract), so the flag is still False
            return eng.ok(VBool(False), st)
        return None

    def delitem(self, eng, o, i, st):
        if isinstance(o, VField) and o.kind == ("special", "touched"):
            return [Out("ok", None, st)]
        return None

    def setitem(self, eng, o, i, v, st):
        if isinstance(o, VField) and o.kind == ("special", "touched"):
            return [Out("ok", None, st)]
        return None

    def write_special(self, eng, st, key, kind, owner, v):
        if kind[1] == "touched":
            return
        raise Unsupported(key)

    def set_hint(self, eng, it, d, st):
        if it.desc[0] == "queue":
            q = it.desc[1]
            i = pos(st, qm(st, c_, q)) - 1
            st.assume(forall(c_, z3.Implies(z3.And(0 <= i, i < it.seq.n), d[it.seq.elem(i).e]), dom(st, c_, q)))

    def check_live(self, eng, it, h, s):
        if isinstance(it.live, VRef):
            # iterating a queue: the snapshot semantics of __iter__ is only used when nothing is inserted meanwhile
            q = it.live.e
            eng.oblige(s, "queue unchanged while iterating", z3.And(s["Queue._length"][q] == h["Queue._length"][q], s["g.at"][q] == h["g.at"][q]), kind="safety")

    def background(self, eng, st):
        r = []
        for m, a in st.heap.items():
            if m.endswith("#k") and a.sort() == A1(INT):
                r.append(forall(x_, z3.And(a[x_] >= -1, a[x_] <= 1), a[x_]))
        return r


def node_cands(L, S, v, qs, nums, ints, others):
    """candidate invariants about a Qmember variable v = accessor(state)"""
    out = []
    for qn, q in qs:
        out += [
            (f"own({v[0]})={qn}", lambda S, g, v=v, q=q: own(S, v[1](S)) == q),
            (f"pos({v[0]})>=1", lambda S, g, v=v: pos(S, v[1](S)) >= 1),
            (f"pos({v[0]})<=len({qn})", lambda S, g, v=v, q=q: pos(S, v[1](S)) <= ln(S, q)),
            (f"pos({v[0]})<=len({qn})+1", lambda S, g, v=v, q=q: pos(S, v[1](S)) <= ln(S, q) + 1),
        ]
        for pn, P in nums:
            def rng(S, lo, hi, q=q):
                return z3.And(own(S, n_) == q, lo, hi, 1 <= pos(S, n_), pos(S, n_) <= ln(L.pre, q) if False else pos(S, n_) <= ln(S, q))

            def ex(S):
                r = z3.BoolVal(True)
                return r

            for nm, rel in (("<=", lambda a, b: a <= b), ("<", lambda a, b: a < b)):
                out.append((f"before({v[0]}) {nm} {pn}", lambda S, g, v=v, q=q, P=P, rel=rel: forall(n_, z3.Implies(
                    z3.And(own(S, n_) == q, 1 <= pos(S, n_), pos(S, n_) < pos(S, v[1](S)), *[n_ != o(S) for o in others]), rel(prio(S, n_), P(S))), own(S, n_))))
            for nm, rel in ((">", lambda a, b: a > b), (">=", lambda a, b: a >= b)):
                out.append((f"from({v[0]}) {nm} {pn}", lambda S, g, v=v, q=q, P=P, rel=rel: forall(n_, z3.Implies(
                    z3.And(own(S, n_) == q, pos(S, v[1](S)) <= pos(S, n_), pos(S, n_) <= ln(S, q), *[n_ != o(S) for o in others]), rel(prio(S, n_), P(S))), own(S, n_))))
        for xn, X in ints:
            out.append((f"pos({v[0]})={xn}+1", lambda S, g, v=v, X=X: pos(S, v[1](S)) == X(S) + 1))
            out.append((f"pos({v[0]})={xn}", lambda S, g, v=v, X=X: pos(S, v[1](S)) == X(S)))
    return out


def queue_loop_cands(L):
    """generic candidate loop invariants for loops that walk a queue; names of locals do not matter"""
    eng, h, pre = L.eng, L.head, L.pre
    out = []
    qs, nums, ints, nodes, comps = [], [], [], [], []
    seen = set()
    for k, v in h.env.items():
        if isinstance(v, VRef) and eng.p.issub(v.cls, "Queue") and k not in L.mod_vars:
            if v.e.get_id() not in seen:
                seen.add(v.e.get_id())
                qs.append((k, v.e))
        elif isinstance(v, VNum) and v.finite:
            if z3.is_int(v.e):
                ints.append((k, lambda S, k=k: S.env[k].e))
            nums.append((k, lambda S, k=k: S.env[k].real()))
        elif isinstance(v, VRef) and v.cls == "Qmember":
            nodes.append((k, lambda S, k=k: S.env[k].e, k in L.mod_vars))
    others = [f for k, f, m in nodes if not m]
    for k, f, m in nodes:
        if m:
            out += node_cands(L, h, (k, f), qs, nums, ints, others)
            for k2, f2, m2 in nodes:
                if k2 != k and not m2:
                    out.append((f"{k}!={k2}", lambda S, g, f=f, f2=f2: f(S) != f2(S)))
                    out.append((f"pos({k})<=pos({k2})", lambda S, g, f=f, f2=f2: pos(S, f(S)) <= pos(S, f2(S))))
                    out.append((f"pos({k})>=pos({k2})", lambda S, g, f=f, f2=f2: pos(S, f(S)) >= pos(S, f2(S))))
    for k, X in ints:
        if k in L.mod_vars:
            out.append((f"{k}>=0", lambda S, g, X=X: X(S) >= 0))
            for k2, Y in ints:
                if k2 not in L.mod_vars:
                    out.append((f"{k}<={k2}", lambda S, g, X=X, Y=Y: X(S) <= Y(S)))
            for qn, q in qs:
                out.append((f"{k}<=len({qn})", lambda S, g, X=X, q=q: X(S) <= ln(S, q)))
    return out


# ------------------------------------------------------------------ ghost updates
def ghost_insert(eng, S0, S1, q, node, k):
    """the sequence of q with node inserted at position k"""
    atn, posn = eng.fresh("at", A2(INT)), eng.fresh("pos", A1(INT))
    a0, p0, o0 = S0["g.at"], S0["g.pos"], S0["g.own"]
    S1.assume(forall([q_, i_], atn[q_][i_] == z3.If(q_ == q, z3.If(i_ < k, a0[q_][i_], z3.If(i_ == k, node, a0[q_][i_ - 1])), a0[q_][i_]), atn[q_][i_]))
    S1.assume(forall(n_, posn[n_] == z3.If(n_ == node, k, z3.If(z3.And(o0[n_] == q, p0[n_] >= k), p0[n_] + 1, p0[n_])), posn[n_]))
    S1["g.at"], S1["g.pos"] = atn, posn
    S1["g.own"] = z3.Store(o0, node, q)


def ghost_remove(eng, S0, S1, q, node, k):
    atn, posn = eng.fresh("at", A2(INT)), eng.fresh("pos", A1(INT))
    a0, p0, o0 = S0["g.at"], S0["g.pos"], S0["g.own"]
    S1.assume(forall([q_, i_], atn[q_][i_] == z3.If(z3.And(q_ == q, i_ >= k), a0[q_][i_ + 1], a0[q_][i_]), atn[q_][i_]))
    S1.assume(forall(n_, posn[n_] == z3.If(z3.And(o0[n_] == q, p0[n_] > k), p0[n_] - 1, p0[n_]), posn[n_]))
    S1["g.at"], S1["g.pos"] = atn, posn
    S1["g.own"] = z3.Store(o0, node, z3.IntVal(0))


def inserted(S0, S1, q, c, k, p):
    """post: exactly component c was inserted in q at position k with priority p, everything else as before"""
    n = qm(S1, c, q)
    return [
        ("length+1", ln(S1, q) == ln(S0, q) + 1),
        ("other-lengths", forall(q_, z3.Implies(q_ != q, ln(S1, q_) == ln(S0, q_)), ln(S1, q_))),
        ("member", z3.And(dom(S1, c, q), n > 0, own(S0, n) == 0, own(S1, n) == q, pos(S1, n) == k, at(S1, q, k) == n, comp(S1, n) == c)),
        ("priority", prio(S1, n) == p),
        ("enter-time", S1["Qmember.enter_time"][n] == S0["Environment._now"]),
        ("before", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), at(S1, q, i_) == at(S0, q, i_)), at(S1, q, i_))),
        ("after", forall(i_, z3.Implies(z3.And(k < i_, i_ <= ln(S1, q) + 1), at(S1, q, i_) == at(S0, q, i_ - 1)), at(S1, q, i_))),
        ("other-queues", forall([q_, i_], z3.Implies(z3.And(isq(S0, q_), q_ != q, 0 <= i_, i_ <= ln(S0, q_) + 1), at(S1, q_, i_) == at(S0, q_, i_)), at(S1, q_, i_))),
        ("other-members", forall([c_, q_], z3.Implies(z3.Not(z3.And(c_ == c, q_ == q)), z3.And(dom(S1, c_, q_) == dom(S0, c_, q_), qm(S1, c_, q_) == qm(S0, c_, q_))), [dom(S1, c_, q_), qm(S1, c_, q_)])),
        ("node-data-kept", forall(n_, z3.Implies(n_ != n, z3.And(own(S1, n_) == own(S0, n_), comp(S1, n_) == comp(S0, n_), prio(S1, n_) == prio(S0, n_),
                                                               S1["Qmember.enter_time"][n_] == S0["Qmember.enter_time"][n_])), [own(S1, n_), comp(S1, n_), prio(S1, n_)])),
        ("arrivals", S1["Queue.number_of_arrivals"] == z3.Store(S0["Queue.number_of_arrivals"], q, S0["Queue.number_of_arrivals"][q] + 1)),
    ]


def left(S0, S1, q, c):
    n = qm(S0, c, q)
    k = pos(S0, n)
    return [
        ("length-1", ln(S1, q) == ln(S0, q) - 1),
        ("other-lengths", forall(q_, z3.Implies(q_ != q, ln(S1, q_) == ln(S0, q_)), ln(S1, q_))),
        ("not-member", z3.And(z3.Not(dom(S1, c, q)), own(S1, n) == 0)),
        ("before", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < k), at(S1, q, i_) == at(S0, q, i_)), at(S1, q, i_))),
        ("after", forall(i_, z3.Implies(z3.And(k <= i_, i_ <= ln(S1, q) + 1), at(S1, q, i_) == at(S0, q, i_ + 1)), at(S1, q, i_))),
        ("other-queues", forall([q_, i_], z3.Implies(z3.And(isq(S0, q_), q_ != q, 0 <= i_, i_ <= ln(S0, q_) + 1), at(S1, q_, i_) == at(S0, q_, i_)), at(S1, q_, i_))),
        ("other-members", forall([c_, q_], z3.Implies(z3.Not(z3.And(c_ == c, q_ == q)), z3.And(dom(S1, c_, q_) == dom(S0, c_, q_), qm(S1, c_, q_) == qm(S0, c_, q_))), [dom(S1, c_, q_), qm(S1, c_, q_)])),
        ("node-data-kept", forall(n_, z3.Implies(n_ != n, z3.And(own(S1, n_) == own(S0, n_), comp(S1, n_) == comp(S0, n_), prio(S1, n_) == prio(S0, n_),
                                                               S1["Qmember.enter_time"][n_] == S0["Qmember.enter_time"][n_])), [own(S1, n_), comp(S1, n_), prio(S1, n_)])),
        ("departures", S1["Queue.number_of_departures"] == z3.Store(S0["Queue.number_of_departures"], q, S0["Queue.number_of_departures"][q] + 1)),
        ("length-of-stay", z3.And(S1["Queue.length_of_stay._cnt"] == z3.Store(S0["Queue.length_of_stay._cnt"], q, S0["Queue.length_of_stay._cnt"][q] + 1),
                                  S1["Queue.length_of_stay._last"][q] == S0["Environment._now"] - S0["Qmember.enter_time"][n])),
        ("length-of-stay-others", forall(q_, z3.Implies(q_ != q, S1["Queue.length_of_stay._last"][q_] == S0["Queue.length_of_stay._last"][q_]), S1["Queue.length_of_stay._last"][q_])),
        ("detached-node-unmarked", comp(S1, n) == 0),
    ]


def full(eng, S, q):
    return eng.cmp(eng.binop(__import__("ast").Sub(), cap(S, q), VNum(ln(S, q) + 1), S), VNum(0), "<")


def full_cond(S, q):
    """no room: capacity - length < 1"""
    return z3.Or(S["Queue.capacity._tally#k"][q] < 0, z3.And(S["Queue.capacity._tally#k"][q] == 0, S["Queue.capacity._tally"][q] < z3.ToReal(ln(S, q) + 1)))


# ------------------------------------------------------------------ contracts
class InsertInFrontOf(Contract):
    qual = "Qmember.insert_in_front_of"
    params = dict(self=("ref", "Qmember"), m2=("ref", "Qmember"), c=("ref", "Component"), q=("ref", "Queue"), priority="real")
    modifies = INS_MAPS
    props = ("C03", "C04", "C05")

    def requires(self, eng, S, a):
        q, m2, c, p = a["q"].e, a["m2"].e, a["c"].e, a["priority"].real()
        k = pos(S, m2)
        return GI(S) + [
            ("queue", z3.And(isq(S, q), z3.Not(isStore(q)))),
            ("fresh-node", z3.And(a["self"].e > 0, own(S, a["self"].e) == 0)),
            ("anchor", z3.And(own(S, m2) == q, k >= 1)),
            ("not-member", z3.Not(dom(S, c, q))),
            ("priority-fits", z3.And(z3.Implies(k >= 2, prio(S, at(S, q, k - 1)) <= p), z3.Implies(k <= ln(S, q), p <= prio(S, m2)))),
        ]

    def raises(self, eng, S, a):
        return [("QueueFullError", full_cond(S, a["q"].e))]

    def ghost(self, eng, S0, S1, a):
        ghost_insert(eng, S0, S1, a["q"].e, a["self"].e, pos(S0, a["m2"].e))

    def ensures(self, eng, S0, S1, a, r):
        q = a["q"].e
        k = pos(S0, a["m2"].e)
        return inserted(S0, S1, q, a["c"].e, k, a["priority"].real()) + [("node", qm(S1, a["c"].e, q) == a["self"].e)] + GI(S1, "GI.")


class CheckNotIn(Contract):
    qual = "Component._checknotinqueue"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))
    props = ("C03",)

    def raises(self, eng, S, a):
        return [("ValueError", dom(S, a["self"].e, a["q"].e))]

    def requires(self, eng, S, a):
        return GI(S)


class CheckIn(Contract):
    qual = "Component._checkinqueue"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))
    props = ("C03",)

    def requires(self, eng, S, a):
        return GI(S)

    def raises(self, eng, S, a):
        return [("ValueError", z3.Not(dom(S, a["self"].e, a["q"].e)))]

    def result(self, eng, S0, S1, a):
        return VRef(qm(S0, a["self"].e, a["q"].e), "Qmember", False)

    def ensures(self, eng, S0, S1, a, r):
        return [("member-node", r.e == qm(S0, a["self"].e, a["q"].e) if isinstance(r, VRef) else z3.BoolVal(False))]


def same_ref(r, e):
    """result is the reference e"""
    if isinstance(r, VRef):
        return r.e == e
    if isinstance(r, VNone):
        return e == 0
    return z3.BoolVal(False)


class EnterBase(Contract):
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))
    modifies = INS_MAPS
    props = ("C03", "C04", "C05")

    def requires(self, eng, S, a):
        return GI(S) + [("queue", z3.And(isq(S, a["q"].e), z3.Not(isStore(a["q"].e))))]

    def member_exc(self, eng, S, a):
        return []

    def raises(self, eng, S, a):
        me = dom(S, a["self"].e, a["q"].e)
        others = self.member_exc(eng, S, a)
        value = z3.Or([me] + others)
        return [("ValueError", value), ("QueueFullError", z3.And(z3.Not(value), full_cond(S, a["q"].e)))]

    def position(self, eng, S0, S1, a):
        raise NotImplementedError

    def prio(self, eng, S0, S1, a):
        raise NotImplementedError

    def ghost(self, eng, S0, S1, a):
        pass

    def exit_ghost(self, eng, S0, S1, a, res):
        pass

    def result(self, eng, S0, S1, a):
        return a["self"]

    def ensures(self, eng, S0, S1, a, r):
        q, c = a["q"].e, a["self"].e
        k, extra = self.position(eng, S0, S1, a)
        return inserted(S0, S1, q, c, k, self.prio(eng, S0, S1, a)) + extra + GI(S1, "GI.") + [("returns-self", same_ref(r, c))]


class Enter(EnterBase):
    qual = "Component.enter"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"), priority="real")

    def position(self, eng, S0, S1, a):
        q = a["q"].e
        p = a.get("priority", NONE)
        if isinstance(p, VNone):
            return ln(S0, q) + 1, []
        k = pos(S1, qm(S1, a["self"].e, q))
        return k, [
            ("position-range", z3.And(1 <= k, k <= ln(S0, q) + 1)),
            ("all-before-not-larger", forall(i_, z3.Implies(z3.And(1 <= i_, i_ < k), prio(S0, at(S0, q, i_)) <= p.real()), at(S0, q, i_))),
            ("all-after-larger", forall(i_, z3.Implies(z3.And(k <= i_, i_ <= ln(S0, q)), prio(S0, at(S0, q, i_)) > p.real()), at(S0, q, i_))),
        ]

    def prio(self, eng, S0, S1, a):
        p = a.get("priority", NONE)
        if isinstance(p, VNone):
            return prio(S0, at(S0, a["q"].e, ln(S0, a["q"].e)))
        return p.real()

    def loops(self, L):
        return queue_loop_cands(L)


class EnterNoPrio(Enter):
    qual = "Component.enter/none"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"), priority="none")


class EnterSorted(Enter):
    qual = "Component.enter_sorted"


class EnterAtHead(EnterBase):
    qual = "Component.enter_at_head"

    def position(self, eng, S0, S1, a):
        return z3.IntVal(1), []

    def prio(self, eng, S0, S1, a):
        return prio(S0, at(S0, a["q"].e, 1))


class EnterInFrontOf(EnterBase):
    qual = "Component.enter_in_front_of"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"), poscomponent=("ref", "Component"))

    def member_exc(self, eng, S, a):
        return [z3.Not(dom(S, a["poscomponent"].e, a["q"].e))]

    def position(self, eng, S0, S1, a):
        return pos(S0, qm(S0, a["poscomponent"].e, a["q"].e)), []

    def prio(self, eng, S0, S1, a):
        return prio(S0, qm(S0, a["poscomponent"].e, a["q"].e))


class EnterBehind(EnterInFrontOf):
    qual = "Component.enter_behind"

    def position(self, eng, S0, S1, a):
        return pos(S0, qm(S0, a["poscomponent"].e, a["q"].e)) + 1, []


class Leave(Contract):
    qual = "Component.leave"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))
    modifies = LEAVE_MAPS
    props = ("C03", "C04", "C05")

    def requires(self, eng, S, a):
        return GI(S) + [("queue", z3.And(isq(S, a["q"].e), z3.Not(isStore(a["q"].e))))]

    def raises(self, eng, S, a):
        return [("ValueError", z3.Not(dom(S, a["self"].e, a["q"].e)))]

    def ghost(self, eng, S0, S1, a):
        n = qm(S0, a["self"].e, a["q"].e)
        ghost_remove(eng, S0, S1, a["q"].e, n, pos(S0, n))

    def result(self, eng, S0, S1, a):
        return a["self"]

    def ensures(self, eng, S0, S1, a, r):
        return left(S0, S1, a["q"].e, a["self"].e) + GI(S1, "GI.") + [("returns-self", same_ref(r, a["self"].e))]


QCORE = [InsertInFrontOf, CheckNotIn, CheckIn, Enter, EnterNoPrio, EnterSorted, EnterAtHead, EnterInFrontOf, EnterBehind, Leave]
