"""C06, C07, C08: resources, claims and waiting lines (on top of the queue contracts of session queue and the plan contracts of session proc)."""
import z3
from pyvc.values import *
from pyvc.values import PyList, SymSeq, SetSeq
from pyvc.engine import Out
from pyvc.session import Session, Contract, forall, A1, A2
from .qbase import *
from . import queue as Q
from .proc import code, isin, xeq, xnum

r_, s_, k_ = z3.Int("r"), z3.Int("s"), z3.Int("k")
EPS = z3.RealVal("1/100000000")

RES_FIELDS = {
    **{k: dict(v) for k, v in QUEUE_FIELDS.items()},
    "Resource": dict(_capacity="xreal", _claimed_quantity="real", _minq="xreal", _anonymous="bool", _preemptive="bool", _honor_only_first="bool", _honor_only_highest_priority="bool",
                     _trying="bool", _requesters=("ref", "Queue", False), _claimers=("ref", "Queue", False), env="env",
                     capacity=("sub", "_CapacityMonitor"), claimed_quantity=("sub", "_SystemMonitor"), available_quantity=("sub", "_SystemMonitor"), occupancy=("sub", "_SystemMonitor")),
    "State": dict(_waiters=("ref", "Queue", False), env="env"),
    "Store": dict(_from_store_requesters=("ref", "Queue", False), _to_store_requesters=("ref", "Queue", False)),
    "g": dict(_default_cap_now="bool"),
}
RES_FIELDS["Component"].update(
    _requests=("dict", "Resource", "real"), _claims=("dict", "Resource", "real"), oneof_request="bool", _failed="bool", status=("sub", "_StatusMonitor"),
    _on_event_list="bool", _scheduled_time="xreal", _remaining_duration="xreal",
    _waits=("seq", ("tuple", ("ref", "State", False), "obj", "int")), _from_stores=("seq", ("ref", "Store", False)), _to_stores=("seq", ("ref", "Store", False)))
RES_FIELDS["Environment"].update(_yieldless="bool", _current_component=("ref", "Component", False), _seq="int", last_s0="opaque")
RES_SUBS = {
    **QUEUE_SUBS,
    "Component.status": dict(_tally="str"),
    "Resource.capacity": dict(_tally="xreal"),
    "Resource.claimed_quantity": dict(_tally="xreal"),
    "Resource.available_quantity": dict(_tally="xreal"),
    "Resource.occupancy": dict(_tally="xreal"),
}
STATUS = "Component.status._tally"
RGHOST = dict(QGHOST)
RGHOST.update({"g.total": A1(REAL), "g.alloc": A1(BOOL), "g.evt": A1(REAL), "g.evp": A1(REAL)})

isr = z3.Function("is_resource", INT, BOOL)
qkind = z3.Function("queue_kind", INT, INT)  # 0 other, 1 requesters, 2 claimers, 3 waiters of a state, 4 from_store, 5 to_store waiting line
qown = z3.Function("queue_owner", INT, INT)


def req(S, r):
    return S["Resource._requesters"][r]


def clm(S, r):
    return S["Resource._claimers"][r]


def rdom(S, c, r):
    return S["Component._requests#dom"][c][r]


def rq(S, c, r):
    return S["Component._requests"][c][r]


def cdom(S, c, r):
    return S["Component._claims#dom"][c][r]


def cl(S, c, r):
    return S["Component._claims"][c][r]


def claimed(S, r):
    return S["Resource._claimed_quantity"][r]


def capa(S, r):
    return VNum(S["Resource._capacity"][r], S["Resource._capacity#k"][r])


def minq(S, r):
    return VNum(S["Resource._minq"][r], S["Resource._minq#k"][r])


def anon(S, r):
    return S["Resource._anonymous"][r]


def total(S, r):
    return S["g.total"][r]


def status(S, c):
    return S[STATUS][c]


def on(S, c):
    return S["Component._on_event_list"][c]


def now(S):
    return S["Environment._now"]


def waits_n(S, c):
    return S["Component._waits#len"][c]


def wstate(S, c, i):
    return S["Component._waits#0"][c][i]


def waiters(S, s):
    return S["State._waiters"][s]


LINES = [("_from_stores", "_from_store_requesters", 4), ("_to_stores", "_to_store_requesters", 5)]


def link(S):
    """owners and kinds of the internal queues; the owner is determined by the queue"""
    def one(field, kind, cond=None):
        q = S[field][r_]
        return z3.And(isq(S, q), z3.Not(isStore(q)), qkind(q) == kind, qown(q) == r_, S["Queue.capacity._tally#k"][q] == 1)

    return [
        ("links", forall(r_, z3.Implies(isr(r_), z3.And(r_ > 0, one("Resource._requesters", 1), one("Resource._claimers", 2))), [req(S, r_), clm(S, r_), isr(r_)])),
        ("links-waiters", forall(r_, z3.Implies(r_ > 0, one("State._waiters", 3)), [waiters(S, r_)])),
    ] + [(f"links{f}", forall(r_, z3.Implies(r_ > 0, one("Store." + q, k)), [S["Store." + q][r_]])) for f, q, k in LINES]


def WL(S, exc=None):
    """waiting lines agree with what the components say they wait for (for every component but exc)"""
    ne = (lambda c: c != exc) if exc is not None else (lambda c: z3.BoolVal(True))
    r = [
        ("requests=requesters", forall([c_, r_], z3.Implies(z3.And(ne(c_), isr(r_)), dom(S, c_, req(S, r_)) == rdom(S, c_, r_)), [z3.MultiPattern(dom(S, c_, req(S, r_))), z3.MultiPattern(rdom(S, c_, r_), req(S, r_))])),
        ("requests-of-resources", forall([c_, r_], z3.Implies(rdom(S, c_, r_), isr(r_)), rdom(S, c_, r_))),
        ("waits-len", forall(c_, waits_n(S, c_) >= 0, waits_n(S, c_))),
        ("waits-listed", forall([c_, i_], z3.Implies(z3.And(ne(c_), 0 <= i_, i_ < waits_n(S, c_)), z3.And(wstate(S, c_, i_) > 0, dom(S, c_, waiters(S, wstate(S, c_, i_))))), wstate(S, c_, i_))),
        ("waiters-waiting", forall([c_, s_], z3.Implies(z3.And(ne(c_), s_ > 0, dom(S, c_, waiters(S, s_))), z3.And(0 <= S["g.wi"][c_][s_], S["g.wi"][c_][s_] < waits_n(S, c_), wstate(S, c_, S["g.wi"][c_][s_]) == s_)), dom(S, c_, waiters(S, s_)))),
    ]
    for f, q, k in LINES:
        n = S[f"Component.{f}#len"]
        e = S[f"Component.{f}#0"]
        line = lambda s: S["Store." + q][s]
        w = S["g.si" + f]
        r += [
            (f"{f}-len", forall(c_, n[c_] >= 0, n[c_])),
            (f"{f}-listed", forall([c_, i_], z3.Implies(z3.And(ne(c_), 0 <= i_, i_ < n[c_]), z3.And(e[c_][i_] > 0, dom(S, c_, line(e[c_][i_])), w[c_][e[c_][i_]] == i_)), e[c_][i_])),
            (f"{f}-waiting", forall([c_, s_], z3.Implies(z3.And(ne(c_), s_ > 0, dom(S, c_, line(s_))), z3.And(0 <= w[c_][s_], w[c_][s_] < n[c_], e[c_][w[c_][s_]] == s_)), dom(S, c_, line(s_)))),
        ]
    return r


RGHOST.update({"g.wi": A2(INT), "g.si_from_stores": A2(INT), "g.si_to_stores": A2(INT)})


def CL(S):
    """claims, claimers, claimed quantity and monitors agree"""
    cp, av, oc = capa(S, r_), VNum(S["Resource.available_quantity._tally"][r_], S["Resource.available_quantity._tally#k"][r_]), None
    mon = lambda f: VNum(S[f"Resource.{f}._tally"][r_], S[f"Resource.{f}._tally#k"][r_])
    fin = VNum(claimed(S, r_), z3.IntVal(0))
    return [
        ("claims=claimers", forall([c_, r_], z3.Implies(isr(r_), dom(S, c_, clm(S, r_)) == cdom(S, c_, r_)), [z3.MultiPattern(dom(S, c_, clm(S, r_))), z3.MultiPattern(cdom(S, c_, r_), clm(S, r_))])),
        ("claims-positive", forall([c_, r_], z3.Implies(cdom(S, c_, r_), z3.And(isr(r_), z3.Not(anon(S, r_)), cl(S, c_, r_) > 0)), cdom(S, c_, r_))),
        ("requests-positive", forall([c_, r_], z3.Implies(z3.And(rdom(S, c_, r_), z3.Not(anon(S, r_))), rq(S, c_, r_) > 0), rdom(S, c_, r_))),
        ("claimed=sum", forall(r_, z3.Implies(z3.And(isr(r_), z3.Not(anon(S, r_))), z3.And(claimed(S, r_) >= total(S, r_), z3.Implies(ln(S, clm(S, r_)) == 0, claimed(S, r_) == 0))), [claimed(S, r_), total(S, r_)])),
        ("capacity-monitor", forall(r_, z3.Implies(isr(r_), z3.And(cp.k >= -1, cp.k <= 1, xeq(mon("capacity"), cp))), [mon("capacity").e, cp.e])),
        ("claimed-monitor", forall(r_, z3.Implies(isr(r_), xeq(mon("claimed_quantity"), fin)), [mon("claimed_quantity").e])),
        ("available-monitor", forall(r_, z3.Implies(isr(r_), xeq(mon("available_quantity"), VNum(cp.e - claimed(S, r_), cp.k))), [mon("available_quantity").e])),
        ("occupancy-monitor", forall(r_, z3.Implies(isr(r_), z3.And(mon("occupancy").k == 0, mon("occupancy").e == z3.If(z3.Or(cp.k < 0, z3.And(cp.k == 0, cp.e <= 0)), z3.RealVal(0), z3.If(cp.k > 0, z3.RealVal(0), claimed(S, r_) / cp.e)))), [mon("occupancy").e])),
    ]


class RSession(QSession):
    name = "res"
    fields = RES_FIELDS
    sub_fields = RES_SUBS
    extra_maps = RGHOST
    noeffect = {"set_mode"}
    assumptions = (
        "the queue operations (enter, leave, priority, membership, indexing) satisfy the contracts proved in session queue; the waiting lines and claimers queues are internal queues with infinite capacity",
        "Component._remove and Component._reschedule satisfy the contracts proved in session proc (restated here on the plan only)",
        "a newly created Qmember is distinct from every Qmember that exists or existed",
        "Monitor.tally on a level monitor sets the current value",
        "quantities of requests of non-anonymous resources are positive; the sum of claims is over a finite set of components (updated by the difference at every change of one claim; zero when there is no claim)",
    )

    def __init__(self, p):
        super().__init__(p)
        self.sub_methods = dict(self.sub_methods)
        self.sub_methods[("Component.status", "tally")] = self.h_status
        self.sub_methods[("Component.status", "__call__")] = lambda eng, sub, args, kw, st: eng.ok(VStr(st[STATUS][sub.owner]), st)

    def h_status(self, eng, sub, args, kw, st):
        eng.write(st, STATUS, "str", sub.owner, args[0])
        return eng.ok(NONE, st)

    def construct(self, eng, name, args, kw, st):
        return super().construct(eng, name, args, kw, st)

    def assume_type(self, eng, v, st):
        if isinstance(v, VRef) and v.cls == "Resource":
            st.assume(z3.Implies(v.e > 0, isr(v.e)))

    def background(self, eng, st):
        r = super().background(eng, st)
        r.append(st["Environment._current_component"][1] > 0)
        return r

    # the sum of all claims of a resource follows every change of a claim
    def claim_changed(self, eng, st, c, r, old_dom, old, new_dom, new):
        t = st["g.total"]
        st["g.total"] = z3.Store(t, r, t[r] - z3.If(old_dom, old, z3.RealVal(0)) + z3.If(new_dom, new, z3.RealVal(0)))
        w = eng.fresh("claimant", INT)
        st.assume(z3.Or(st["g.total"][r] == 0, cdom(st, w, r)))

    def dict_changed(self, eng, o, st, i, old):
        if o.key == "Component._claims":
            self.claim_changed(eng, st, o.owner, i.e, cdom(old, o.owner, i.e), cl(old, o.owner, i.e), cdom(st, o.owner, i.e), cl(st, o.owner, i.e))

    def dict_cleared(self, eng, key, st, owner):
        if key == "Component._claims":
            raise Unsupported("all claims dropped at once")
        if key == "Component._requests":
            st["g.epoch"] = z3.Store(st["g.epoch"], owner, st["g.epoch"][owner] + 1)


def GL(S):
    return GI(S) + link(S)


class CheckFail(Contract):
    qual = "Component._check_fail"
    params = dict(self=("ref", "Component"))
    modifies = LEAVE_MAPS + ["Component._failed", "Component._requests#dom", "Component._requests", "Component._waits#len", "Component._waits#0", "Component._waits#1", "Component._waits#2",
                             "Component._from_stores#len", "Component._from_stores#0", "Component._to_stores#len", "Component._to_stores#0", "Resource._minq", "Resource._minq#k", "g.wi", "g.epoch",
                             "g.si_from_stores", "g.si_to_stores"]
    props = ("C08",)

    def requires(self, eng, S, a):
        return GL(S) + WL(S)

    def waiting(self, S, c):
        w = z3.Int("w")
        return z3.Or(z3.Exists([w], rdom(S, c, w)), waits_n(S, c) > 0, S["Component._from_stores#len"][c] > 0, S["Component._to_stores#len"][c] > 0)

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        out = [
            ("no-requests", forall(r_, z3.Not(rdom(S1, c, r_)), rdom(S1, c, r_))),
            ("no-waits", z3.And(waits_n(S1, c) == 0, S1["Component._from_stores#len"][c] == 0, S1["Component._to_stores#len"][c] == 0)),
            ("in-no-requesters", forall(r_, z3.Implies(isr(r_), z3.Not(dom(S1, c, req(S1, r_)))), req(S1, r_))),
            ("in-no-waiters", forall(s_, z3.Implies(s_ > 0, z3.Not(dom(S1, c, waiters(S1, s_)))), waiters(S1, s_))),
        ]
        for f, q, k in LINES:
            out.append((f"in-no{f}", forall(s_, z3.Implies(s_ > 0, z3.Not(dom(S1, c, S1["Store." + q][s_]))), S1["Store." + q][s_])))
        out += [
            ("failed", z3.Implies(self.waiting(S0, c), S1["Component._failed"][c])),
            ("not-failed-kept", z3.Implies(z3.Not(self.waiting(S0, c)), S1["Component._failed"] == S0["Component._failed"])),
            ("other-failed-kept", forall(c_, z3.Implies(c_ != c, S1["Component._failed"][c_] == S0["Component._failed"][c_]), S1["Component._failed"][c_])),
            ("other-members-kept", forall([c_, q_], z3.Implies(c_ != c, dom(S1, c_, q_) == dom(S0, c_, q_)), dom(S1, c_, q_))),
            ("other-queues-kept", forall(q_, z3.Implies(z3.Or(qkind(q_) == 0, qkind(q_) == 2), dom(S1, c, q_) == dom(S0, c, q_)), dom(S1, c, q_))),
            ("other-requests-kept", forall([c_, r_], z3.Implies(c_ != c, z3.And(rdom(S1, c_, r_) == rdom(S0, c_, r_), rq(S1, c_, r_) == rq(S0, c_, r_))), rdom(S1, c_, r_))),
        ]
        return out + [("GI." + x, f) for x, f in GI(S1)] + [("WL." + x, f) for x, f in WL(S1)]

    def loops(self, L):
        pre, c = L.entry, L.args["self"].e
        out = []
        for x, _ in GI(pre):
            out.append(("GI." + x, lambda S, g, x=x: dict(GI(S))[x]))
        for x, _ in WL(pre, exc=c):
            out.append(("WL." + x, lambda S, g, x=x: dict(WL(S, exc=c))[x]))
        out.append(("other-members", lambda S, g: forall([c_, q_], z3.Implies(c_ != c, dom(S, c_, q_) == dom(pre, c_, q_)), dom(S, c_, q_))))
        if "vis" in L.ghost:
            vis = lambda g, q: z3.And(qkind(q) == 1, req(pre, qown(q)) == q, g["vis"][qown(q)])
            out.append(("left-visited", lambda S, g: forall(q_, dom(S, c, q_) == z3.And(dom(pre, c, q_), z3.Not(vis(g, q_))), [dom(S, c, q_)])))
        elif "i" in L.ghost:
            e = lambda S, i: L.it.seq.elem(i)
            el = L.it.seq.elem(z3.Int("zz"))
            if isinstance(el, VTuple):
                line = lambda i: waiters(pre, L.it.seq.elem(i).items[0].e)
                out.append(("left", lambda S, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), z3.Not(dom(S, c, line(i_)))), line(i_))))
                out.append(("stay", lambda S, g: forall(q_, z3.Implies(qkind(q_) != 3, dom(S, c, q_) == dom(pre, c, q_)), [dom(S, c, q_)])))
                out.append(("not-more", lambda S, g: forall(q_, z3.Implies(dom(S, c, q_), dom(pre, c, q_)), [dom(S, c, q_)])))
            else:
                for f, q, k in LINES:
                    w = pre["g.si" + f]
                    lefts = lambda g, q__, f=f, q=q, k=k, w=w: z3.And(qkind(q__) == k, qown(q__) > 0, pre["Store." + q][qown(q__)] == q__, w[c][qown(q__)] < g["i"])
                    out.append(("left" + f, lambda S, g, lefts=lefts: forall(q_, dom(S, c, q_) == z3.And(dom(pre, c, q_), z3.Not(lefts(g, q_))), [dom(S, c, q_)])))
        return out



def MQ(S, exc=None):
    """the lowest waiting quantity is a lower bound"""
    ne = (lambda c: c != exc) if exc is not None else (lambda c: z3.BoolVal(True))
    m = minq(S, r_)
    return [("minq-lower-bound", forall([c_, r_], z3.Implies(z3.And(ne(c_), rdom(S, c_, r_)), z3.And(dom(S, c_, req(S, r_)), ln(S, req(S, r_)) >= 1, m.k <= 0, z3.Implies(m.k == 0, m.e <= rq(S, c_, r_)))), rdom(S, c_, r_)))]


def ALL(S):
    return GI(S) + link(S) + WL(S) + CL(S) + MQ(S)


def INVS(S, exc=None):
    return GI(S) + WL(S, exc) + CL(S) + MQ(S, exc)


# ------------------------------------------------------------------ reading
class Read(Contract):
    params = dict(self=("ref", "Component"), resource=("ref", "Resource"))
    props = ("C06",)

    def requires(self, eng, S, a):
        return ALL(S)


class ClaimedQuantity(Read):
    qual = "Component.claimed_quantity"

    def val(self, S, a):
        return z3.If(cdom(S, a["self"].e, a["resource"].e), cl(S, a["self"].e, a["resource"].e), z3.RealVal(0))

    def result(self, eng, S0, S1, a):
        return VNum(self.val(S0, a))

    def ensures(self, eng, S0, S1, a, r):
        return [("claimed", r.real() == self.val(S0, a))]


class RequestedQuantity(ClaimedQuantity):
    qual = "Component.requested_quantity"

    def val(self, S, a):
        return z3.If(rdom(S, a["self"].e, a["resource"].e), rq(S, a["self"].e, a["resource"].e), z3.RealVal(0))


class IsClaiming(Read):
    qual = "Component.isclaiming"

    def result(self, eng, S0, S1, a):
        return VBool(dom(S0, a["self"].e, clm(S0, a["resource"].e)))

    def ensures(self, eng, S0, S1, a, r):
        x = eng.truth(r, S1)
        return [("claiming", x == dom(S0, a["self"].e, clm(S0, a["resource"].e))),
                ("claiming-iff-positive", x == z3.And(cdom(S0, a["self"].e, a["resource"].e), cl(S0, a["self"].e, a["resource"].e) > 0))]


class IsBumped(IsClaiming):
    qual = "Component.isbumped"

    def result(self, eng, S0, S1, a):
        return VBool(z3.Not(dom(S0, a["self"].e, clm(S0, a["resource"].e))))

    def ensures(self, eng, S0, S1, a, r):
        return [("bumped", eng.truth(r, S1) == z3.Not(dom(S0, a["self"].e, clm(S0, a["resource"].e))))]


class Failed(Read):
    qual = "Component.failed"
    params = dict(self=("ref", "Component"))
    props = ("C08",)

    def ensures(self, eng, S0, S1, a, r):
        return [("failed", eng.truth(r, S1) == S0["Component._failed"][a["self"].e])]


# ------------------------------------------------------------------ honoring
def fits(S, c, r):
    """the requested quantity fits (with the tolerance of the code)"""
    q, cp = rq(S, c, r), capa(S, r)
    room = z3.Or(cp.k > 0, z3.And(cp.k == 0, q <= cp.e - claimed(S, r) + EPS))
    return z3.If(q > 0, room, -q <= claimed(S, r) + EPS)


def allowed(S, c, r):
    """not held back by honor_only_first / honor_only_highest_priority"""
    q = req(S, r)
    first = at(S, q, 1)
    return z3.And(z3.Implies(S["Resource._honor_only_first"][r], comp(S, first) == c),
                  z3.Implies(S["Resource._honor_only_highest_priority"][r], prio(S, qm(S, c, q)) == prio(S, first)))


def ok(S, c, r):
    return z3.And(fits(S, c, r), allowed(S, c, r))


class HonorAll(Contract):
    qual = "Component.honor_all"
    params = dict(self=("ref", "Component"))
    props = ("C06", "C07")

    def requires(self, eng, S, a):
        return ALL(S)

    def can(self, S, c):
        return forall(r_, z3.Implies(rdom(S, c, r_), ok(S, c, r_)), rdom(S, c, r_))

    def result(self, eng, S0, S1, a):
        d = eng.fresh("honored", z3.ArraySort(INT, BOOL))
        return eng.new_list(S1, SetSeq(d, "Resource"))

    def pats(self, r, S, i, *more):
        x = S.objs[r.loc]
        return list(more) + ([x.dom[i]] if isinstance(x, SetSeq) else [])

    def dom_of(self, eng, r, S):
        x = S.objs[r.loc]
        if isinstance(x, SetSeq):
            return lambda i: x.dom[i]
        if isinstance(x, PyList):
            return lambda i: z3.Or([i == y.e for y in x.items] or [z3.BoolVal(False)])
        raise Unsupported("result of honor_all")

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        d = self.dom_of(eng, r, S1)
        P = self.pats(r, S1, r_, rdom(S0, c, r_))
        return [
            ("all-that-is-asked", z3.Implies(self.can(S0, c), forall(r_, d(r_) == rdom(S0, c, r_), P))),
            ("or-nothing", z3.Implies(z3.Not(self.can(S0, c)), forall(r_, z3.Not(d(r_)), P))),
            ("only-asked", forall(r_, z3.Implies(d(r_), rdom(S0, c, r_)), P)),
        ]

    def loops(self, L):
        c = L.args["self"].e
        if "vis" not in L.ghost:
            return []
        return [("visited-ok", lambda S, g: forall(r_, z3.Implies(g["vis"][r_], ok(L.pre, c, r_)), [g["vis"][r_]])),
                ("visited-not-ok", lambda S, g: forall(r_, z3.Implies(g["vis"][r_], z3.Not(ok(L.pre, c, r_))), [g["vis"][r_]]))]


class HonorAny(HonorAll):
    qual = "Component.honor_any"

    def can(self, S, c):
        w = z3.Int("w")
        return z3.Exists([w], z3.And(rdom(S, c, w), ok(S, c, w)))

    def result(self, eng, S0, S1, a):
        e = eng.fresh("honored1", INT)
        some = eng.fresh("some", BOOL)
        d = eng.fresh("honored", z3.ArraySort(INT, BOOL))
        S1.assume(forall(r_, d[r_] == z3.And(some, r_ == e), d[r_]))
        return eng.new_list(S1, SetSeq(d, "Resource"))

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        d = self.dom_of(eng, r, S1)
        x, u, v = z3.Int("x2"), eng.fresh("u", INT), eng.fresh("v", INT)
        return [
            ("only-what-fits", forall(r_, z3.Implies(d(r_), z3.And(rdom(S0, c, r_), ok(S0, c, r_))), self.pats(r, S1, r_, rdom(S0, c, r_)))),
            ("at-most-one", z3.Implies(z3.And(d(u), d(v)), u == v)),
            ("one-if-possible", z3.Implies(self.can(S0, c), z3.Exists([x], d(x)))),
        ]



# ------------------------------------------------------------------ granting
PLANM = ["Component._on_event_list", "Component._scheduled_time", "Component._scheduled_time#k"]
RMON = [f"Resource.{f}._tally{k}" for f in ("claimed_quantity", "available_quantity", "occupancy") for k in ("", "#k")]
TRYM = sorted(set(LEAVE_MAPS + INS_MAPS)) + PLANM + RMON + ["g.alloc", "g.total", "g.epoch", STATUS, "Component._requests#dom", "Component._claims#dom", "Component._claims",
                                                             "Resource._claimed_quantity", "Resource._minq", "Resource._minq#k", "g.evt"]


def epoch(S, c):
    return S["g.epoch"][c]


def alloc(S, n):
    return S["g.alloc"][n]


def AL(S):
    return [("allocated", forall(n_, z3.Implies(own(S, n_) != 0, alloc(S, n_)), own(S, n_)))]


def nodes_kept(S0, S1):
    """nodes of waiting lines stay where they are, in the same order, or are detached for good"""
    live = lambda n: z3.And(own(S0, n) != 0, qkind(own(S0, n)) == 1)
    return [
        ("nodes-kept-or-detached", forall(n_, z3.Implies(live(n_), z3.Or(z3.And(own(S1, n_) == 0, comp(S1, n_) == 0), z3.And(own(S1, n_) == own(S0, n_), prio(S1, n_) == prio(S0, n_), comp(S1, n_) == comp(S0, n_)))),
                                         [own(S1, n_), comp(S1, n_), prio(S1, n_)])),
        ("sentinels-kept", forall(n_, z3.Implies(z3.And(live(n_), z3.Or(pos(S0, n_) == 0, pos(S0, n_) == ln(S0, own(S0, n_)) + 1)), own(S1, n_) == own(S0, n_)), [own(S1, n_)])),
        ("detached-stay-detached", forall(n_, z3.Implies(z3.And(alloc(S0, n_), own(S0, n_) == 0), z3.And(own(S1, n_) == 0, z3.Implies(comp(S0, n_) == 0, comp(S1, n_) == 0))), [own(S1, n_), comp(S1, n_)])),
        ("no-new-in-lines", forall(n_, z3.Implies(z3.And(own(S1, n_) != 0, qkind(own(S1, n_)) == 1), own(S0, n_) == own(S1, n_)), [own(S1, n_)])),
        ("allocated-kept", forall(n_, z3.Implies(alloc(S0, n_), alloc(S1, n_)), [alloc(S1, n_)])),
        ("order-kept", forall([a_, b_], z3.Implies(z3.And(own(S1, a_) != 0, own(S1, a_) == own(S1, b_), qkind(own(S1, a_)) == 1, pos(S0, a_) < pos(S0, b_)), pos(S1, a_) < pos(S1, b_)),
                              z3.MultiPattern(pos(S1, a_), pos(S1, b_)))),
    ]


def TR(S0, S1, touched=None, rtouched=None):
    """what honoring requests may do: every component is left as it was, or (once) its complete waiting request is honored now"""
    same = lambda c: epoch(S1, c) == epoch(S0, c)
    hon = lambda c: epoch(S1, c) == epoch(S0, c) + 1
    T = z3.BoolVal(True)
    un = (lambda c, r: z3.Not(touched(c, r))) if touched is not None else (lambda c, r: T)  # claims that are not given back
    ur = (lambda r: z3.Not(rtouched(r))) if rtouched is not None else (lambda r: T)
    P = lambda c: [epoch(S1, c), status(S1, c), on(S1, c)]
    w = z3.Int("w")
    out = [
        ("kept-or-honored", forall(c_, z3.Or(same(c_), hon(c_)), P(c_))),
        ("kept-requests", forall([c_, r_], z3.Implies(same(c_), z3.And(rdom(S1, c_, r_) == rdom(S0, c_, r_))), [rdom(S1, c_, r_)])),
        ("kept-plan", forall(c_, z3.Implies(same(c_), z3.And(status(S1, c_) == status(S0, c_), on(S1, c_) == on(S0, c_), S1["Component._scheduled_time"][c_] == S0["Component._scheduled_time"][c_],
                                                              S1["Component._scheduled_time#k"][c_] == S0["Component._scheduled_time#k"][c_])), P(c_))),
        ("kept-claims", forall([c_, r_], z3.Implies(z3.And(un(c_, r_), same(c_)), z3.And(cdom(S1, c_, r_) == cdom(S0, c_, r_), cl(S1, c_, r_) == cl(S0, c_, r_))), [cdom(S1, c_, r_), cl(S1, c_, r_)])),
        ("honored-now", forall(c_, z3.Implies(hon(c_), z3.And(status(S0, c_) != code("interrupted"), status(S1, c_) == code("scheduled"), on(S1, c_), S1["Component._scheduled_time"][c_] == now(S0),
                                                              S1["Component._scheduled_time#k"][c_] == 0)), P(c_))),
        ("honored-requested", forall(c_, z3.Implies(hon(c_), z3.Exists([w], rdom(S0, c_, w))), epoch(S1, c_))),
        ("honored-done", forall([c_, r_], z3.Implies(hon(c_), z3.Not(rdom(S1, c_, r_))), [rdom(S1, c_, r_)])),
        ("other-lines-kept", forall([c_, q_], z3.Implies(z3.And(qkind(q_) != 1, qkind(q_) != 2), dom(S1, c_, q_) == dom(S0, c_, q_)), [dom(S1, c_, q_)])),
        ("claims-grow", forall([c_, r_], z3.Implies(z3.And(un(c_, r_), cdom(S0, c_, r_)), z3.And(cdom(S1, c_, r_), cl(S1, c_, r_) >= cl(S0, c_, r_))), [cdom(S1, c_, r_), cl(S1, c_, r_)])),
        ("never-over-capacity", forall(r_, z3.Implies(isr(r_), z3.Or(claimed(S1, r_) <= claimed(S0, r_), capa(S0, r_).k > 0, z3.And(capa(S0, r_).k == 0, claimed(S1, r_) <= capa(S0, r_).e + EPS))), [claimed(S1, r_)])),
        ("anonymous-not-below-zero", forall(r_, z3.Implies(z3.And(ur(r_), isr(r_)), z3.Or(claimed(S1, r_) >= claimed(S0, r_), z3.And(anon(S0, r_), claimed(S1, r_) >= -EPS))), [claimed(S1, r_)])),
        ("sum-in-step", forall(r_, z3.Implies(z3.And(isr(r_), z3.Not(anon(S0, r_)), ur(r_)), claimed(S1, r_) - total(S1, r_) == claimed(S0, r_) - total(S0, r_)), [claimed(S1, r_), total(S1, r_)])),
    ]
    return out + nodes_kept(S0, S1)


def nocur(S):
    """the current component is not waiting for a resource"""
    c = S["Environment._current_component"][1]
    return [("current-not-waiting", forall(r_, z3.Not(rdom(S, c, r_)), rdom(S, c, r_)))]


def honors(S, c):
    return z3.And(status(S, c) != code("interrupted"),
                  z3.If(S["Component.oneof_request"][c], HonorAny.can(None, S, c), z3.And(HonorAll.can(None, S, c), z3.Exists([z3.Int("w")], rdom(S, c, z3.Int("w"))))))


class TryRequest(Contract):
    qual = "Component._tryrequest"
    params = dict(self=("ref", "Component"))
    modifies = TRYM
    suspends = True
    props = ("C06", "C07", "C08")

    def requires(self, eng, S, a):
        cur = S["Environment._current_component"][1]
        return ALL(S) + AL(S) + [("current-waits-only-here", forall(r_, z3.Implies(rdom(S, cur, r_), cur == a["self"].e), rdom(S, cur, r_)))]

    def suspend_cond(self, S, a):
        return z3.And(S["Environment._yieldless"], a["self"].e == S["Environment._current_component"][1])

    def branches(self, eng, pre, a):
        c = self.suspend_cond(pre, a)
        return [dict(cond=z3.Or(z3.Not(c), z3.Not(honors(pre, a["self"].e)))), dict(cond=z3.And(c, honors(pre, a["self"].e)), kind="suspend")]

    def result(self, eng, S0, S1, a):
        return VBool(honors(S0, a["self"].e))

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        h = honors(S0, c)
        x = z3.Int("x2")
        H = lambda r_: z3.And(rdom(S0, c, r_), z3.Not(anon(S0, r_)))
        out = []
        if not isinstance(r, VNone):
            out.append(("returns-honored", eng.truth(r, S1) == h))
        inc = lambda rr: z3.If(cdom(S1, c, rr), cl(S1, c, rr), z3.RealVal(0)) - z3.If(cdom(S0, c, rr), cl(S0, c, rr), z3.RealVal(0))
        out += [
            ("honored-iff-possible", epoch(S1, c) == epoch(S0, c) + z3.If(h, z3.IntVal(1), z3.IntVal(0))),
            ("nothing-if-not-possible", z3.Implies(z3.Not(h), z3.And([S1[m] == S0[m] for m in TRYM]))),
            ("granted-completely", z3.Implies(z3.And(h, z3.Not(S0["Component.oneof_request"][c])),
                                              forall(r_, z3.Implies(z3.Not(anon(S0, r_)), inc(r_) == z3.If(rdom(S0, c, r_), rq(S0, c, r_), z3.RealVal(0))), [cdom(S1, c, r_)]))),
            ("granted-one", z3.Implies(z3.And(h, S0["Component.oneof_request"][c]),
                                       forall(r_, z3.Implies(z3.Not(anon(S0, r_)), z3.Or(inc(r_) == 0, z3.And(rdom(S0, c, r_), ok(S0, c, r_), inc(r_) == rq(S0, c, r_)))), [cdom(S1, c, r_)]))),
        ]
        return out + TR(S0, S1) + INVS(S1) + AL(S1)

    def loops(self, L):
        E, c = L.entry, L.args["self"].e
        out = []
        d = None
        for k, v in L.head.env.items():
            if isinstance(v, VList) and isinstance(L.head.objs.get(v.loc), SetSeq) and L.head.objs[v.loc].cls == "Resource":
                d = L.head.objs[v.loc].dom
        lists = [(k, v) for k, v in L.head.env.items() if isinstance(v, VList) and v.loc in L.mod_objs]
        for x, _ in GI(E):
            out.append(("GI." + x, lambda S, g, x=x: dict(GI(S))[x]))
        for x, _ in CL(E):
            out.append(("CL." + x, lambda S, g, x=x: dict(CL(S))[x]))
        out.append(("AL", lambda S, g: AL(S)[0][1]))
        if "vis" in L.ghost:
            for x, _ in WL(E, c):
                out.append(("WL." + x, lambda S, g, x=x: dict(WL(S, exc=c))[x]))
            out.append(("MQ", lambda S, g: MQ(S, exc=c)[0][1]))
            for x, _ in nodes_kept(E, E):
                out.append((x, lambda S, g, x=x: dict(nodes_kept(E, S))[x]))
            vis = lambda g, q: z3.And(qkind(q) == 1, req(E, qown(q)) == q, g["vis"][qown(q)])
            out += [
                ("left-visited", lambda S, g: forall(q_, z3.Implies(qkind(q_) != 2, dom(S, c, q_) == z3.And(dom(E, c, q_), z3.Not(vis(g, q_)))), [dom(S, c, q_)])),
                ("others-lines", lambda S, g: forall([c_, q_], z3.Implies(c_ != c, dom(S, c_, q_) == dom(E, c_, q_)), [dom(S, c_, q_)])),
                ("others-claims", lambda S, g: forall([c_, r_], z3.Implies(c_ != c, z3.And(cdom(S, c_, r_) == cdom(E, c_, r_), cl(S, c_, r_) == cl(E, c_, r_))), [cdom(S, c_, r_)])),
            ]
            if d is not None:
                got = lambda g, rr: z3.And(g["vis"][rr], d[rr])
                q = lambda rr: rq(E, c, rr)
                zero = z3.RealVal(0)
                out += [
                    ("claimed", lambda S, g: forall(r_, claimed(S, r_) == claimed(E, r_) + z3.If(got(g, r_), q(r_), zero), [claimed(S, r_)])),
                    ("total", lambda S, g: forall(r_, total(S, r_) == total(E, r_) + z3.If(z3.And(got(g, r_), z3.Not(anon(E, r_))), q(r_), zero), [total(S, r_)])),
                    ("cdom", lambda S, g: forall(r_, cdom(S, c, r_) == z3.Or(cdom(E, c, r_), z3.And(got(g, r_), z3.Not(anon(E, r_)))), [cdom(S, c, r_)])),
                    ("cl", lambda S, g: forall(r_, z3.Implies(cdom(S, c, r_), cl(S, c, r_) == z3.If(cdom(E, c, r_), cl(E, c, r_), zero) + z3.If(got(g, r_), q(r_), zero)), [cdom(S, c, r_)])),
                ]
            for k, v in lists:
                def allres(S, g, k=k):
                    x = S.objs[S.env[k].loc]
                    if isinstance(x, PyList):
                        return z3.And([isr(y.e) for y in x.items])
                    e = x.elem(i_).e
                    return forall(i_, z3.Implies(z3.And(0 <= i_, i_ < x.n), z3.And(e > 0, isr(e))), e if z3.is_select(e) else None)
                out.append((f"resources({k})", allres))
        else:
            for x, _ in WL(E):
                out.append(("WL." + x, lambda S, g, x=x: dict(WL(S))[x]))
            out.append(("MQ", lambda S, g: MQ(S)[0][1]))
            for x, _ in TR(E, E):
                out.append(("TR." + x, lambda S, g, x=x: dict(TR(E, S))[x]))
        return out


class ResTryRequest(Contract):
    qual = "Resource._tryrequest"
    params = dict(self=("ref", "Resource"))
    modifies = TRYM
    props = ("C06", "C07", "C08")

    def requires(self, eng, S, a):
        return ALL(S) + AL(S) + nocur(S)

    def ensures(self, eng, S0, S1, a, r):
        return TR(S0, S1) + INVS(S1) + AL(S1) + nocur(S1)

    def loops(self, L):
        E = L.pre
        q = req(E, L.args["self"].e)
        out = []
        for x, _ in INVS(E) + AL(E):
            out.append(("I." + x, lambda S, g, x=x: dict(INVS(S) + AL(S))[x]))
        out.append(("nocur", lambda S, g: nocur(S)[0][1]))
        for x, _ in TR(E, E):
            out.append(("TR." + x, lambda S, g, x=x: dict(TR(E, S))[x]))
        for k, v in L.head.env.items():
            if isinstance(v, VRef) and v.cls == "Qmember" and k in L.mod_vars:
                out.append((f"{k}-in-line", lambda S, g, k=k: z3.And(S.env[k].e > 0, own(S, S.env[k].e) == q, pos(S, S.env[k].e) >= 1)))
                out.append((f"{k}-not-detached", lambda S, g, k=k: z3.Or(own(S, S.env[k].e) == q)))
        return out


# ------------------------------------------------------------------ giving back
def gap(S, r):
    return claimed(S, r) - total(S, r)


class Release_(Contract):
    """Component._release: gives back (at most) q of the claim; then waiting requests are honored (unless bumped)"""

    qual = "Component._release"
    any_args = ("s0",)
    params = dict(self=("ref", "Component"), r=("ref", "Resource"), q="real", s0="none", bumped_by="none")
    modifies = TRYM
    props = ("C06",)
    verify = False

    def requires(self, eng, S, a):
        q = [("quantity-not-negative", a["q"].real() >= 0)] if not isinstance(a.get("q", NONE), VNone) else []
        return ALL(S) + AL(S) + nocur(S) + q

    def raises(self, eng, S, a):
        return [("ValueError", z3.Not(cdom(S, a["self"].e, a["r"].e)))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return [("nothing-changed", z3.And([S1[m] == S0[m] for m in TRYM]))]

    def exc_effect(self, eng, pre, st, a, exc):
        return None

    def ensures(self, eng, S0, S1, a, r):
        c, R = a["self"].e, a["r"].e
        full = isinstance(a.get("q", NONE), VNone)
        old = cl(S0, c, R)
        q = old if full else z3.If(a["q"].real() > old, old, a["q"].real())
        rest = old - q
        same = epoch(S1, c) == epoch(S0, c)
        out = [
            ("claim-reduced", z3.Implies(same, z3.And(cdom(S1, c, R) == (rest >= EPS), z3.Implies(rest >= EPS, cl(S1, c, R) == rest)))),
            ("remaining-claim-kept", z3.Implies(rest >= EPS, z3.And(cdom(S1, c, R), cl(S1, c, R) >= rest))),
            ("sum-not-above-claimed", z3.Implies(z3.Not(anon(S0, R)), gap(S1, R) >= 0)),
            ("sum-drift", z3.Implies(z3.Not(anon(S0, R)), gap(S1, R) <= gap(S0, R) + (rest if not full else 0))),
            ("sum-drift-tolerance", z3.Implies(z3.And(z3.Not(anon(S0, R)), rest >= EPS), gap(S1, R) <= gap(S0, R))),
        ]
        if isinstance(a.get("bumped_by", NONE), VRef):
            # bumped: nobody else is honored by this
            out += [("nothing-honored", z3.And(S1["g.epoch"] == S0["g.epoch"], S1[STATUS] == S0[STATUS]))]
        return out + TR(S0, S1, lambda cc, rr: z3.And(cc == c, rr == R), lambda rr: rr == R) + INVS(S1) + AL(S1) + nocur(S1)


class ReleaseSome(Release_):
    qual = "Component._release/some"
    verify = True


class ReleaseFull(Release_):
    qual = "Component._release/full"
    params = dict(self=("ref", "Component"), r=("ref", "Resource"), q="none", s0="none", bumped_by="none")
    verify = True


class ReleaseBumped(Release_):
    qual = "Component._release/bumped"
    params = dict(self=("ref", "Component"), r=("ref", "Resource"), q="none", s0="none", bumped_by=("ref", "Component"))
    verify = True


class ReleaseOne(Release_):
    """Component.release(r)"""

    qual = "Component.release/one"
    verify = True

    def make_args(self, eng, st):
        r = self.s.sym(eng, "r", ("ref", "Resource"), st)
        return dict(self=self.s.sym(eng, "self", ("ref", "Component"), st), args=VTuple([self.spec(eng, st, r)]))

    def spec(self, eng, st, r):
        return r

    def rq(self, a):
        x = a["args"].items[0]
        if isinstance(x, VTuple):
            return dict(self=a["self"], r=x.items[0], q=x.items[1])
        return dict(self=a["self"], r=x, q=NONE)

    def requires(self, eng, S, a):
        return super().requires(eng, S, self.rq(a))

    def raises(self, eng, S, a):
        b = self.rq(a)
        return [("ValueError", z3.Or(anon(S, b["r"].e), z3.Not(cdom(S, b["self"].e, b["r"].e))))]

    def ensures(self, eng, S0, S1, a, r):
        return super().ensures(eng, S0, S1, self.rq(a), r)


class ReleasePair(ReleaseOne):
    """Component.release((r, q))"""

    qual = "Component.release/pair"

    def spec(self, eng, st, r):
        return VTuple([r, self.s.sym(eng, "q", "real", st)])


class ReleaseAll(Contract):
    """Component.release(): everything the component claims"""

    qual = "Component.release/all"
    params = dict(self=("ref", "Component"))
    modifies = TRYM
    props = ("C06",)

    def make_args(self, eng, st):
        return dict(self=self.s.sym(eng, "self", ("ref", "Component"), st), args=VTuple([]))

    def requires(self, eng, S, a):
        return ALL(S) + AL(S) + nocur(S)

    def rel(self, S0, S1, c):
        return TR(S0, S1, lambda cc, rr: z3.And(cc == c, cdom(S0, c, rr)), lambda rr: cdom(S0, c, rr)) + [
            ("drift", forall(r_, z3.Implies(z3.And(isr(r_), z3.Not(anon(S0, r_))), gap(S1, r_) <= gap(S0, r_)), [claimed(S1, r_), total(S1, r_)]))]

    def ensures(self, eng, S0, S1, a, r):
        c = a["self"].e
        same = epoch(S1, c) == epoch(S0, c)
        return [("no-claims-left", z3.Implies(same, forall(r_, z3.Not(cdom(S1, c, r_)), cdom(S1, c, r_))))] + self.rel(S0, S1, c) + INVS(S1) + AL(S1) + nocur(S1)

    def loops(self, L):
        E, c = L.entry, L.args["self"].e
        out = []
        for x, _ in INVS(E) + AL(E) + nocur(E):
            out.append(("I." + x, lambda S, g, x=x: dict(INVS(S) + AL(S) + nocur(S))[x]))
        for x, _ in self.rel(E, E, c):
            out.append(("R." + x, lambda S, g, x=x: dict(self.rel(E, S, c))[x]))
        if "vis" in L.ghost:
            out.append(("visited-gone", lambda S, g: forall(r_, z3.Implies(z3.And(g["vis"][r_], epoch(S, c) == epoch(E, c)), z3.Not(cdom(S, c, r_))), [cdom(S, c, r_), g["vis"][r_]])))
            out.append(("unvisited-kept", lambda S, g: forall(r_, z3.Implies(z3.And(cdom(E, c, r_), z3.Not(g["vis"][r_])), cdom(S, c, r_)), [cdom(S, c, r_), cdom(E, c, r_)])))
        return out


class ResRelease(Contract):
    """Resource.release of an anonymous resource"""

    qual = "Resource.release"
    params = dict(self=("ref", "Resource"), quantity="real")
    modifies = TRYM
    props = ("C06", "C07")

    def requires(self, eng, S, a):
        q = [("quantity-not-negative", a["quantity"].real() >= 0)] if not isinstance(a["quantity"], VNone) else []
        return ALL(S) + AL(S) + nocur(S) + [("anonymous", anon(S, a["self"].e))] + q

    def ensures(self, eng, S0, S1, a, r):
        R = a["self"].e
        out = [("not-more-than-claimed", claimed(S1, R) >= -EPS)] if not isinstance(a["quantity"], VNone) else []
        tr = [(x, f) for x, f in TR(S0, S1, None, lambda rr: rr == R) if x not in ("never-over-capacity",)]
        out += [("never-over-capacity", forall(r_, z3.Implies(isr(r_), z3.Or(claimed(S1, r_) <= claimed(S0, r_), claimed(S1, r_) <= 0, capa(S0, r_).k > 0, z3.And(capa(S0, r_).k == 0, claimed(S1, r_) <= capa(S0, r_).e + EPS))), [claimed(S1, r_)]))]
        return out + tr + INVS(S1) + AL(S1) + nocur(S1)


class ResReleaseAll(ResRelease):
    qual = "Resource.release/all"
    params = dict(self=("ref", "Resource"), quantity="none")


class ResReleaseClaims(Contract):
    """Resource.release of a non-anonymous resource: all claims at that moment are given back"""

    qual = "Resource.release/claims"
    params = dict(self=("ref", "Resource"), quantity="none")
    modifies = TRYM
    props = ("C06",)

    def requires(self, eng, S, a):
        return ALL(S) + AL(S) + nocur(S) + [("not-anonymous", z3.Not(anon(S, a["self"].e)))]

    def rel(self, S0, S1, R):
        return TR(S0, S1, lambda cc, rr: z3.And(rr == R, cdom(S0, cc, R)), lambda rr: rr == R)

    def ensures(self, eng, S0, S1, a, r):
        R = a["self"].e
        same = lambda c: epoch(S1, c) == epoch(S0, c)
        return [("claims-given-back", forall(c_, z3.Implies(same(c_), z3.Not(cdom(S1, c_, R))), [cdom(S1, c_, R)]))] + self.rel(S0, S1, R) + INVS(S1) + AL(S1) + nocur(S1)

    def loops(self, L):
        E, R = L.pre, L.args["self"].e
        out = []
        for x, _ in INVS(E) + AL(E) + nocur(E):
            out.append(("I." + x, lambda S, g, x=x: dict(INVS(S) + AL(S) + nocur(S))[x]))
        for x, _ in self.rel(E, E, R):
            out.append(("R." + x, lambda S, g, x=x: dict(self.rel(E, S, R))[x]))
        if "i" in L.ghost:
            seq = L.it.seq
            cc = lambda i: at(E, clm(E, R), i + 1)
            out.append(("done", lambda S, g: forall(c_, z3.Implies(z3.And(dom(E, c_, clm(E, R)), pos(E, qm(E, c_, clm(E, R))) <= g["i"], epoch(S, c_) == epoch(E, c_)), z3.Not(cdom(S, c_, R))), [cdom(S, c_, R)])))
            out.append(("to-do", lambda S, g: forall(c_, z3.Implies(z3.And(dom(E, c_, clm(E, R)), pos(E, qm(E, c_, clm(E, R))) > g["i"]), z3.And(cdom(S, c_, R), cl(S, c_, R) >= cl(E, c_, R))), [cdom(S, c_, R)])))
            out.append(("to-do-exact", lambda S, g: forall(c_, z3.Implies(z3.And(dom(E, c_, clm(E, R)), pos(E, qm(E, c_, clm(E, R))) > g["i"], epoch(S, c_) == epoch(E, c_)), cl(S, c_, R) == cl(E, c_, R)), [cdom(S, c_, R)])))
        return out


class SetCapacity(Contract):
    qual = "Resource.set_capacity"
    params = dict(self=("ref", "Resource"), cap="xreal")
    modifies = TRYM + ["Resource._capacity", "Resource._capacity#k", "Resource.capacity._tally", "Resource.capacity._tally#k"]
    props = ("C06", "C07")

    def requires(self, eng, S, a):
        return ALL(S) + AL(S) + nocur(S)

    def ensures(self, eng, S0, S1, a, r):
        R = a["self"].e
        v = xnum(a["cap"])
        out = [("capacity", xeq(capa(S1, R), v)), ("capacity-monitor-set", xeq(VNum(S1["Resource.capacity._tally"][R], S1["Resource.capacity._tally#k"][R]), v)),
               ("other-capacities", forall(r_, z3.Implies(r_ != R, xeq(capa(S1, r_), capa(S0, r_))), [capa(S1, r_).e]))]
        tr = [(x, f) for x, f in TR(S0, S1) if x not in ("never-over-capacity",)]
        out += [("never-over-capacity", forall(r_, z3.Implies(isr(r_), z3.Or(claimed(S1, r_) <= claimed(S0, r_), capa(S1, r_).k > 0, z3.And(capa(S1, r_).k == 0, claimed(S1, r_) <= capa(S1, r_).e + EPS))), [claimed(S1, r_)]))]
        return out + tr + INVS(S1) + AL(S1) + nocur(S1)


# ------------------------------------------------------------------ plan contracts (proved in session proc, restated on the plan)
class PRemove(Contract):
    qual = "Component._remove"
    params = dict(self=("ref", "Component"))
    modifies = ["Component._on_event_list"]
    verify = False

    def ensures(self, eng, S0, S1, a, r):
        return [("removed", S1["Component._on_event_list"] == z3.Store(S0["Component._on_event_list"], a["self"].e, z3.BoolVal(False)))]


class PReschedule(Contract):
    qual = "Component._reschedule"
    any_args = ("s0", "extra", "caller")
    params = dict(self=("ref", "Component"), scheduled_time="xreal", priority="xreal", urgent="bool", caller="opaque", cap_now="bool", switch="bool")
    modifies = PLANM
    suspends = True
    verify = False

    def requires(self, eng, S, a):
        c = a["self"].e
        return [("not-pending", z3.Not(on(S, c))), ("status", isin(status(S, c), "scheduled", "requesting", "waiting"))]

    def cap(self, S, a):
        return S["g._default_cap_now"] if isinstance(a["cap_now"], VNone) else a["cap_now"].b

    def raises(self, eng, S, a):
        return [("ValueError", z3.And(eng.cmp(xnum(a["scheduled_time"]), VNum(now(S)), "<"), z3.Not(self.cap(S, a))))]

    def branches(self, eng, pre, a):
        sw = a["switch"].b if "switch" in a else z3.BoolVal(True)
        c = z3.And(sw, pre["Environment._yieldless"], a["self"].e == pre["Environment._current_component"][1])
        return [dict(cond=z3.Not(c)), dict(cond=c, kind="suspend")]

    def ensures(self, eng, S0, S1, a, r):
        from .proc import vmax
        c = a["self"].e
        t = vmax(eng, xnum(a["scheduled_time"]), VNum(now(S0), z3.IntVal(0)))
        return [("pending", S1["Component._on_event_list"] == z3.Store(S0["Component._on_event_list"], c, t.kz() == 0)),
                ("time", S1["Component._scheduled_time"] == z3.Store(S0["Component._scheduled_time"], c, t.real())),
                ("time-k", S1["Component._scheduled_time#k"] == z3.Store(S0["Component._scheduled_time#k"], c, t.kz()))]


class PSwitch(Contract):
    qual = "Component._switch"
    params = dict(self=("ref", "Component"))
    suspends = True
    verify = False

    def branches(self, eng, pre, a):
        c = z3.And(pre["Environment._yieldless"], a["self"].e == pre["Environment._current_component"][1])
        return [dict(cond=z3.Not(c)), dict(cond=c, kind="suspend")]


class REnterSorted(EnterSorted):
    """as proved in session queue; the node is new"""

    verify = False
    modifies = INS_MAPS + ["g.alloc"]

    def ensures(self, eng, S0, S1, a, r):
        n = qm(S1, a["self"].e, a["q"].e)
        return super().ensures(eng, S0, S1, a, r) + [("new-node", z3.And(z3.Not(alloc(S0, n)), S1["g.alloc"] == z3.Store(S0["g.alloc"], n, z3.BoolVal(True))))]


class REnter(Enter):
    verify = False
    modifies = INS_MAPS + ["g.alloc"]

    def ensures(self, eng, S0, S1, a, r):
        n = qm(S1, a["self"].e, a["q"].e)
        return super().ensures(eng, S0, S1, a, r) + [("new-node", z3.And(z3.Not(alloc(S0, n)), S1["g.alloc"] == z3.Store(S0["g.alloc"], n, z3.BoolVal(True))))]


PLANC = [PRemove, PReschedule, PSwitch, REnterSorted, REnter]
RGHOST.update({"g.epoch": A1(INT)})
TARGETS = [CheckFail, ClaimedQuantity, RequestedQuantity, IsClaiming, IsBumped, Failed, HonorAll, HonorAny, TryRequest, ResTryRequest, Release_, ReleaseSome, ReleaseFull, ReleaseBumped, ReleaseOne, ReleasePair, ReleaseAll, ResRelease, ResReleaseAll, ResReleaseClaims, SetCapacity]


class PriorityGet(Contract):
    """Component.priority(q) without a new priority: proved in session queue (no change, returns the priority)"""

    qual = "Component.priority"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"), priority="none")
    verify = False

    def requires(self, eng, S, a):
        return GI(S) + [("queue", isq(S, a["q"].e))]

    def raises(self, eng, S, a):
        return [("ValueError", z3.Not(dom(S, a["self"].e, a["q"].e)))]

    def result(self, eng, S0, S1, a):
        return VNum(prio(S0, qm(S0, a["self"].e, a["q"].e)))

def make(p):
    s = RSession(p)
    s.add(*QCORE)
    for c in (Q.Contains, Q.Len, Q.GetItem, PriorityGet):
        s.add(c)
    s.add(*PLANC)
    for c in s.contracts.values():
        c.verify = False
        c.props = ()
    s.add(*TARGETS)
    return s
