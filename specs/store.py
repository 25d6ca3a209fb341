"""C10, C08: stores (queues whose items are handed over to waiting takers, with waiting givers when full)."""
from .res import *
from . import res as RS

SR_FIELDS = {k: dict(v) for k, v in RES_FIELDS.items()}
SR_FIELDS["Component"].update(_from_store_item=("ref", "Component", True), _from_store_store=("ref", "Store", True), _from_store_filter="obj",
                              _to_store_item=("ref", "Component", True), _to_store_store=("ref", "Store", True), _to_store_priority="real")
FILT = z3.Function("filter_accepts", INT, INT, BOOL)
KEY = z3.Function("key_of_item", INT, INT, REAL)
FM = ["Component._from_stores#len", "Component._from_stores#0"]
TOM = ["Component._to_stores#len", "Component._to_stores#0"]
GIVE = ["Component._from_store_item", "Component._from_store_store"]
HONM = sorted(set(INS_MAPS + LEAVE_MAPS)) + PLANM + [STATUS] + FM + GIVE + ["g.si_from_stores"]


class StSession(RSession):
    name = "store"
    fast_discovery = True
    fields = SR_FIELDS
    assumptions = RSession.assumptions[:4] + (
        "filters and keys given by the user are pure functions of the item",
        "an item enters a store when no giver is waiting for room in that store (there is no waiting giver while there is room), or when no waiting taker accepts it: the chain in which one departure lets several waiting items in and out again is covered by the bounded oracle only",
    )

    def __init__(self, p):
        super().__init__(p)
        av = lambda eng, sub, args, kw, st: eng.ok(avail(st, sub.owner), st)
        self.sub_methods[("Queue.available_quantity", "__call__")] = av

    def call_opaque(self, eng, fv, args, kw, st):
        if isinstance(fv, VObj) and len(args) == 1 and isinstance(args[0], VRef) and not kw:
            return eng.ok(self.apply(fv, args[0]), st)
        return super().call_opaque(eng, fv, args, kw, st)

    def apply(self, fv, x):
        if getattr(fv, "role", "filter") == "key":
            return VNum(KEY(fv.e, x.e))
        return VBool(FILT(fv.e, x.e))

    def obj_truth(self, e):
        return e != 0

    def assume_type(self, eng, v, st):
        super().assume_type(eng, v, st)
        if isinstance(v, VRef) and v.cls == "Store":
            st.assume(z3.Implies(v.e > 0, z3.And(isStore(v.e), isq(st, v.e), qkind(v.e) == 0)))

    def background(self, eng, st):
        return super().background(eng, st) + [stores(st)[0][1]]

    def seq_op(self, eng, st, field, op, **k):
        """a list of stores is replaced: the index of every store in it follows"""
        if field.key in ("Component._from_stores", "Component._to_stores") and op == "write":
            m = "g.si" + field.key.split(".")[1]
            for sq, src in k["parts"]:
                n = z3.simplify(sq.n)
                if not z3.is_int_value(n) or len(k["parts"]) != 1:
                    raise Unsupported("list of stores of unknown length")
                for i in range(n.as_long()):
                    st[m] = z3.Store(st[m], field.owner, z3.Store(st[m][field.owner], sq.elem(z3.IntVal(i)).e, z3.IntVal(i)))

    def sync(self, eng, st):
        """the list of a queue has been changed by the body being verified: the sequence follows, and the representation invariant is checked"""
        k = getattr(eng, "contract", None)
        if k is None or not hasattr(k, "pending") or "synced" in st.notes or st["Queue._length"].eq(eng.pre["Queue._length"]):
            return
        st.notes["synced"] = True
        eng.name_heap(st)
        for x, f in k.pending(eng, eng.pre, st, eng.cargs):
            eng.oblige(st, "linked." + x, f)
            st.assume(f)

    def contract_for(self, eng, qual, args, kw, st):
        if qual in ("Component.leave", "Component.enter", "Component.enter_sorted", "Qmember.insert_in_front_of"):
            q = args[3] if qual.startswith("Qmember") else (args[1] if len(args) > 1 else kw.get("q"))
            if isinstance(q, VRef) and q.cls == "Store":
                return self.contracts.get(qual + "/store")
        return self.contracts.get(qual)


def fline(S, q):
    return S["Store._from_store_requesters"][q]


def tline(S, q):
    return S["Store._to_store_requesters"][q]


def fn(S, c):
    return S["Component._from_stores#len"][c]


def fst(S, c, i):
    return S["Component._from_stores#0"][c][i]


def tn(S, c):
    return S["Component._to_stores#len"][c]


def acc(S, x, c):
    return FILT(S["Component._from_store_filter"][x], c)


def samef(S0, S1, c):
    return fn(S1, c) == fn(S0, c)


def honf(S0, S1, c):
    return z3.And(fn(S0, c) > 0, fn(S1, c) == 0)


def nocurf(S):
    return [("current-not-waiting", z3.And(fn(S, S["Environment._current_component"][1]) == 0, tn(S, S["Environment._current_component"][1]) == 0))]


def stores(S):
    return [("stores", forall(q_, z3.Implies(isStore(q_), qkind(q_) == 0), isStore(q_)))]


def INV4(S, exc=None):
    return GI(S) + WL(S, exc)


def nogiver(S, q):
    return ln(S, tline(S, q)) == 0


def inline(S, q, x):
    return z3.And(own(S, x) == fline(S, q), pos(S, x) >= 1, pos(S, x) <= ln(S, fline(S, q)))


def none_accepts(S, q, c):
    return forall(a_, z3.Implies(inline(S, q, a_), z3.Not(acc(S, comp(S, a_), c))), own(S, a_))


def TF(S0, S1, q, c):
    """putting item c in store q: every taker is left as it was, or is the first one in line that accepts c, and gets it now"""
    P = lambda x: [fn(S1, x), status(S1, x), on(S1, x)]
    n_acc = none_accepts(S0, q, c)
    return [
        ("kept-or-honored", forall(c_, z3.Or(samef(S0, S1, c_), honf(S0, S1, c_)), P(c_))),
        ("kept", forall(c_, z3.Implies(samef(S0, S1, c_), z3.And([S1[m][c_] == S0[m][c_] for m in [FM[1], STATUS, "Component._on_event_list", "Component._scheduled_time", "Component._scheduled_time#k"] + GIVE])),
                        P(c_) + [S1[m][c_] for m in GIVE])),
        ("honored-is-in-line", forall(c_, z3.Implies(honf(S0, S1, c_), z3.And(dom(S0, c_, fline(S0, q)), acc(S0, c_, c))), P(c_))),
        ("honored-gets-the-item", forall(c_, z3.Implies(honf(S0, S1, c_), z3.And(S1[GIVE[0]][c_] == c, S1[GIVE[1]][c_] == q)), P(c_))),
        ("honored-now", forall(c_, z3.Implies(honf(S0, S1, c_), z3.And(status(S1, c_) == code("scheduled"), on(S1, c_), S1["Component._scheduled_time"][c_] == now(S0), S1["Component._scheduled_time#k"][c_] == 0)), P(c_))),
        ("honored-left-all-lines", forall([c_, s_], z3.Implies(z3.And(honf(S0, S1, c_), s_ > 0), z3.Not(dom(S1, c_, fline(S1, s_)))), dom(S1, c_, fline(S1, s_)))),
        ("first-that-accepts", forall([a_, b_], z3.Implies(z3.And(inline(S0, q, a_), inline(S0, q, b_), honf(S0, S1, comp(S0, b_)), pos(S0, a_) < pos(S0, b_)), z3.Not(acc(S0, comp(S0, a_), c))), z3.MultiPattern(own(S0, a_), own(S0, b_)))),
        ("somebody-if-accepted", z3.Or(n_acc, z3.And(z3.Not(dom(S1, c, q)), ln(S1, q) == ln(S0, q)))),
        ("content-kept-if-accepted", z3.Or(n_acc, forall(i_, z3.Implies(z3.And(0 <= i_, i_ <= ln(S0, q) + 1), at(S1, q, i_) == at(S0, q, i_)), at(S1, q, i_)))),
        ("taken-at-once", forall(a_, z3.Implies(z3.And(inline(S0, q, a_), acc(S0, comp(S0, a_), c), forall(b_, z3.Implies(z3.And(inline(S0, q, b_), pos(S0, b_) < pos(S0, a_)), z3.Not(acc(S0, comp(S0, b_), c))), own(S0, b_))),
                                                honf(S0, S1, comp(S0, a_))), own(S0, a_))),
        ("other-queues", forall([c_, q_], z3.Implies(z3.And(z3.Or(c_ != c, q_ != q), z3.Or(qkind(q_) != 4, samef(S0, S1, c_))), dom(S1, c_, q_) == dom(S0, c_, q_)), dom(S1, c_, q_))),
        ("givers-kept", z3.And([S1[m] == S0[m] for m in TOM])),
    ]


class LeaveStore(Leave):
    """an item leaves a store for which no giver is waiting"""

    qual = "Component.leave/store"
    params = dict(self=("ref", "Component"), q=("ref", "Store"))
    props = ("C10",)

    def requires(self, eng, S, a):
        return GI(S) + link(S) + [("store", z3.And(isq(S, a["q"].e), isStore(a["q"].e))), ("no-giver-waiting", nogiver(S, a["q"].e))]


class InsertStore(Contract):
    qual = "Qmember.insert_in_front_of/store"
    params = dict(self=("ref", "Qmember"), m2=("ref", "Qmember"), c=("ref", "Component"), q=("ref", "Store"), priority="real")
    modifies = HONM
    props = ("C10", "C08")

    def requires(self, eng, S, a):
        q, m2, c, p = a["q"].e, a["m2"].e, a["c"].e, a["priority"].real()
        k = pos(S, m2)
        return INV4(S) + link(S) + nocurf(S) + [
            ("store", z3.And(isq(S, q), isStore(q), qkind(q) == 0)),
            ("fresh-node", z3.And(a["self"].e > 0, own(S, a["self"].e) == 0)),
            ("anchor", z3.And(own(S, m2) == q, k >= 1)),
            ("not-member", z3.Not(dom(S, c, q))),
            ("priority-fits", z3.And(z3.Implies(k >= 2, prio(S, at(S, q, k - 1)) <= p), z3.Implies(k <= ln(S, q), p <= prio(S, m2)))),
            ("no-giver-or-no-taker", z3.Or(nogiver(S, q), none_accepts(S, q, c))),
        ]

    def raises(self, eng, S, a):
        return [("QueueFullError", full_cond(S, a["q"].e))]

    def position(self, eng, S0, S1, a):
        return pos(S0, a["m2"].e), []

    def ensures(self, eng, S0, S1, a, r):
        q, c = a["q"].e, a["c"].e
        k, extra = self.position(eng, S0, S1, a)
        n_acc = none_accepts(S0, q, c)
        return [(x, z3.Implies(n_acc, f)) for x, f in inserted(S0, S1, q, c, k, a["priority"].real())] + [(x, z3.Implies(n_acc, f)) for x, f in extra] + TF(S0, S1, q, c) + INV4(S1) + nocurf(S1)

    def pending(self, eng, S0, st, a):
        q, c, k = a["q"].e, a["c"].e, pos(S0, a["m2"].e)
        ghost_insert(eng, S0, st, q, a["self"].e, k)
        eng.name_heap(st)
        return inserted(S0, st, q, c, k, a["priority"].real()) + [("node", qm(st, c, q) == a["self"].e)] + GI(st)

    def exit_ghost(self, eng, S0, S1, a, res):
        self.s.sync(eng, S1)

    def loops(self, L):
        E = L.entry
        if "i" not in L.ghost:
            return queue_loop_cands(L)
        el = L.it.seq.elem
        e0 = el(z3.IntVal(0))
        out = []
        if isinstance(e0, VRef) and e0.cls == "Component":
            c = self.item(L.args)
            out.append(("none-before", lambda S, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), z3.Not(acc(E, el(i_).e, c))), el(i_).e)))
            q, P = L.args["q"].e, L.pre
            out.append(("no-node-before", lambda S, g: forall(a_, z3.Implies(z3.And(inline(P, q, a_), pos(P, a_) <= g["i"]), z3.Not(acc(P, comp(P, a_), c))), own(P, a_))))
            return out
        if not (isinstance(e0, VRef) and e0.cls == "Store" and isinstance(L.it.live, VField)):
            return []
        x = L.it.live.owner
        for nm, _ in GI(E):
            out.append(("GI." + nm, lambda S, g, nm=nm: dict(GI(S))[nm]))
        for nm, _ in WL(E, exc=x):
            out.append(("WL." + nm, lambda S, g, nm=nm: dict(WL(S, exc=x))[nm]))
        line = lambda i: fline(E, el(i).e)
        out.append(("others", lambda S, g: forall([c_, q_], z3.Implies(c_ != x, z3.And(dom(S, c_, q_) == dom(E, c_, q_), qm(S, c_, q_) == qm(E, c_, q_))), [dom(S, c_, q_), qm(S, c_, q_)])))
        out.append(("left", lambda S, g: forall(i_, z3.Implies(z3.And(0 <= i_, i_ < g["i"]), z3.Not(dom(S, x, line(i_)))), line(i_))))
        out.append(("still", lambda S, g: forall(i_, z3.Implies(z3.And(g["i"] <= i_, i_ < L.it.seq.n), dom(S, x, line(i_))), line(i_))))
        out.append(("stay", lambda S, g: forall(q_, z3.Implies(qkind(q_) != 4, z3.And(dom(S, x, q_) == dom(E, x, q_), qm(S, x, q_) == qm(E, x, q_))), [dom(S, x, q_), qm(S, x, q_)])))
        out.append(("not-more", lambda S, g: forall(q_, z3.Implies(dom(S, x, q_), dom(E, x, q_)), dom(S, x, q_))))
        out.append(("other-queues", lambda S, g: forall([q_, i_], z3.Implies(z3.And(isq(E, q_), qkind(q_) != 4, 0 <= i_, i_ <= ln(E, q_) + 1), at(S, q_, i_) == at(E, q_, i_)), at(S, q_, i_))))
        out.append(("other-lengths", lambda S, g: forall(q_, z3.Implies(qkind(q_) != 4, ln(S, q_) == ln(E, q_)), ln(S, q_))))
        out.append(("other-nodes", lambda S, g: forall(n_, z3.Implies(z3.And(own(E, n_) != 0, qkind(own(E, n_)) != 4), z3.And(own(S, n_) == own(E, n_), comp(S, n_) == comp(E, n_), prio(S, n_) == prio(E, n_))), [own(S, n_), comp(S, n_)])))
        return out

    def item(self, a):
        return a["c"].e


class EnterStore(InsertStore):
    """Component.enter(store, priority) / enter_sorted"""

    qual = "Component.enter/store"
    params = dict(self=("ref", "Component"), q=("ref", "Store"), priority="real")
    modifies = HONM

    def requires(self, eng, S, a):
        q = a["q"].e
        return INV4(S) + link(S) + nocurf(S) + [("store", z3.And(isq(S, q), isStore(q), qkind(q) == 0)), ("no-giver-or-no-taker", z3.Or(nogiver(S, q), none_accepts(S, q, a["self"].e)))]

    def raises(self, eng, S, a):
        q = a["q"].e
        me = dom(S, a["self"].e, q)
        return [("ValueError", me), ("QueueFullError", z3.And(z3.Not(me), full_cond(S, q)))]

    def result(self, eng, S0, S1, a):
        return a["self"]

    def position(self, eng, S0, S1, a):
        q, p = a["q"].e, a["priority"].real()
        k = pos(S1, qm(S1, a["self"].e, q))
        return k, [
            ("position-range", z3.And(1 <= k, k <= ln(S0, q) + 1)),
            ("all-before-not-larger", forall(i_, z3.Implies(z3.And(1 <= i_, i_ < k), prio(S0, at(S0, q, i_)) <= p), at(S0, q, i_))),
            ("all-after-larger", forall(i_, z3.Implies(z3.And(k <= i_, i_ <= ln(S0, q)), prio(S0, at(S0, q, i_)) > p), at(S0, q, i_))),
        ]

    def item(self, a):
        return a["self"].e

    def pending(self, eng, S0, st, a):
        return []

    def ensures(self, eng, S0, S1, a, r):
        return super().ensures(eng, S0, S1, dict(a, c=a["self"]), r) + [("returns-self", same_ref(r, a["self"].e))]

    def exit_ghost(self, eng, S0, S1, a, res):
        pass


class EnterSortedStore(EnterStore):
    qual = "Component.enter_sorted/store"


GAVE = ["Component._to_store_item", "Component._to_store_store", "Component._to_store_priority"]


def room(S, q):
    return z3.Or(S["Queue.capacity._tally#k"][q] > 0, z3.And(S["Queue.capacity._tally#k"][q] == 0, S["Queue.capacity._tally"][q] > z3.ToReal(ln(S, q))))


class StoreCall(Contract):
    suspends = True
    props = ("C10", "C08")
    delay = False

    def requires(self, eng, S, a):
        c, q = a["self"].e, a["store"].e
        out = INV4(S) + link(S) + nocurf(S) + AL(S) + [("current", z3.And(c == S["Environment._current_component"][1], status(S, c) == code("current"), z3.Not(on(S, c)))),
                                              ("store", z3.And(q > 0, isq(S, q), isStore(q), qkind(q) == 0))]
        if self.delay:
            out.append(("delay", a["fail_delay"].real() >= 0))
        return out

    def branches(self, eng, pre, a):
        y = pre["Environment._yieldless"]
        return [dict(cond=z3.Not(y)), dict(cond=y, kind="suspend")]

    def planned(self, S0, S1, a):
        c = a["self"].e
        T, K = S1["Component._scheduled_time"][c], S1["Component._scheduled_time#k"][c]
        nowp = z3.And(status(S1, c) == code("scheduled"), on(S1, c), K == 0, T == now(S0))
        fail = z3.And(K == 0, T == now(S0) + a["fail_delay"].real()) if self.delay else K == 1
        return nowp, z3.And(status(S1, c) == code("requesting"), on(S1, c) == z3.BoolVal(self.delay), fail)

    def make_args(self, eng, st):
        y = lambda n, k: self.s.sym(eng, n, k, st)
        e = {k: y(k, v) for k, v in self.params.items()}
        e.update({k: y(k, "real") for k in ("request_priority", "fail_priority")})
        e["urgent"] = y("urgent", "bool")
        if self.delay:
            e["fail_delay"] = y("fail_delay", "real")
        return e


class ToStore(StoreCall):
    """the current component puts an item in one store"""

    params = dict(self=("ref", "Component"), store=("ref", "Store"), item=("ref", "Component"), priority="real")
    modifies = HONM + GAVE + TOM + ["g.alloc", "Component._failed", "g.si_to_stores"]

    def __init__(self, s, delay):
        self.qual = "Component.to_store/one" + ("/delay" if delay else "")
        self.delay = delay
        super().__init__(s)

    def requires(self, eng, S, a):
        q, y = a["store"].e, a["item"].e
        return super().requires(eng, S, a) + [("no-giver-waits-while-there-is-room", z3.Implies(room(S, q), nogiver(S, q))), ("item", z3.And(y > 0, y != a["self"].e, fn(S, y) == 0, tn(S, y) == 0)),
                                               ("whole-capacity", z3.Implies(room(S, q), z3.Not(full_cond(S, q))))]

    def raises(self, eng, S, a):
        return [("ValueError", z3.And(room(S, a["store"].e), dom(S, a["item"].e, a["store"].e)))]

    def exc_ensures(self, eng, S0, S1, a, exc):
        return [(f"unchanged({m})", S1[m] == S0[m]) for m in S1.heap if not S1[m].eq(S0[m]) and m != "Component._failed"]

    def ensures(self, eng, S0, S1, a, r):
        c, q, y = a["self"].e, a["store"].e, a["item"].e
        nowp, waitp = self.planned(S0, S1, a)
        ok = room(S0, q)
        n_acc = none_accepts(S0, q, y)
        out = [
            ("not-failed", z3.Not(S1["Component._failed"][c])),
            ("in-at-once-if-room", z3.Implies(ok, z3.And(nowp, tn(S1, c) == 0, S1[GAVE[0]][c] == 0, S1[GAVE[1]][c] == q, z3.Not(dom(S1, c, tline(S1, q)))))),
            ("in-the-store-or-taken", z3.Implies(ok, dom(S1, y, q) == n_acc)),
            ("length", z3.Implies(ok, ln(S1, q) == ln(S0, q) + z3.If(n_acc, z3.IntVal(1), z3.IntVal(0)))),
            ("waits-if-full", z3.Implies(z3.Not(ok), z3.And(waitp, tn(S1, c) == 1, S1["Component._to_stores#0"][c][0] == q, S1[GAVE[0]][c] == y, S1[GAVE[2]][c] == a["priority"].real(), dom(S1, c, tline(S1, q)), prio(S1, qm(S1, c, tline(S1, q))) == a["request_priority"].real()))),
            ("nothing-put-if-full", z3.Implies(z3.Not(ok), z3.And(ln(S1, q) == ln(S0, q), z3.And([S1[m] == S0[m] for m in FM + GIVE])))),
            ("content-kept", forall([c_, q_], z3.Implies(z3.And(isStore(q_), z3.Or(c_ != y, q_ != q)), dom(S1, c_, q_) == dom(S0, c_, q_)), dom(S1, c_, q_))),
            ("others", forall(c_, z3.Implies(z3.And(c_ != c, samef(S0, S1, c_)), z3.And([S1[m][c_] == S0[m][c_] for m in [STATUS, "Component._on_event_list", GIVE[0]] + TOM[:1]])), [fn(S1, c_), status(S1, c_), on(S1, c_)])),
        ]
        out += [(x, z3.Implies(ok, f)) for x, f in TF(S0, S1, q, y) if x in ("kept-or-honored", "honored-is-in-line", "honored-gets-the-item", "honored-now", "honored-left-all-lines", "first-that-accepts", "taken-at-once")]
        return out + [(x, f) for x, f in INV4(S1)]

    def loops(self, L):
        return []


class FromStore(StoreCall):
    """the current component takes an item from one store (no giver waiting for that store)"""

    params = dict(self=("ref", "Component"), store=("ref", "Store"), filter="obj")
    modifies = HONM + ["g.alloc", "Component._failed", "Component._from_store_filter"]

    def __init__(self, s, key, delay):
        self.qual = "Component.from_store/one" + ("/key" if key else "") + ("/delay" if delay else "")
        self.delay, self.key = delay, key
        super().__init__(s)

    def make_args(self, eng, st):
        e = super().make_args(eng, st)
        if self.key:
            e["key"] = self.s.sym(eng, "key", "obj", st)
            e["key"].role = "key"
        return e

    def requires(self, eng, S, a):
        return super().requires(eng, S, a) + [("no-giver-waits", nogiver(S, a["store"].e)), ("filter", a["filter"].e != 0)] + ([("key", a["key"].e != 0)] if self.key else [])

    def ins(self, S, a, n):
        q = a["store"].e
        return z3.And(own(S, n) == q, pos(S, n) >= 1, pos(S, n) <= ln(S, q))

    def keyed(self, v, x, a):
        if isinstance(v, VNone):
            return x == 0
        k = KEY(a["key"].e, x)
        return z3.And(v.none == (x == 0), z3.Implies(x != 0, v.v.real() == k)) if isinstance(v, VOpt) else z3.And(x != 0, v.real() == k)

    def better(self, S, a, m, n):
        """node m goes before node n"""
        if not self.key:
            return pos(S, m) < pos(S, n)
        k = a["key"].e
        return z3.Or(KEY(k, comp(S, m)) < KEY(k, comp(S, n)), z3.And(KEY(k, comp(S, m)) == KEY(k, comp(S, n)), pos(S, m) < pos(S, n)))

    def ensures(self, eng, S0, S1, a, r):
        c, q, f = a["self"].e, a["store"].e, a["filter"].e
        nowp, waitp = self.planned(S0, S1, a)
        ok = lambda n: FILT(f, comp(S0, n))
        none = forall(a_, z3.Implies(self.ins(S0, a, a_), z3.Not(ok(a_))), own(S0, a_))
        got = S1[GIVE[0]][c]
        n = qm(S0, got, q)
        fl = fline(S1, q)
        return INV4(S1) + [
            ("not-failed", z3.Not(S1["Component._failed"][c])),
            ("gets-an-item-at-once", z3.Implies(z3.Not(none), z3.And(nowp, fn(S1, c) == 0, S1[GIVE[1]][c] == q, got > 0, dom(S0, got, q), FILT(f, got), z3.Not(dom(S1, got, q)), ln(S1, q) == ln(S0, q) - 1))),
            ("the-first-one", z3.Implies(z3.Not(none), forall(a_, z3.Implies(z3.And(self.ins(S0, a, a_), ok(a_), a_ != n), self.better(S0, a, n, a_)), own(S0, a_)))),
            ("waits-if-none", z3.Implies(none, z3.And(waitp, fn(S1, c) == 1, fst(S1, c, 0) == q, got == 0, S1["Component._from_store_filter"][c] == f, dom(S1, c, fl), prio(S1, qm(S1, c, fl)) == a["request_priority"].real(), ln(S1, q) == ln(S0, q)))),
            ("content-kept", forall([c_, q_], z3.Implies(z3.And(isStore(q_), z3.Or(none, c_ != got, q_ != q)), dom(S1, c_, q_) == dom(S0, c_, q_)), dom(S1, c_, q_))),
            ("others", forall(c_, z3.Implies(c_ != c, z3.And([S1[m][c_] == S0[m][c_] for m in [STATUS, "Component._on_event_list", FM[0], "Component._from_store_filter"] + GIVE])), [fn(S1, c_), status(S1, c_), on(S1, c_)] + [S1[m][c_] for m in GIVE])),
        ]

    def loops(self, L):
        E, P, a = L.entry, L.pre, L.args
        if "i" not in L.ghost:
            return []
        e0 = L.it.seq.elem(z3.IntVal(0))
        out = []
        if not (isinstance(e0, VRef) and e0.cls == "Component"):
            return []
        f = a["filter"].e
        before = lambda g, n: z3.And(self.ins(P, a, n), pos(P, n) <= g["i"])
        out.append(("none-before", lambda S, g: forall(a_, z3.Implies(before(g, a_), z3.Not(FILT(f, comp(P, a_)))), own(P, a_))))
        for k, v in L.head.env.items():
            if isinstance(v, VRef) and v.cls == "Component" and k in L.mod_vars:
                for k3, v3 in L.head.env.items():
                    if isinstance(v3, VMaybe) and isinstance(v3.v, VRef) and v3.v.cls == "Store":
                        def store_set(S, g, k=k, k3=k3):
                            w = S.env.get(k3)
                            c, x = (z3.BoolVal(False), z3.IntVal(0)) if w is None else ((w.cond, w.v.e) if isinstance(w, VMaybe) else (z3.BoolVal(True), w.e))
                            return z3.Implies(S.env[k].e != 0 if isinstance(S.env[k], VRef) else z3.BoolVal(False), z3.And(c, x == a["store"].e))
                        out.append((f"{k3}=store", store_set))
                ev = lambda S, k=k: z3.IntVal(0) if isinstance(S.env[k], VNone) else S.env[k].e
                node = lambda S, ev=ev: qm(P, ev(S), a["store"].e)
                out.append((f"{k}-best", lambda S, g, ev=ev, node=node: z3.If(ev(S) == 0, forall(a_, z3.Implies(before(g, a_), z3.Not(FILT(f, comp(P, a_)))), own(P, a_)),
                                                                 z3.And(dom(P, ev(S), a["store"].e), before(g, node(S)), FILT(f, ev(S)),
                                                                        forall(a_, z3.Implies(z3.And(before(g, a_), FILT(f, comp(P, a_)), a_ != node(S)), self.better(P, a, node(S), a_)), own(P, a_))))))
                for k2, v2 in L.head.env.items():
                    if isinstance(v2, VOpt) and isinstance(v2.v, VNum) and k2 in L.mod_vars:
                        out.append((f"{k2}=key({k})", lambda S, g, ev=ev, k2=k2: self.keyed(S.env[k2], ev(S), a)))
        return out


class StReschedule(PReschedule):
    any_args = PReschedule.any_args + ("return_value",)


def make(p):
    s = StSession(p)
    s.add(*QCORE)
    for c in (Q.Contains, Q.GetItem):
        s.add(c)
    s.add(*PLANC)
    s.add(StReschedule)
    for c in s.contracts.values():
        c.verify = False
        c.props = ()
    s.add(LeaveStore, InsertStore, EnterStore, EnterSortedStore)
    for c in [ToStore(s, False), ToStore(s, True)] + [FromStore(s, k, d) for k in (False, True) for d in (False, True)]:
        s.contracts[c.qual] = c
    return s
