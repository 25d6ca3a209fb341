from .qbase import *
from pyvc.values import PyList, SymSeq, SetSeq
import ast


def seq_of_result(eng, r, S):
    return eng.seq_of(r, S)


class ReadBase(Contract):
    """pure observer"""

    params = dict(self=("ref", "Queue"))
    props = ("C03",)

    def requires(self, eng, S, a):
        q = a["self"] if a["self"].cls == "Queue" else a["q"]
        return GI(S) + [("queue", isq(S, q.e))]


class Len(ReadBase):
    qual = "Queue.__len__"

    def result(self, eng, S0, S1, a):
        return VNum(ln(S0, a["self"].e))

    def ensures(self, eng, S0, S1, a, r):
        return [("length", r.e == ln(S0, a["self"].e))]


class Head(ReadBase):
    qual = "Queue.head"
    props = ("C03", "C04")

    def target(self, S, q):
        return z3.If(ln(S, q) == 0, z3.IntVal(0), comp(S, at(S, q, 1)))

    def result(self, eng, S0, S1, a):
        return VRef(self.target(S0, a["self"].e), "Component")

    def ensures(self, eng, S0, S1, a, r):
        return [("first-component", same_ref(r, self.target(S0, a["self"].e)))]


class Tail(Head):
    qual = "Queue.tail"

    def target(self, S, q):
        return z3.If(ln(S, q) == 0, z3.IntVal(0), comp(S, at(S, q, ln(S, q))))


class Contains(ReadBase):
    qual = "Queue.__contains__"
    params = dict(self=("ref", "Queue"), component=("ref", "Component"))

    def result(self, eng, S0, S1, a):
        return VBool(dom(S0, a["component"].e, a["self"].e))

    def ensures(self, eng, S0, S1, a, r):
        return [("membership", eng.truth(r, S1) == dom(S0, a["component"].e, a["self"].e))]


class Count(ReadBase):
    qual = "Component.count"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))

    def result(self, eng, S0, S1, a):
        return VNum(z3.If(dom(S0, a["self"].e, a["q"].e), z3.IntVal(1), z3.IntVal(0)))

    def ensures(self, eng, S0, S1, a, r):
        return [("0/1", r.e == z3.If(dom(S0, a["self"].e, a["q"].e), z3.IntVal(1), z3.IntVal(0)))]


class QCount(ReadBase):
    qual = "Queue.count"
    params = dict(self=("ref", "Queue"), component=("ref", "Component"))

    def ensures(self, eng, S0, S1, a, r):
        return [("0/1", r.e == z3.If(dom(S0, a["component"].e, a["self"].e), z3.IntVal(1), z3.IntVal(0)))]


class Index(ReadBase):
    qual = "Component.index"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))

    def val(self, S0, c, q):
        return z3.If(dom(S0, c, q), pos(S0, qm(S0, c, q)) - 1, z3.IntVal(-1))

    def result(self, eng, S0, S1, a):
        return VNum(self.val(S0, a["self"].e, a["q"].e))

    def ensures(self, eng, S0, S1, a, r):
        return [("position", r.e == self.val(S0, a["self"].e, a["q"].e))]

    def loops(self, L):
        return queue_loop_cands(L)


class QIndex(Index):
    qual = "Queue.index"
    params = dict(self=("ref", "Queue"), component=("ref", "Component"))

    def ensures(self, eng, S0, S1, a, r):
        return [("position", r.e == self.val(S0, a["component"].e, a["self"].e))]


class CSuccessor(ReadBase):
    qual = "Component.successor"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"))
    props = ("C03", "C04")
    d = 1

    def cq(self, a):
        return (a["self"].e, a["q"].e) if "q" in a else (a["component"].e, a["self"].e)

    def raises(self, eng, S, a):
        c, q = self.cq(a)
        return [("ValueError", z3.Not(dom(S, c, q)))]

    def val(self, S, a):
        c, q = self.cq(a)
        return comp(S, at(S, q, pos(S, qm(S, c, q)) + self.d))

    def result(self, eng, S0, S1, a):
        return VRef(self.val(S0, a), "Component")

    def ensures(self, eng, S0, S1, a, r):
        return [("neighbour", same_ref(r, self.val(S0, a)))]


class CPredecessor(CSuccessor):
    qual = "Component.predecessor"
    d = -1


class QSuccessor(CSuccessor):
    qual = "Queue.successor"
    params = dict(self=("ref", "Queue"), component=("ref", "Component"))


class QPredecessor(CPredecessor):
    qual = "Queue.predecessor"
    params = dict(self=("ref", "Queue"), component=("ref", "Component"))


class EnterTime(CSuccessor):
    qual = "Component.enter_time"
    props = ("C05",)

    def result(self, eng, S0, S1, a):
        return VNum(S0["Qmember.enter_time"][qm(S0, a["self"].e, a["q"].e)] - S0["Environment._offset"])

    def ensures(self, eng, S0, S1, a, r):
        return [("enter-time", r.real() == S0["Qmember.enter_time"][qm(S0, a["self"].e, a["q"].e)] - S0["Environment._offset"])]


class GetItem(ReadBase):
    qual = "Queue.__getitem__"
    params = dict(self=("ref", "Queue"), key="int")
    props = ("C03", "C04")

    def idx(self, S, a):
        k, n = a["key"].e, ln(S, a["self"].e)
        return z3.If(k < 0, k + n, k)

    def raises(self, eng, S, a):
        k = self.idx(S, a)
        return [("IndexError", z3.Or(k < 0, k >= ln(S, a["self"].e)))]

    def result(self, eng, S0, S1, a):
        return VRef(comp(S0, at(S0, a["self"].e, self.idx(S0, a) + 1)), "Component")

    def ensures(self, eng, S0, S1, a, r):
        return [("element", same_ref(r, comp(S0, at(S0, a["self"].e, self.idx(S0, a) + 1))))]

    def loops(self, L):
        return queue_loop_cands(L)


class Iter(ReadBase):
    """__iter__ with nothing changed between the yields: yields the components in order"""

    qual = "Queue.__iter__"
    rev = False
    modifies = ("Queue._iter_sequence",)

    def ensures(self, eng, S0, S1, a, r):
        q = a["self"].e
        sq = eng.seq_of(r, S1)
        k = (lambda i: ln(S0, q) - i) if self.rev else (lambda i: i + 1)
        return [("number", sq.n == ln(S0, q)),
                ("order", forall(i_, z3.Implies(z3.And(0 <= i_, i_ < sq.n), same_ref(sq.elem(i_), comp(S0, at(S0, q, k(i_)))))))]

    def loops(self, L):
        out = queue_loop_cands(L)
        eng, h = L.eng, L.head
        q = L.args["self"].e
        k = (lambda S, i: ln(S, q) - i) if self.rev else (lambda S, i: i + 1)
        lists = [(v, vv.loc) for v, vv in h.env.items() if isinstance(vv, VList)]
        nodes = [kk for kk, v in h.env.items() if isinstance(v, VRef) and v.cls == "Qmember"]
        ints = [kk for kk, v in h.env.items() if isinstance(v, VNum) and v.finite and z3.is_int(v.e)]
        for name, loc in lists:
            def content(S, loc=loc):
                return eng.as_symseq(S.objs[loc])

            for nd in nodes:
                out.append((f"len({name})=pos({nd})", lambda S, g, nd=nd, content=content: content(S).n == (ln(S, q) - pos(S, S.env[nd].e) if self.rev else pos(S, S.env[nd].e) - 1)))
            for x in ints:
                out.append((f"len({name})={x}", lambda S, g, x=x, content=content: content(S).n == S.env[x].e))
                out.append((f"{x}<=len({name})", lambda S, g, x=x, content=content: content(S).n >= S.env[x].e))
            out.append((f"len({name})=len(queue)", lambda S, g, content=content: content(S).n == ln(S, q)))

            def cont(S, g, content=content):
                c = content(S)
                e = c.elem(i_)
                if isinstance(e, VNone):
                    return z3.BoolVal(True)
                t = at(L.pre, q, k(S, i_))
                if isinstance(e, VRef) and e.cls == "Component":
                    t = comp(L.pre, t)
                return forall(i_, z3.Implies(z3.And(0 <= i_, i_ < c.n), e.e == t))

            out.append((f"content({name})", cont))
        return out


class Reversed(Iter):
    qual = "Queue.__reversed__"
    rev = True


# ------------------------------------------------------------------ mutators of Queue
class QWrap(Contract):
    """Queue.xxx(component, ...) has the effect of Component.enter_xxx(queue, ...)"""

    modifies = INS_MAPS
    props = ("C03", "C04", "C05")
    base = None

    def conv(self, a):
        b = dict(a)
        b["q"], b["self"] = a["self"], a["component"]
        b.pop("component")
        return b

    def requires(self, eng, S, a):
        return self.s.contracts[self.base].requires(eng, S, self.conv(a))

    def raises(self, eng, S, a):
        return self.s.contracts[self.base].raises(eng, S, self.conv(a))

    def result(self, eng, S0, S1, a):
        return a["self"]

    def ensures(self, eng, S0, S1, a, r):
        es = self.s.contracts[self.base].ensures(eng, S0, S1, self.conv(a), a["component"])
        return es + [("returns-queue", same_ref(r, a["self"].e))]


def wrap(q, base_, **extra):
    class W(QWrap):
        qual = q
        base = base_
        params = dict(self=("ref", "Queue"), component=("ref", "Component"), **extra)

    return W


class QInsert(EnterBase):
    qual = "Queue.insert"
    params = dict(self=("ref", "Queue"), index="int", component=("ref", "Component"))

    def conv(self, a):
        return dict(self=a["component"], q=a["self"])

    def requires(self, eng, S, a):
        return super().requires(eng, S, self.conv(a))

    def raises(self, eng, S, a):
        bad = z3.Or(a["index"].e < 0, a["index"].e > ln(S, a["self"].e))
        me = dom(S, a["component"].e, a["self"].e)
        return [("IndexError", bad), ("ValueError", z3.And(z3.Not(bad), me)), ("QueueFullError", z3.And(z3.Not(bad), z3.Not(me), full_cond(S, a["self"].e)))]

    def ensures(self, eng, S0, S1, a, r):
        q, c = a["self"].e, a["component"].e
        k = a["index"].e + 1
        n = qm(S1, c, q)
        return inserted(S0, S1, q, c, k, prio(S1, n)) + GI(S1, "GI.") + [("returns-queue", same_ref(r, q))]

    def loops(self, L):
        return queue_loop_cands(L)


class QRemove(Contract):
    qual = "Queue.remove"
    params = dict(self=("ref", "Queue"), component=("ref", "Component"))
    modifies = LEAVE_MAPS
    props = ("C03", "C05")

    def conv(self, a):
        return dict(self=a["component"], q=a["self"])

    def requires(self, eng, S, a):
        return self.s.contracts["Component.leave"].requires(eng, S, self.conv(a))

    def raises(self, eng, S, a):
        return self.s.contracts["Component.leave"].raises(eng, S, self.conv(a))

    def ensures(self, eng, S0, S1, a, r):
        return left(S0, S1, a["self"].e, a["component"].e) + GI(S1, "GI.") + [("returns-queue", same_ref(r, a["self"].e))]

    def result(self, eng, S0, S1, a):
        return a["self"]


class QPop(Contract):
    qual = "Queue.pop"
    params = dict(self=("ref", "Queue"), index="none")
    modifies = LEAVE_MAPS
    props = ("C03", "C04", "C05")

    def requires(self, eng, S, a):
        return GI(S) + [("queue", z3.And(isq(S, a["self"].e), z3.Not(isStore(a["self"].e))))]

    def idx(self, S, a):
        return z3.IntVal(0)

    def ensures(self, eng, S0, S1, a, r):
        q = a["self"].e
        c = comp(S0, at(S0, q, self.idx(S0, a) + 1))
        ne = ln(S0, q) > 0
        return [("result", same_ref(r, z3.If(ne, c, z3.IntVal(0))))] + [("removed." + n, z3.Implies(ne, f)) for n, f in left(S0, S1, q, c)] + [
            ("empty-unchanged(" + m + ")", z3.Implies(z3.Not(ne), S1[m] == S0[m])) for m in LEAVE_MAPS] + GI(S1, "GI.")

    def ghost(self, eng, S0, S1, a):
        pass


class QPopIndex(QPop):
    qual = "Queue.pop/index"
    params = dict(self=("ref", "Queue"), index="int")

    def idx(self, S, a):
        k, n = a["index"].e, ln(S, a["self"].e)
        return z3.If(k < 0, k + n, k)

    def raises(self, eng, S, a):
        k = self.idx(S, a)
        return [("IndexError", z3.Or(k < 0, k >= ln(S, a["self"].e)))]


class DelItem(QPop):
    qual = "Queue.__delitem__"
    params = dict(self=("ref", "Queue"), key="int")

    def idx(self, S, a):
        k, n = a["key"].e, ln(S, a["self"].e)
        return z3.If(k < 0, k + n, k)

    def raises(self, eng, S, a):
        k = self.idx(S, a)
        return [("IndexError", z3.Or(k < 0, k >= ln(S, a["self"].e)))]

    def ensures(self, eng, S0, S1, a, r):
        return [e for e in super().ensures(eng, S0, S1, a, NONE) if e[0] != "result"]


class Clear(Contract):
    qual = "Queue.clear"
    params = dict(self=("ref", "Queue"))
    modifies = LEAVE_MAPS
    props = ("C03", "C05")

    def requires(self, eng, S, a):
        return GI(S) + [("queue", z3.And(isq(S, a["self"].e), z3.Not(isStore(a["self"].e))))]

    def ensures(self, eng, S0, S1, a, r):
        q = a["self"].e
        return [
            ("empty", ln(S1, q) == 0),
            ("no-members", forall(c_, z3.Not(dom(S1, c_, q)), dom(S1, c_, q))),
            ("departures", S1["Queue.number_of_departures"][q] == S0["Queue.number_of_departures"][q] + ln(S0, q)),
            ("lengths-of-stay", S1["Queue.length_of_stay._cnt"][q] == S0["Queue.length_of_stay._cnt"][q] + ln(S0, q)),
        ] + self.others(S0, S1, q) + GI(S1, "GI.")

    def others(self, S0, S1, q):
        return [
            ("other-lengths", forall(q_, z3.Implies(q_ != q, z3.And(ln(S1, q_) == ln(S0, q_), S1["Queue.number_of_departures"][q_] == S0["Queue.number_of_departures"][q_],
                                                                     S1["Queue.length_of_stay._cnt"][q_] == S0["Queue.length_of_stay._cnt"][q_])), [ln(S1, q_), S1["Queue.number_of_departures"][q_], S1["Queue.length_of_stay._cnt"][q_]])),
            ("other-queues", forall([q_, i_], z3.Implies(z3.And(isq(S0, q_), q_ != q, 0 <= i_, i_ <= ln(S0, q_) + 1), at(S1, q_, i_) == at(S0, q_, i_)), at(S1, q_, i_))),
            ("other-members", forall([c_, q_], z3.Implies(q_ != q, z3.And(dom(S1, c_, q_) == dom(S0, c_, q_), qm(S1, c_, q_) == qm(S0, c_, q_))), [dom(S1, c_, q_), qm(S1, c_, q_)])),
            ("kept-nodes", forall(n_, z3.Implies(z3.And(own(S0, n_) != 0, own(S0, n_) != q), z3.And(own(S1, n_) == own(S0, n_), comp(S1, n_) == comp(S0, n_), prio(S1, n_) == prio(S0, n_))), [own(S1, n_), comp(S1, n_), prio(S1, n_)])),
        ]

    def loops(self, L):
        q = L.args["self"].e
        out = queue_loop_cands(L)
        P = L.pre
        out += [(n, lambda S, g, n=n: dict(GI(S))[n]) for n, f in GI(P)]
        out += [(n, lambda S, g, n=n: dict(self.others(P, S, q))[n]) for n, f in self.others(P, P, q)]
        dep = lambda S: S["Queue.number_of_departures"][q]
        los = lambda S: S["Queue.length_of_stay._cnt"][q]
        out += [("departures+length", lambda S, g: dep(S) + ln(S, q) == dep(P) + ln(P, q)),
                ("stays+length", lambda S, g: los(S) + ln(S, q) == los(P) + ln(P, q)),
                ("head", lambda S, g: z3.And([at(S, q, 1) == S.env[k].e for k, v in L.head.env.items() if isinstance(v, VRef) and v.cls == "Qmember" and k in L.mod_vars]))]
        return out


class Priority(Contract):
    """Component.priority(q, p): moves the component behind all members with a priority not larger than p"""

    qual = "Component.priority"
    params = dict(self=("ref", "Component"), q=("ref", "Queue"), priority="real")
    modifies = ["Qmember.successor", "Qmember.predecessor", "Qmember.priority", "g.pos", "g.at"]
    props = ("C03", "C04")

    def requires(self, eng, S, a):
        return GI(S) + [("queue", isq(S, a["q"].e))]

    def raises(self, eng, S, a):
        return [("ValueError", z3.Not(dom(S, a["self"].e, a["q"].e)))]

    def exit_ghost(self, eng, S0, S1, a, res):
        q = a["q"].e
        n = qm(S0, a["self"].e, q)
        m1 = pred(S1, n)
        k = pos(S0, n)
        j = z3.If(pos(S0, m1) > k, pos(S0, m1), pos(S0, m1) + 1)
        a0, p0, o0 = S0["g.at"], S0["g.pos"], S0["g.own"]
        atn, posn = eng.fresh("at", A2(INT)), eng.fresh("pos", A1(INT))
        rem = lambda i: z3.If(i >= k, a0[q][i + 1], a0[q][i])
        S1.assume(forall([q_, i_], atn[q_][i_] == z3.If(q_ == q, z3.If(i_ < j, rem(i_), z3.If(i_ == j, n, rem(i_ - 1))), a0[q_][i_]), atn[q_][i_]))
        pr = z3.If(z3.And(o0[n_] == q, p0[n_] > k), p0[n_] - 1, p0[n_])
        S1.assume(forall(n_, posn[n_] == z3.If(n_ == n, j, z3.If(z3.And(o0[n_] == q, pr >= j), pr + 1, pr)), posn[n_]))
        S1["g.at"], S1["g.pos"] = atn, posn

    def ensures(self, eng, S0, S1, a, r):
        q, p = a["q"].e, a["priority"].real()
        n = qm(S0, a["self"].e, q)
        return [
            ("priority-set", prio(S1, n) == p),
            ("returns-priority", r.real() == p),
            ("other-priorities", forall(n_, z3.Implies(n_ != n, prio(S1, n_) == prio(S0, n_)), prio(S1, n_))),
            ("relative-order-kept", forall([a_, b_], z3.Implies(z3.And(own(S0, a_) == q, own(S0, b_) == q, a_ != n, b_ != n, pos(S0, a_) < pos(S0, b_)), pos(S1, a_) < pos(S1, b_)), z3.MultiPattern(pos(S1, a_), pos(S1, b_)))),
            ("behind-equals", z3.Implies(p != prio(S0, n), forall(n_, z3.Implies(z3.And(own(S0, n_) == q, n_ != n, 1 <= pos(S0, n_), pos(S0, n_) <= ln(S0, q)), (pos(S1, n_) < pos(S1, n)) == (prio(S0, n_) <= p)), pos(S1, n_)))),
            ("no-move-if-same", z3.Implies(p == prio(S0, n), forall(n_, z3.Implies(own(S0, n_) == q, pos(S1, n_) == pos(S0, n_)), pos(S1, n_)))),
            ("other-queues", forall([q_, i_], z3.Implies(z3.And(isq(S0, q_), q_ != q, 0 <= i_, i_ <= ln(S0, q_) + 1), at(S1, q_, i_) == at(S0, q_, i_)), at(S1, q_, i_))),
        ] + GI(S1, "GI.")

    def loops(self, L):
        return queue_loop_cands(L)


class SetCapacity(Contract):
    qual = "Queue.set_capacity"
    params = dict(self=("ref", "Queue"), cap="xreal")
    modifies = STAT_MAPS[:2] + ["Queue.capacity._tally", "Queue.capacity._tally#k"]
    props = ("C05",)

    def requires(self, eng, S, a):
        return GI(S) + [("queue", isq(S, a["self"].e))]

    def ensures(self, eng, S0, S1, a, r):
        q = a["self"].e
        return [("capacity", z3.And(S1["Queue.capacity._tally"] == z3.Store(S0["Queue.capacity._tally"], q, a["cap"].real()), S1["Queue.capacity._tally#k"] == z3.Store(S0["Queue.capacity._tally#k"], q, a["cap"].kz())))] + GI(S1, "GI.")


class ArrivalRateReset(Contract):
    qual = "Queue.arrival_rate"
    params = dict(self=("ref", "Queue"), reset="bool")
    modifies = ["Queue.number_of_arrivals", "Queue.number_of_arrivals_t0"]
    props = ("C05",)
    f = "number_of_arrivals"

    def ensures(self, eng, S0, S1, a, r):
        q, f, rs = a["self"].e, "Queue." + self.f, a["reset"].b
        now = S0["Environment._now"]
        out = [
            ("count", S1[f] == z3.If(rs, z3.Store(S0[f], q, z3.IntVal(0)), S0[f])),
            ("t0", S1[f + "_t0"] == z3.If(rs, z3.Store(S0[f + "_t0"], q, now), S0[f + "_t0"])),
        ]
        if isinstance(r, VNum):
            out.append(("rate", r.real() * (now - S1[f + "_t0"][q]) == z3.ToReal(S1[f][q])))
        else:
            out.append(("nan-only-without-duration", now == S1[f + "_t0"][q]))
        return out

    def result(self, eng, S0, S1, a):
        return VOpaque("rate")


class DepartureRateReset(ArrivalRateReset):
    qual = "Queue.departure_rate"
    modifies = ["Queue.number_of_departures", "Queue.number_of_departures_t0"]
    f = "number_of_departures"


class AsSet(ReadBase):
    qual = "Queue.as_set"

    def result(self, eng, S0, S1, a):
        d = eng.fresh("asset", A1(BOOL))
        S1.assume(forall(c_, d[c_] == dom(S0, c_, a["self"].e), d[c_]))
        return eng.new_list(S1, SetSeq(d, "Component"))

    def ensures(self, eng, S0, S1, a, r):
        c = S1.objs[r.loc]
        return [("members", forall(c_, c.dom[c_] == dom(S0, c_, a["self"].e), [c.dom[c_], dom(S0, c_, a["self"].e)]))]


NEWQ = LIST_MAPS + STAT_MAPS + ["Queue.number_of_arrivals", "Queue._head", "Queue._tail", "g.isq", "Queue._isinternal", "Queue.number_of_departures",
                                "Queue.number_of_arrivals_t0", "Queue.number_of_departures_t0", "Queue.capacity._tally", "Queue.capacity._tally#k",
                                "Queue.length_of_stay._last", "Queue.length_of_stay._cnt", "Queue._iter_sequence"]


def fresh_queue_facts(S, q):
    """q is an object that is not yet a queue of the heap"""
    return z3.And(q > 0, z3.Not(isq(S, q)))


class QInit(Contract):
    qual = "Queue.__init__"
    params = dict(self=("ref", "Queue"), name="opaque", monitor="opaque", fill="none", capacity="xreal", env="env")
    modifies = NEWQ
    props = ("C03", "C05")

    def requires(self, eng, S, a):
        return GI(S) + [("new", fresh_queue_facts(S, a["self"].e))]

    def exit_ghost(self, eng, S0, S1, a, res):
        q = a["self"].e
        h, t = head(S1, q), tail(S1, q)
        S1["g.isq"] = z3.Store(S1["g.isq"], q, z3.BoolVal(True))
        S1["g.own"] = z3.Store(z3.Store(S1["g.own"], h, q), t, q)
        S1["g.pos"] = z3.Store(z3.Store(S1["g.pos"], h, z3.IntVal(0)), t, z3.IntVal(1))
        arr = z3.Store(z3.Store(S1["g.at"][q], 0, h), 1, t)
        S1["g.at"] = z3.Store(S1["g.at"], q, arr)

    def ghost(self, eng, S0, S1, a):
        pass

    def created(self, S0, S1, q):
        f = lambda m: S1[m]
        out = [("empty", z3.And(isq(S1, q), ln(S1, q) == 0, forall(c_, z3.Not(dom(S1, c_, q)), dom(S1, c_, q)))),
               ("counters", z3.And(S1["Queue.number_of_arrivals"][q] == 0, S1["Queue.number_of_departures"][q] == 0)),
               ("only-new", forall(q_, z3.Implies(q_ != q, isq(S1, q_) == isq(S0, q_)), isq(S1, q_))),
               ("old-queues", forall([q_, i_], z3.Implies(z3.And(isq(S0, q_), 0 <= i_, i_ <= ln(S0, q_) + 1), at(S1, q_, i_) == at(S0, q_, i_)), at(S1, q_, i_))),
               ("old-members", forall([c_, q_], z3.Implies(q_ != q, z3.And(dom(S1, c_, q_) == dom(S0, c_, q_), qm(S1, c_, q_) == qm(S0, c_, q_))), [dom(S1, c_, q_), qm(S1, c_, q_)])),
               ("old-nodes", forall(n_, z3.Implies(own(S0, n_) != 0, z3.And(own(S1, n_) == own(S0, n_), pos(S1, n_) == pos(S0, n_), comp(S1, n_) == comp(S0, n_), prio(S1, n_) == prio(S0, n_), S1["Qmember.enter_time"][n_] == S0["Qmember.enter_time"][n_])), [own(S1, n_), comp(S1, n_), prio(S1, n_), pos(S1, n_)]))]
        for m in ("Queue._length", "Queue._head", "Queue._tail", "Queue._isinternal", "Queue.number_of_arrivals", "Queue.number_of_departures", "Queue.capacity._tally", "Queue.capacity._tally#k"):
            out.append((f"others({m})", forall(q_, z3.Implies(q_ != q, S1[m][q_] == S0[m][q_]), S1[m][q_])))
        return out

    def ensures(self, eng, S0, S1, a, r):
        q = a["self"].e
        cp = a.get("capacity", INFV)
        return self.created(S0, S1, q) + [("capacity", z3.And(S1["Queue.capacity._tally#k"][q] == cp.kz(), z3.Implies(cp.kz() == 0, S1["Queue.capacity._tally"][q] == cp.real())))] + GI(S1, "GI.")


class S(QSession):
    name = "queue"

    def __init__(self, p):
        super().__init__(p)
        self.sub_methods[("*", "name")] = lambda eng, sub, a, k, st: eng.ok(VOpaque("name"), st)

    noeffect = {"_check_overlapping_parameters", "_set_name", "setup", "suppress_trace"}

    def globals(self, eng, name):
        if name == "_set_env":
            return VUserFn("_set_env", lambda e, st, a: VEnv())
        return super().globals(eng, name)

    def construct(self, eng, name, args, kw, st):
        if name in ("_SystemMonitor", "Monitor", "_CapacityMonitor"):
            v = VOpaque("monitor")
            v.initial = kw.get("initial_tally")
            return eng.ok(v, st)
        if name == "Queue":
            e = eng.fresh("newqueue", INT)
            eng.name_heap(st)
            st.assume(z3.And(e > 0, z3.Not(isq(st, e)), z3.Not(isStore(e))))
            a = dict(self=VRef(e, "Queue", False), **kw)
            c = self.contracts["Queue.__init__"]
            eng.used_contracts.add(c.name)
            return eng.bind(eng.apply_contract(c, a, st), lambda v, s: eng.ok(VRef(e, "Queue", False), s))
        return super().construct(eng, name, args, kw, st)

    def builtin(self, eng, fv, args, kw, st):
        if fv.name == "type" and isinstance(args[0], VRef):
            return eng.ok(VClass(args[0].cls), st)
        return None


class CopyBase(Contract):
    """set-like operations that build a new queue: the operands are untouched"""

    modifies = NEWQ
    props = ("C03", "C04")
    params = dict(self=("ref", "Queue"), name="opaque")
    two = False

    def requires(self, eng, S, a):
        r = GI(S) + [("queue", z3.And(isq(S, a["self"].e), z3.Not(isStore(a["self"].e))))]
        if self.two:
            r += [("queue2", isq(S, a["q"].e))]
        return r

    def ghost(self, eng, S0, S1, a):
        pass

    def exit_ghost(self, eng, S0, S1, a, r):
        pass

    def keep(self, S0, S1, q1):
        c = self.s.contracts["Queue.__init__"].created(S0, S1, q1)
        return [(n, f) for n, f in c if n not in ("empty", "counters")]

    def expected(self, S0, a, c, upto=None, upto2=None):
        raise NotImplementedError

    def result(self, eng, S0, S1, a):
        return VRef(eng.fresh("newq", INT), "Queue", False)

    def ensures(self, eng, S0, S1, a, r):
        if not isinstance(r, VRef):
            return [("returns-queue", z3.BoolVal(False))]
        q1 = r.e
        return [("new", z3.And(q1 > 0, z3.Not(isq(S0, q1)), isq(S1, q1))),
                ("members", forall(c_, dom(S1, c_, q1) == self.expected(S0, a, c_), dom(S1, c_, q1)))] + self.keep(S0, S1, q1) + self.order(eng, S0, S1, a, q1) + GI(S1, "GI.")

    def order(self, eng, S0, S1, a, q1):
        """members that come from self keep the order of self"""
        q = a["self"].e
        return [("order-of-self", forall([a_, b_], z3.Implies(z3.And(dom(S1, a_, q1), dom(S1, b_, q1), dom(S0, a_, q), dom(S0, b_, q), pos(S0, qm(S0, a_, q)) < pos(S0, qm(S0, b_, q))),
                                                           pos(S1, qm(S1, a_, q1)) < pos(S1, qm(S1, b_, q1))), z3.MultiPattern(dom(S1, a_, q1), dom(S1, b_, q1))))]

    def loops(self, L):
        P = L.pre
        out = []
        env = L.head.env
        qs = [(k, v.e) for k, v in env.items() if isinstance(v, VRef) and v.cls == "Queue"]
        nodes = [k for k, v in env.items() if isinstance(v, VRef) and v.cls == "Qmember" and k in L.mod_vars]
        args = [L.args["self"].e] + ([L.args["q"].e] if self.two else [])
        new = [e for k, e in qs if not any(e.eq(x) for x in args)]
        out += [(n, lambda S, g, n=n: dict(GI(S))[n]) for n, f in GI(P)]
        for nd in nodes:
            v = lambda S, nd=nd: S.env[nd].e
            for qi, q in enumerate(args):
                out += [(f"own({nd})=q{qi}", lambda S, g, v=v, q=q: own(S, v(S)) == q), (f"pos({nd})", lambda S, g, v=v, q=q: z3.And(1 <= pos(S, v(S)), pos(S, v(S)) <= ln(S, own(S, v(S))) + 1))]
            for q1 in new:
                out += [(n, lambda S, g, n=n, q1=q1: dict(self.keep(P, S, q1))[n]) for n, f in self.keep(P, P, q1)]
                out.append(("isq", lambda S, g, q1=q1: z3.And(isq(S, q1), S["Queue.capacity._tally#k"][q1] == 1)))
                out.append(("partial-1", lambda S, g, q1=q1, v=v: forall(c_, dom(S, c_, q1) == self.expected(P, L.args, c_, pos(S, v(S)), z3.IntVal(0)), dom(S, c_, q1))))
                out.append(("partial-2", lambda S, g, q1=q1, v=v: forall(c_, dom(S, c_, q1) == self.expected(P, L.args, c_, None, pos(S, v(S))), dom(S, c_, q1))))
                out.append(("order", lambda S, g, q1=q1: self.order(L.eng, P, S, L.args, q1)[0][1]))
                out.append(("priorities-0", lambda S, g, q1=q1: forall(i_, z3.Implies(z3.And(1 <= i_, i_ <= ln(S, q1)), prio(S, at(S, q1, i_)) == 0), at(S, q1, i_))))
                out.append(("priorities-of-self", lambda S, g, q1=q1: forall(c_, z3.Implies(dom(S, c_, q1), prio(S, qm(S, c_, q1)) == prio(P, qm(P, c_, args[0]))), dom(S, c_, q1))))
                out.append(("last-not-larger", lambda S, g, q1=q1, v=v: z3.Implies(z3.And(ln(S, q1) >= 1, pos(S, v(S)) <= ln(P, args[0])), prio(S, at(S, q1, ln(S, q1))) <= prio(S, v(S)))))
        return out


def inq(S, c, q, upto):
    d = dom(S, c, q)
    return d if upto is None else z3.And(d, pos(S, qm(S, c, q)) < upto)


class Union(CopyBase):
    qual = "Queue.union"
    params = dict(self=("ref", "Queue"), q=("ref", "Queue"), name="opaque")
    two = True

    def expected(self, S0, a, c, u1=None, u2=None):
        return z3.Or(inq(S0, c, a["self"].e, u1), inq(S0, c, a["q"].e, u2))


class Intersection(Union):
    qual = "Queue.intersection"

    def expected(self, S0, a, c, u1=None, u2=None):
        return z3.And(inq(S0, c, a["self"].e, u1), dom(S0, c, a["q"].e))


class Difference(Union):
    qual = "Queue.difference"

    def expected(self, S0, a, c, u1=None, u2=None):
        return z3.And(inq(S0, c, a["self"].e, u1), z3.Not(dom(S0, c, a["q"].e)))


class SymmetricDifference(Union):
    qual = "Queue.symmetric_difference"

    def expected(self, S0, a, c, u1=None, u2=None):
        s, q = a["self"].e, a["q"].e
        return z3.Or(z3.And(inq(S0, c, s, u1), z3.Not(dom(S0, c, q))), z3.And(inq(S0, c, q, u2), z3.Not(dom(S0, c, s))))


class Copy(CopyBase):
    qual = "Queue.copy"
    params = dict(self=("ref", "Queue"), name="opaque", copy_capacity=("const", False))

    def expected(self, S0, a, c, u1=None, u2=None):
        return inq(S0, c, a["self"].e, u1)

    def order(self, eng, S0, S1, a, q1):
        r = super().order(eng, S0, S1, a, q1)
        q = a["self"].e
        return r + [("priorities", forall(c_, z3.Implies(dom(S1, c_, q1), prio(S1, qm(S1, c_, q1)) == prio(S0, qm(S0, c_, q))), dom(S1, c_, q1)))]


def make(p):
    s = S(p)
    s.add(*QCORE)
    s.add(Len, Head, Tail, Contains, Count, QCount, Index, QIndex, CSuccessor, CPredecessor, QSuccessor, QPredecessor, EnterTime, GetItem, Iter, Reversed,
          wrap("Queue.add", "Component.enter", priority="real"), wrap("Queue.append", "Component.enter", priority="real"), wrap("Queue.add_at_head", "Component.enter_at_head"),
          wrap("Queue.add_in_front_of", "Component.enter_in_front_of", poscomponent=("ref", "Component")), wrap("Queue.add_behind", "Component.enter_behind", poscomponent=("ref", "Component")),
          wrap("Queue.add_sorted", "Component.enter_sorted", priority="real"), QInsert, QRemove, QPop, QPopIndex, DelItem, Clear, Priority, SetCapacity, ArrivalRateReset, DepartureRateReset,
          AsSet, QInit, Union, Intersection, Difference, SymmetricDifference, Copy)
    return s
