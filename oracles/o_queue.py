"""C03/C04/C05: random histories of queue operations on several queues against a list model."""
import itertools
from oracles.common import sim, inf, same, need, Bad, checked, new_env

NQ, NC = 3, 7
PR = [-1, 0, 0.5, 1, 2]

OPS = ["enter", "enterp", "head", "front", "behind", "sorted", "leave", "leaveall", "prio", "insert", "pop", "popi", "remove", "clear",
       "del", "delslice", "append", "appendp", "add", "addp", "cap", "adv", "setop", "copy", "move", "extend", "extendclear", "iter", "reset", "addhead",
       "addfront", "addbehind", "addsorted"]
W = [6, 8, 4, 4, 4, 6, 6, 1, 7, 5, 3, 3, 2, 1, 2, 1, 2, 3, 2, 3, 2, 4, 2, 1, 1, 1, 1, 2, 1, 2, 2, 2, 3]


def gen_op(rng):
    op = rng.choices(OPS, W)[0]
    return [op, rng.randrange(NQ), rng.randrange(NC), rng.randrange(NC), rng.choice(PR), rng.randrange(-2, NC + 1), rng.randrange(0, 1000)]


def gen(rng, size):
    caps = [rng.choice([inf, inf, 2, 3, 4]) for _ in range(NQ)]
    return dict(caps=[None if c == inf else c for c in caps], ops=[gen_op(rng) for _ in range(rng.randrange(3, 3 + size))], t0=rng.choice([0, 0, 5]), stats=rng.random() < 0.2)


def exhaustive():
    base = [["sorted", 0, c, 0, p, 0, 0] for c, p in ((0, 0), (1, 1), (2, 1))]
    alts = [["enter", 0, 3, 0, 0, 0, 0], ["prio", 0, 0, 0, 1, 0, 0], ["prio", 0, 2, 0, 0, 0, 0], ["prio", 0, 1, 0, 2, 0, 0], ["enterp", 0, 4, 0, 1, 0, 0], ["enterp", 0, 4, 0, 0, 0, 0],
            ["leave", 0, 0, 0, 0, 0, 0], ["leave", 0, 1, 0, 0, 0, 0], ["front", 0, 5, 1, 0, 0, 0], ["behind", 0, 5, 1, 0, 0, 0], ["head", 0, 6, 0, 0, 0, 0],
            ["insert", 0, 6, 0, 0, 1, 0], ["insert", 0, 6, 0, 0, 3, 0], ["iter", 0, 0, 1, 0.5, 2, 77], ["delslice", 0, 0, 0, 0, 2, 5], ["adv", 0, 0, 0, 0, 0, 3]]
    for cap in (None, 3, 4):
        for a in itertools.product(alts, repeat=2):
            yield dict(caps=[cap, None, None], ops=base + [["adv", 0, 0, 0, 0, 0, 2]] + [list(x) for x in a], t0=0, stats=False)


class M:
    """reference: one list of [component, priority, enter time] per queue"""

    def __init__(self, cap):
        self.l = []
        self.cap = cap
        self.arr = self.dep = 0
        self.stay = []
        self.levels = None

    def comps(self):
        return [e[0] for e in self.l]

    def find(self, c):
        for i, e in enumerate(self.l):
            if e[0] is c:
                return i
        return None


@checked
def run(case):
    env = new_env(time_unit=None) if False else new_env()
    if case["t0"]:
        env.reset_now(case["t0"])
    caps = [inf if c is None else c for c in case["caps"]]
    qs = [sim.Queue(f"q{i}", capacity=caps[i]) if caps[i] != inf else sim.Queue(f"q{i}") for i in range(NQ)]
    cs = [sim.Component(f"c{i}", process=None) for i in range(NC)]
    ms = [M(caps[i]) for i in range(NQ)]
    others = []  # result queues of set operations, with their models
    hist = [[(env.now(), 0)] for _ in range(NQ)]
    if case["stats"]:
        for q in qs:
            q.reset_monitors(stats_only=True)

    def note(i):
        hist[i].append((env.now(), len(ms[i].l)))

    def check():
        for i, (q, m) in enumerate(list(zip(qs, ms)) + others):
            view(q, m, cs, env)
        for c in cs:
            want = {id(q) for q, m in list(zip(qs, ms)) + others if m.find(c) is not None}
            need({id(q) for q in c.queues()} == want, f"queues() of {c.name()}")
            need(c.count() == len(want), f"count() of {c.name()}")

    def put(i, c, k, p):
        """model insert; -> False if the queue is full"""
        m = ms[i]
        if len(m.l) + 1 > m.cap:
            return False
        m.l.insert(k, [c, p, env.now()])
        m.arr += 1
        note(i)
        return True

    def out(i, c):
        m = ms[i]
        e = m.l.pop(m.find(c))
        m.stay.append(env.now() - e[2])
        m.dep += 1
        note(i)

    def expect(exc, f, what):
        try:
            r = f()
        except exc if exc else ():
            return None
        except (ValueError, IndexError, sim.QueueFullError) as e:
            raise Bad(f"{what}: unexpected {type(e).__name__}")
        need(exc is None, f"{what}: no {exc.__name__ if exc else ''} raised")
        return r

    def spot(m, p):
        return sum(1 for e in m.l if e[1] <= p)

    for op, i, ci, pi, p, ix, x in case["ops"]:
        q, m, c, pc = qs[i], ms[i], cs[ci], cs[pi]
        n = len(m.l)
        inside, pin = m.find(c), m.find(pc)
        full = n + 1 > m.cap
        tailp = m.l[-1][1] if n else 0
        headp = m.l[0][1] if n else 0
        what = f"{op} {q.name()} {c.name()} p={p} ix={ix}"

        def entering(f, k, prio, extra=False):
            if inside is not None or extra:
                expect(ValueError, f, what)
            elif full:
                expect(sim.QueueFullError, f, what)
            else:
                expect(None, f, what)
                put(i, c, k, prio)

        if op in ("enter", "append", "add"):
            entering({"enter": lambda: c.enter(q), "append": lambda: q.append(c), "add": lambda: q.add(c)}[op], n, tailp)
        elif op in ("enterp", "sorted", "appendp", "addp", "addsorted"):
            entering({"enterp": lambda: c.enter(q, p), "sorted": lambda: c.enter_sorted(q, p), "appendp": lambda: q.append(c, p), "addp": lambda: q.add(c, p), "addsorted": lambda: q.add_sorted(c, p)}[op], spot(m, p), p)
        elif op in ("head", "addhead"):
            entering((lambda: c.enter_at_head(q)) if op == "head" else (lambda: q.add_at_head(c)), 0, headp)
        elif op in ("front", "addfront"):
            entering((lambda: c.enter_in_front_of(q, pc)) if op == "front" else (lambda: q.add_in_front_of(c, pc)), pin, m.l[pin][1] if pin is not None else 0, pin is None)
        elif op in ("behind", "addbehind"):
            entering((lambda: c.enter_behind(q, pc)) if op == "behind" else (lambda: q.add_behind(c, pc)), (pin or 0) + 1, m.l[pin][1] if pin is not None else 0, pin is None)
        elif op == "insert":
            f = lambda: q.insert(ix, c)
            if ix < 0 or ix > n:
                expect(IndexError, f, what)
            else:
                entering(f, ix, m.l[ix][1] if ix < n else tailp)
        elif op in ("leave", "remove"):
            f = (lambda: c.leave(q)) if op == "leave" else (lambda: q.remove(c))
            if inside is None:
                expect(ValueError, f, what)
            else:
                expect(None, f, what)
                out(i, c)
        elif op == "leaveall":
            c.leave()
            for j in range(NQ):
                if ms[j].find(c) is not None:
                    out(j, c)
            for oq, om in others:
                if om.find(c) is not None:
                    om.l.pop(om.find(c))
        elif op == "prio":
            f = lambda: c.priority(q, p)
            if inside is None:
                expect(ValueError, f, what)
            else:
                r = expect(None, f, what)
                need(r == p, f"{what}: returns {r}")
                if m.l[inside][1] != p:
                    e = m.l.pop(inside)
                    e[1] = p
                    m.l.insert(spot(m, p), e)
        elif op == "pop":
            r = q.pop()
            need(r is (m.l[0][0] if n else None), f"{what}: returns {r}")
            if n:
                out(i, r)
        elif op == "popi":
            if -n <= ix < n:
                want = m.l[ix][0]
                r = expect(None, lambda: q.pop(ix), what)
                need(r is want, f"{what}: returns {r}")
                out(i, r)
            else:
                expect(IndexError, lambda: q.pop(ix), what)
        elif op == "del":
            def f():
                del q[ix]
            if -n <= ix < n:
                want = m.l[ix][0]
                expect(None, f, what)
                out(i, want)
            else:
                expect(IndexError, f, what)
        elif op == "delslice":
            s = slice([None, 0, 1, -1, 2][x % 5], [None, ix][x % 2], [None, 1, 2, -1][x // 5 % 4])
            want = m.comps()[s]
            del q[s]
            for cc in want:
                out(i, cc)
        elif op == "clear":
            q.clear()
            for cc in m.comps():
                out(i, cc)
        elif op == "cap":
            m.cap = [1, 2, 3, 5, inf][x % 5]
            q.set_capacity(m.cap)
        elif op == "adv":
            env.run(1 + x % 3)
        elif op in ("setop", "copy", "move"):
            q2, m2 = qs[x % NQ], ms[x % NQ]
            a, b = m.comps(), m2.comps()
            keep = True
            if op == "copy":
                r, l = q.copy(), [(e[0], e[1]) for e in m.l]
            elif op == "move":
                r, l = q.move(), [(e[0], e[1]) for e in m.l]
                for cc in a:
                    out(i, cc)
            else:
                which = x // 7 % 5
                if which == 0:
                    r, l = q | q2, [(z, 0) for z in a + [y for y in b if y not in a]]
                elif which == 1:
                    r, l = q & q2, [(z, 0) for z in a if z in b]
                elif which == 2:
                    r, l = q - q2, [(e[0], e[1]) for e in m.l if e[0] not in b]
                elif which == 3:
                    r, l = q ^ q2, [(z, 0) for z in a if z not in b] + [(z, 0) for z in b if z not in a]
                else:
                    r, l = q + q2, [(z, 0) for z in a + [y for y in b if y not in a]]
            rm = M(inf)
            rm.l = [[z, pp, env.now()] for z, pp in l]
            rm.arr = len(l)
            need(list(r) == [z for z, _ in l], f"{what} {x}: {[k.name() for k in r]} instead of {[z.name() for z, _ in l]}")
            if len(others) < 2:
                others.append((r, rm))
            else:
                r.clear()
                # a removed result must not influence the others
        elif op in ("extend", "extendclear"):
            q2, m2 = qs[x % NQ], ms[x % NQ]
            src = m2.comps()
            try:
                q.extend(q2, clear_source=op == "extendclear")
                raised = False
            except sim.QueueFullError:
                raised = True
            for cc in src:
                if m.find(cc) is None:
                    if not put(i, cc, len(m.l), m.l[-1][1] if m.l else 0):
                        need(raised, f"{what}: no QueueFullError")
                        raised = None
                        break
            need(raised is not True, f"{what}: unexpected QueueFullError")
            if raised is False and op == "extendclear":
                for cc in m2.comps():
                    out(x % NQ, cc)
        elif op == "iter":
            # iteration while the queue changes: every component that stays is visited exactly once, none that left before its turn
            rev = x % 2
            seen = []
            k = 0
            removed, added = set(), set()
            start = m.comps()
            for cc in (reversed(q) if rev else q):
                seen.append(cc)
                need(m.find(cc) is not None, f"{what}: iteration yields a component that is not in the queue")
                if k == x // 2 % 3:
                    act = x // 6 % 4
                    if act == 0 and m.l:
                        z = m.l[x // 24 % len(m.l)][0]
                        z.leave(q)
                        out(i, z)
                        removed.add(z)
                    elif act == 1 and m.find(pc) is None and len(m.l) + 1 <= m.cap:
                        pc.enter(q, p)
                        put(i, pc, spot(m, p), p)
                        added.add(pc)
                    elif act == 2 and m.find(pc) is not None:
                        z = m.find(pc)
                        pc.priority(q, p)
                        if m.l[z][1] != p:
                            e = m.l.pop(z)
                            e[1] = p
                            m.l.insert(spot(m, p), e)
                k += 1
                need(k < 50, f"{what}: iteration does not end")
            need(len(set(map(id, seen))) == len(seen), f"{what}: iteration yields a component twice")
            for cc in m.comps():
                if cc in start and cc not in added:
                    need(cc in seen, f"{what}: iteration misses {cc.name()}")
        elif op == "reset":
            q.reset_monitors()
            hist[i] = [(env.now(), n)]
            m.stay = []
        check()
        need(len(q) == len(m.l), what)
        try:
            stats(q, m, hist[i], env, case["stats"])
        except Bad as e:
            raise Bad(f"after {what}: {e}")


def view(q, m, cs, env):
    l = m.comps()
    n = len(l)
    nm = q.name()
    got = list(q)
    need(got == l, f"{nm}: iteration gives {[c.name() for c in got]} instead of {[c.name() for c in l]}")
    need(list(reversed(q)) == l[::-1], f"{nm}: backward iteration")
    need(len(q) == n, f"{nm}: len {len(q)} instead of {n}")
    need(bool(q) == bool(l) if hasattr(q, "__bool__") else True, f"{nm}: bool")
    need(q.as_list() == l and q.as_set() == set(l), f"{nm}: as_list/as_set")
    need(q.head() is (l[0] if l else None) and q.tail() is (l[-1] if l else None), f"{nm}: head/tail")
    for k in range(-n - 1, n + 1):
        try:
            g = q[k]
        except IndexError:
            g = "IndexError"
        w = l[k] if -n <= k < n else "IndexError"
        need(g is w or g == w == "IndexError", f"{nm}[{k}]")
    for s in (slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(2, 0, -1), slice(-2, None), slice(1, 3), slice(3, 1), slice(None, None, -2), slice(0, n + 3), slice(5, None, -3)):
        need(q[s] == l[s], f"{nm}[{s}]")
    for c in cs:
        i = m.find(c)
        need((c in q) == (i is not None), f"{nm}: {c.name()} in")
        need(c.index(q) == (-1 if i is None else i) and q.index(c) == c.index(q), f"{nm}: index of {c.name()}")
        need(c.count(q) == (0 if i is None else 1) and q.count(c) == c.count(q), f"{nm}: count of {c.name()}")
        if i is None:
            for f in (lambda: c.successor(q), lambda: c.predecessor(q), lambda: c.priority(q), lambda: c.enter_time(q)):
                try:
                    f()
                except ValueError:
                    continue
                raise Bad(f"{nm}: {c.name()} not in queue, but no ValueError")
        else:
            need(c.successor(q) is (l[i + 1] if i + 1 < n else None) and q.successor(c) is c.successor(q), f"{nm}: successor of {c.name()}")
            need(c.predecessor(q) is (l[i - 1] if i > 0 else None) and q.predecessor(c) is c.predecessor(q), f"{nm}: predecessor of {c.name()}")
            need(c.priority(q) == m.l[i][1], f"{nm}: priority of {c.name()} is {c.priority(q)} instead of {m.l[i][1]}")
            need(same(c.enter_time(q), m.l[i][2]), f"{nm}: enter_time of {c.name()}")
            need(q.component_with_name(c.name()) is c, f"{nm}: component_with_name")
    need(q.available_quantity() == m.cap - n, f"{nm}: available_quantity {q.available_quantity()} instead of {m.cap - n}")
    need(q.capacity() == m.cap, f"{nm}: capacity")
    if q.length._monitor:
        need(q.length() == n, f"{nm}: length() {q.length()} instead of {n}")
    need(q.number_of_arrivals == m.arr, f"{nm}: number_of_arrivals {q.number_of_arrivals} instead of {m.arr}") if m.dep or m.arr else None


def stats(q, m, hist, env, so):
    need(q.number_of_departures == m.dep, f"number_of_departures {q.number_of_departures} instead of {m.dep}")
    need(q.number_of_arrivals == m.arr, f"number_of_arrivals {q.number_of_arrivals} instead of {m.arr}")
    if so:
        need(q.length_of_stay.number_of_entries() == len(m.stay), "number of length_of_stay entries")
        if m.stay:
            need(same(q.length_of_stay.mean(), sum(m.stay) / len(m.stay)), "mean length of stay")
    else:
        need([float(v) for v in q.length_of_stay.x(force_numeric=False)] == [float(v) for v in m.stay], f"length_of_stay {list(q.length_of_stay.x())} instead of {m.stay}")
    tot = env.now() - hist[0][0]
    if tot > 0:
        a = 0
        for (t, v), (t2, _) in zip(hist, hist[1:] + [(env.now(), 0)]):
            a += v * (t2 - t)
        need(same(q.length.mean(), a / tot), f"mean length {q.length.mean()} instead of {a / tot}")
