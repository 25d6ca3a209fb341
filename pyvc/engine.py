"""pyvc: a deductive verifier for a subset of Python.

Every verified function body is taken from the AST of /repo/salabim/salabim.py (program.py) on every run and executed
symbolically over all paths; callees under contract are replaced by their contract (requires is proved, frame is havocked,
ensures is assumed), other callees are inlined; loops are cut by invariants that are proved inductive (Houdini over candidate
invariants supplied by the contract); every ensures / requires / invariant / no-unexpected-exception condition is an
obligation that is discharged with an SMT solver.
"""
import ast, itertools, time, os
import z3
from .values import *
from .program import Program

FEAS_TIMEOUT = 250


class State:
    __slots__ = ("pc", "heap", "env", "objs", "ret", "notes")

    def __init__(self):
        self.pc, self.heap, self.env, self.objs, self.notes = [], {}, {}, {}, {}

    def fork(self):
        s = State()
        s.pc, s.heap, s.env, s.objs, s.notes = list(self.pc), dict(self.heap), dict(self.env), dict(self.objs), dict(self.notes)
        return s

    def assume(self, f):
        if f is None or f is True:
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        self.pc.append(f)

    def __getitem__(self, name):
        return self.heap[name]

    def __setitem__(self, name, v):
        self.heap[name] = v


class Out:
    """outcome of executing statements"""

    __slots__ = ("kind", "v", "st")

    def __init__(self, kind, v, st):
        self.kind, self.v, self.st = kind, v, st


class Ob:
    def __init__(self, name, where, hyps, goal, prop=None, kind="post"):
        self.name, self.where, self.hyps, self.goal, self.prop, self.kind = name, where, hyps, goal, prop, kind


class LoopCtx:
    """what a contract sees of a loop when proposing invariants"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


_qcache = {}


def has_quant(e):
    i = e.get_id()
    if i in _qcache:
        return _qcache[i][0]
    todo, seen, r = [e], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if x.is_lambda():
                todo.append(x.body())
                continue
            r = True
            break
        todo.extend(x.children())
    _qcache[i] = (r, e)
    return r


NOEFFECT = {
    "print_trace", "name", "lineno_txt", "_modetxt", "time_to_str", "duration_to_str", "merge_blanks", "_prioritytxt", "_urgenttxt",
    "un_na", "remove_animation_children", "base_name", "_remove_from_aos", "object_to_str", "_frame_to_lineno", "_get_caller_frame",
    "frame_to_lineno", "an_quit",
}


def repr_eq(x, y):
    if isinstance(x, VBool):
        return z3.is_true(z3.simplify(x.b == y.b))
    if isinstance(x, VStr):
        return x.const is not None and x.const == y.const
    if isinstance(x, VNum):
        return z3.is_true(z3.simplify(z3.And(x.real() == y.real(), x.kz() == y.kz())))
    return False


class Engine:
    def __init__(self, program, session):
        self.p = program
        self.s = session
        self.obs = []
        self.cnt = itertools.count()
        self.where = "?"
        self.depth = 0
        self.loop_provider = None
        self.pre = None
        self.cargs = None
        self.discovering = 0  # > 0: only finding out what a loop modifies
        self.recording = True
        self.inlined = set()
        self.used_contracts = set()
        self.dropped = set()
        self.stats = dict(houdini_checks=0, feas_checks=0)
        self.axioms = []
        self._fs = {}
        self.deadline = None

    # ---------- helpers
    def fresh(self, name, sort):
        return z3.Const(f"{name}!{next(self.cnt)}", sort)

    def fresh_fn(self, name, *sorts):
        return z3.Function(f"{name}!{next(self.cnt)}", *sorts)

    def loc(self):
        return next(self.cnt)

    def new_list(self, st, content):
        l = self.loc()
        st.objs[l] = content
        return VList(l)

    def name_heap(self, st):
        """names compound heap terms, so that specifications can use them in quantifier patterns"""
        for k, t in st.heap.items():
            if t.num_args() > 0 or z3.is_quantifier(t):
                c = self.fresh(k, t.sort())
                st.pc.append(c == t)
                st.heap[k] = c

    def oblige(self, st, name, goal, kind="safety", prop=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if z3.is_true(goal):
            if kind == "ensures" and self.recording:
                self.obs.append(Ob(name, self.where, [], goal, prop, kind))
            return
        if self.recording:
            self.obs.append(Ob(name, self.where, list(st.pc), goal, prop, kind))

    def feasible(self, st, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        self.stats["feas_checks"] += 1
        s = z3.SimpleSolver()
        s.set("timeout", FEAS_TIMEOUT)
        for f in st.pc:
            if not has_quant(f):
                s.add(f)
        s.add(cond)
        return s.check() != z3.unsat

    def prove_now(self, hyps, goal, timeout=None):
        """used for Houdini"""
        from . import solve

        timeout = (timeout or self.s.houdini_timeout) * solve.SCALE
        self.stats["houdini_checks"] += 1
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return True
        timed = False
        from . import relevance

        for sl in relevance.slices(hyps, goal):
            s = z3.SimpleSolver()
            s.set("timeout", 700 * solve.SCALE)
            s.set("auto_config", False)
            s.set("mbqi", False)
            s.add(sl)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return True
        for mk, t in ((z3.SimpleSolver, timeout // 2), (z3.Solver, timeout // 2)):
            s = mk()
            s.set("timeout", t)
            s.set("auto_config", False)
            s.set("mbqi", False)
            for f in hyps:
                s.add(f)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return True
            r = s.reason_unknown()
            if "timeout" in r or "cancel" in r:
                timed = True
        if os.environ.get("PYVC_DUMP") and os.environ["PYVC_DUMP"] == getattr(self, "cand_name", None):
            s = z3.SimpleSolver()
            s.add(hyps)
            s.add(z3.Not(goal))
            open(f"/tmp/w/cand.{self.stats['houdini_checks']}.smt2", "w").write(s.to_smt2())
            for k, sl in enumerate(relevance.slices(hyps, goal)):
                s = z3.SimpleSolver()
                s.add(sl)
                s.add(z3.Not(goal))
                open(f"/tmp/w/cand.{self.stats['houdini_checks']}.s{k}.smt2", "w").write(s.to_smt2())
        self.stats["houdini_timeouts"] = self.stats.get("houdini_timeouts", 0) + timed
        return False

    # ---------- truth, equality, arithmetic
    def truth(self, v, st):
        if isinstance(v, VBool):
            return v.b
        if isinstance(v, VNone):
            return z3.BoolVal(False)
        if isinstance(v, VNum):
            b = v.e != 0
            return b if v.finite else z3.Or(v.k != 0, b)
        if isinstance(v, VText):
            return z3.Length(v.e) > 0
        if isinstance(v, VStr):
            return z3.BoolVal(v.const != "") if v.const is not None else v.e != strcode("")
        if isinstance(v, VRef):
            if self.p.find(v.cls, "__len__")[1] is not None and v.cls in self.p.classes:
                lenf = self.s.fields.get("Queue", {}).get("_length")
                if lenf and self.p.issub(v.cls, "Queue"):
                    return z3.And(v.e != 0, st["Queue._length"][v.e] != 0)
                raise Unsupported("truth of sized object")
            return v.e != 0 if v.nullable else z3.BoolVal(True)
        if isinstance(v, VOpaque):
            return self.fresh("nondet", BOOL)
        if isinstance(v, VObj):
            return self.s.obj_truth(v.e)
        if isinstance(v, (VSub, VEnv, VGlobal, VFunc, VUserFn, VBuiltin, VClass, VLocal, VModule)):
            return z3.BoolVal(True)
        if isinstance(v, VTuple):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, VList):
            c = st.objs[v.loc]
            if isinstance(c, PyList):
                return z3.BoolVal(len(c.items) > 0)
            if isinstance(c, SymSeq):
                return c.n > 0
            if isinstance(c, SetSeq):
                return c.dom != z3.K(INT, z3.BoolVal(False))
            if isinstance(c, FilterSeq):
                return self.fcount(c, st) > 0
        if isinstance(v, VDictL):
            return z3.BoolVal(len(st.objs[v.loc]) > 0)
        if isinstance(v, VField):
            if v.kind[0] == "dict":
                return st[v.key + "#dom"][v.owner] != z3.K(INT, z3.BoolVal(False))
            if v.kind[0] == "seq":
                return st[v.key + "#len"][v.owner] > 0
            return self.s.field_truth(self, v, st)
        raise Unsupported(f"truth of {v}")

    def eq(self, a, b, st):
        if isinstance(a, VNone) and isinstance(b, VNone):
            return z3.BoolVal(True)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VNone):
                if isinstance(y, VRef):
                    return y.e == 0
                if isinstance(y, VObj):
                    return y.e == 0
                if isinstance(y, VOpt):
                    return y.none
                if isinstance(y, VOpaque) and not getattr(y, "notnone", False):
                    return self.fresh("nondet", BOOL)
                return z3.BoolVal(False)
        if isinstance(a, VRef) and isinstance(b, VRef):
            return a.e == b.e
        if isinstance(a, VBool) and isinstance(b, VBool):
            return a.b == b.b
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            if isinstance(b, VOpt):
                a, b = b, a
            if isinstance(b, VOpt):
                return z3.If(a.none, b.none, z3.And(z3.Not(b.none), self.eq(a.v, b.v, st)))
            return z3.And(z3.Not(a.none), self.eq(a.v, b, st))
        if isinstance(a, VBool) and isinstance(b, VNum):
            a = VNum(z3.If(a.b, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(b, VBool) and isinstance(a, VNum):
            b = VNum(z3.If(b.b, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(a, VNum) and isinstance(b, VNum):
            return self.cmp(a, b, "==")
        if isinstance(a, VText) or isinstance(b, VText):
            x, y = self.text(a, st), self.text(b, st)
            if x is not None and y is not None:
                return x == y
            if isinstance(a, (VNone, VNum, VRef, VLocal)) or isinstance(b, (VNone, VNum, VRef, VLocal)):
                return z3.BoolVal(False)
            raise Unsupported("text comparison")
        if isinstance(a, VStr) and isinstance(b, VStr):
            if a.const is not None and b.const is not None:
                return z3.BoolVal(a.const == b.const)
            return a.e == b.e
        if isinstance(a, VObj) and isinstance(b, VObj):
            return a.e == b.e
        if isinstance(a, VEnv) and isinstance(b, VEnv):
            return z3.BoolVal(True)
        if isinstance(a, VSub) and isinstance(b, VSub):
            return a.owner == b.owner if a.prefix == b.prefix else z3.BoolVal(False)
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And([self.eq(x, y, st) for x, y in zip(a.items, b.items)] or [z3.BoolVal(True)])
        if isinstance(a, (VOpaque, VObj)) or isinstance(b, (VOpaque, VObj)):
            return self.fresh("nondet", BOOL)
        if isinstance(a, VBuiltin) and isinstance(b, VBuiltin) and a.self_v is None and b.self_v is None:
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, VLocal) or isinstance(b, VLocal):
            for x in (a, b):
                if isinstance(x, VLocal) and self.p.find(x.cls, "__eq__")[1] is not None:
                    raise Unsupported("user defined equality")
            return z3.BoolVal(isinstance(a, VLocal) and isinstance(b, VLocal) and a.loc == b.loc)
        if isinstance(a, (VList, VTuple)) and isinstance(b, (VList, VTuple)):
            if type(a) is not type(b):
                return z3.BoolVal(False)
            x, y = st.objs[a.loc], st.objs[b.loc]
            if isinstance(x, PyList) and isinstance(y, PyList):
                return self.eq(VTuple(x.items), VTuple(y.items), st)
            if not isinstance(x, SetSeq) and not isinstance(y, SetSeq):
                x, y = self.as_symseq(x, st), self.as_symseq(y, st)
                i = self.fresh("i", INT)
                return z3.And(x.n == y.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < x.n), self.eq(x.elem(i), y.elem(i), st))))
        if isinstance(a, (VList, VTuple)) != isinstance(b, (VList, VTuple)) and isinstance(a, (VList, VTuple, VNum, VStr, VBool, VRef)) and isinstance(b, (VList, VTuple, VNum, VStr, VBool, VRef)):
            return z3.BoolVal(False)
        if type(a) is not type(b) and isinstance(a, (VRef, VNum, VStr, VBool, VEnv, VSub)) and isinstance(b, (VRef, VNum, VStr, VBool, VEnv, VSub)):
            return z3.BoolVal(False)
        raise Unsupported(f"equality of {a} and {b}")

    def coerce2(self, a, b):
        if z3.is_int(a.e) and z3.is_int(b.e):
            return a.e, b.e
        return a.real(), b.real()

    def cmp(self, a, b, op):
        if a.finite and b.finite:
            x, y = self.coerce2(a, b)
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
        x, y = a.real(), b.real()
        ka, kb = a.kz(), b.kz()
        fin = z3.And(ka == 0, kb == 0)
        lt = z3.Or(ka < kb, z3.And(fin, x < y))
        eq = z3.Or(z3.And(ka == kb, ka != 0), z3.And(fin, x == y))
        r = {"<": lt, "<=": z3.Or(lt, eq), "==": eq, "!=": z3.Not(eq), ">": z3.Not(z3.Or(lt, eq)), ">=": z3.Not(lt)}[op]
        return z3.simplify(r) if not has_quant(r) else r

    def neg(self, a):
        return VNum(-a.e, -a.k if isinstance(a.k, int) else -a.k)

    def unopt(self, v, st):
        if isinstance(v, VOpt):
            self.oblige(st, "no-TypeError(None)", z3.Not(v.none))
            return v.v
        return v

    def binop(self, op, a, b, st):
        a, b = self.unopt(a, st), self.unopt(b, st)
        if isinstance(a, VBool):
            a = VNum(z3.If(a.b, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(b, VBool):
            b = VNum(z3.If(b.b, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(a, VNum) and isinstance(b, VNum):
            if isinstance(op, (ast.Add, ast.Sub)):
                if isinstance(op, ast.Sub):
                    b = self.neg(b)
                if a.finite and b.finite:
                    x, y = self.coerce2(a, b)
                    return VNum(x + y)
                ka, kb = a.kz(), b.kz()
                self.oblige(st, "no-nan(inf-inf)", z3.Not(z3.And(ka != 0, kb != 0, ka != kb)))
                k = z3.simplify(z3.If(ka != 0, ka, kb))
                return VNum(a.real() + b.real(), k)
            if isinstance(op, ast.Mult):
                if a.finite and b.finite:
                    x, y = self.coerce2(a, b)
                    return VNum(x * y)
                for x, y in ((a, b), (b, a)):
                    if x.finite:
                        # inf * 0 is nan
                        self.oblige(st, "no-nan(inf*0)", z3.Or(y.kz() == 0, x.real() != 0))
                        sg = z3.If(x.real() > 0, y.kz(), -y.kz())
                        return VNum(x.real() * y.real(), z3.simplify(sg))
                raise Unsupported("multiplication with infinity")
            if isinstance(op, ast.Div):
                if a.finite and b.finite:
                    self.oblige(st, "no-ZeroDivisionError", b.real() != 0)
                    return VNum(a.real() / b.real())
                if a.finite:
                    self.oblige(st, "no-ZeroDivisionError", z3.Or(b.kz() != 0, b.real() != 0))
                    return VNum(z3.If(b.kz() != 0, z3.RealVal(0), a.real() / b.real()))
                raise Unsupported("division of infinity")
            if isinstance(op, ast.FloorDiv) and a.isint and b.isint:
                self.oblige(st, "divisor positive", b.e > 0)
                return VNum(a.e / b.e)
            if isinstance(op, ast.Mod):
                if a.isint and b.isint:
                    self.oblige(st, "divisor positive", b.e > 0)
                    return VNum(a.e % b.e)
                if a.finite and b.finite:
                    self.oblige(st, "divisor positive", b.real() > 0)
                    return VNum(a.real() - b.real() * z3.ToReal(z3.ToInt(a.real() / b.real())))
            if isinstance(op, ast.Pow):
                bv = z3.simplify(b.e)
                if z3.is_int_value(bv) or z3.is_rational_value(bv):
                    fr = bv.as_fraction() if z3.is_rational_value(bv) else bv.as_long()
                    if fr == 2:
                        return VNum(a.e * a.e)
                    if float(fr) == 0.5:
                        return self.sqrt(a, st)
            raise Unsupported(f"arithmetic {op}")
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)) and isinstance(a, VList) and isinstance(b, VList):
            ca, cb = st.objs[a.loc], st.objs[b.loc]
            if isinstance(ca, SetSeq) and isinstance(cb, SetSeq):
                d, x = self.fresh("set", z3.ArraySort(INT, BOOL)), self.fresh("x", INT)
                f = {ast.BitAnd: z3.And(ca.dom[x], cb.dom[x]), ast.BitOr: z3.Or(ca.dom[x], cb.dom[x]), ast.Sub: z3.And(ca.dom[x], z3.Not(cb.dom[x]))}[type(op)]
                st.assume(z3.ForAll([x], d[x] == f, patterns=[d[x]]))
                return self.new_list(st, SetSeq(d, ca.cls))
        if isinstance(op, ast.Add) and isinstance(a, (VList,)) and isinstance(b, (VList,)):
            ca, cb = st.objs[a.loc], st.objs[b.loc]
            if isinstance(ca, PyList) and isinstance(cb, PyList):
                return self.new_list(st, PyList(ca.items + cb.items))
            return self.new_list(st, self.concat(self.as_symseq(ca, st), self.as_symseq(cb, st)))
        if isinstance(op, ast.Add) and (isinstance(a, VField) or isinstance(b, VField)):
            return self.new_list(st, self.concat(self.seq_of(a, st), self.seq_of(b, st)))
        if isinstance(op, ast.Add) and isinstance(a, VTuple) and isinstance(b, VTuple):
            return VTuple(a.items + b.items)
        if isinstance(op, ast.Mult) and isinstance(a, (VList, VTuple)) and isinstance(b, VNum):
            n = z3.simplify(b.e)
            if not z3.is_int_value(n) and isinstance(a, VTuple) and len(a.items) == 1 and z3.is_int(b.e):
                x = a.items[0]
                q = SymSeq(z3.If(b.e > 0, b.e, z3.IntVal(0)), lambda i: x)
                q.const = True
                return self.new_list(st, q)
            if z3.is_int_value(n):
                items = (a.items if isinstance(a, VTuple) else st.objs[a.loc].items) * n.as_long()
                return VTuple(items) if isinstance(a, VTuple) else self.new_list(st, PyList(items))
        if isinstance(op, ast.Add) and self.s.texts:
            x, y = self.text(a, st), self.text(b, st)
            if x is not None and y is not None:
                return VText(z3.Concat(x, y))
        if isinstance(a, (VOpaque, VStr)) or isinstance(b, (VOpaque, VStr)):
            return VOpaque("string or opaque expression")
        if isinstance(op, ast.Mult) and isinstance(a, VNum) and isinstance(b, VList):
            a, b = b, a
        if isinstance(op, ast.Mult) and isinstance(a, VList) and isinstance(b, VNum) and isinstance(st.objs[a.loc], PyList) and len(st.objs[a.loc].items) == 1:
            x = st.objs[a.loc].items[0]
            return self.new_list(st, SymSeq(z3.If(b.e > 0, b.e, z3.IntVal(0)), lambda i: x))
        raise Unsupported(f"binop {type(op).__name__} on {a}, {b}")

    def sqrt(self, a, st):
        self.oblige(st, "sqrt argument >= 0", a.real() >= 0)
        r = self.fresh("sqrt", REAL)
        st.assume(z3.And(r >= 0, r * r == a.real()))
        return VNum(r)

    def concat(self, x, y):
        def elem(i):
            return self.ite(i < x.n, x.elem(i), y.elem(i - x.n))

        r = SymSeq(x.n + y.n, elem)
        ps = lambda q: getattr(q, "parts", None) or [(q, getattr(q, "source", None))]
        r.parts = ps(x) + ps(y)
        return r

    def as_symseq(self, c, st=None):
        if isinstance(c, SymSeq):
            return c
        if isinstance(c, PyList):
            items = list(c.items)

            def elem(i):
                iv = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
                if z3.is_int_value(iv) and -len(items) <= iv.as_long() < len(items):
                    return items[iv.as_long()]
                if not items:
                    return NONE
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = self.ite(i == j, items[j], r)
                return r

            return SymSeq(z3.IntVal(len(items)), elem)
        raise Unsupported("not an ordered sequence")

    def seq_of(self, v, st):
        """ordered symbolic sequence view of a value"""
        if isinstance(v, VList):
            return self.as_symseq(st.objs[v.loc], st)
        if isinstance(v, VTuple):
            return self.as_symseq(PyList(v.items), st)
        if isinstance(v, VField) and v.kind[0] == "seq":
            n = st[v.key + "#len"][v.owner]
            arrs = self.s.seq_arrays(v.kind[1])
            maps = [st[v.key + "#" + a][v.owner] for a in arrs]
            kind = v.kind[1]
            r = SymSeq(n, lambda i: self.s.seq_elem(self, kind, [m[i] for m in maps]))
            r.source = v.key
            return r
        r = self.s.seq_of(self, v, st)
        if r is not None:
            return r
        raise Unsupported(f"sequence view of {v}")

    # ---------- merging
    def ite(self, c, a, b):
        r = self.merge_val(c, a, b)
        if r is None:
            raise Unsupported("incompatible conditional value")
        return r

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, VNone) and isinstance(b, VNone):
            return NONE
        if isinstance(a, VBool) and isinstance(b, VBool):
            return a if a.b.eq(b.b) else VBool(z3.If(c, a.b, b.b))
        if isinstance(a, VBool) and isinstance(b, VNum):
            a = VNum(z3.If(a.b, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(b, VBool) and isinstance(a, VNum):
            b = VNum(z3.If(b.b, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(a, VNum) and isinstance(b, VNum):
            x, y = self.coerce2(a, b)
            if isinstance(a.k, int) and isinstance(b.k, int) and a.k == b.k:
                return VNum(x if x.eq(y) else z3.If(c, x, y), a.k)
            return VNum(z3.If(c, a.real(), b.real()), z3.If(c, a.kz(), b.kz()))
        if self.s.texts and isinstance(a, (VText, VStr)) and isinstance(b, (VText, VStr)):
            x, y = self.text(a, None), self.text(b, None)
            return VText(x if x.eq(y) else z3.If(c, x, y)) if x is not None and y is not None else None
        if isinstance(a, VTextDict) and isinstance(b, VTextDict) and a.key == b.key:
            return a
        if isinstance(a, VStr) and isinstance(b, VStr):
            if a.const is not None and a.const == b.const:
                return a
            return VStr(z3.If(c, a.e, b.e))
        if isinstance(a, VRef) and isinstance(b, VRef):
            cls = a.cls if self.p.issub(b.cls, a.cls) else (b.cls if self.p.issub(a.cls, b.cls) else None)
            if cls is None:
                return None
            return VRef(a.e if a.e.eq(b.e) else z3.If(c, a.e, b.e), cls, a.nullable or b.nullable)
        if isinstance(a, VRef) and isinstance(b, VNone):
            return VRef(z3.If(c, a.e, z3.IntVal(0)), a.cls, True)
        if isinstance(a, VNone) and isinstance(b, VRef):
            return VRef(z3.If(c, z3.IntVal(0), b.e), b.cls, True)
        if isinstance(a, VObj) and isinstance(b, VObj):
            return VObj(z3.If(c, a.e, b.e))
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            if isinstance(a, (VOpaque, VStr, VNone, VBool, VNum)) and isinstance(b, (VOpaque, VStr, VNone, VBool, VNum)):
                return VOpaque("merged")
            return None
        if isinstance(a, VStr) or isinstance(b, VStr):
            return None
        if isinstance(a, VList) and isinstance(b, VList) and a.loc == b.loc:
            return a
        if isinstance(a, (VDictL, VLocal)) and type(a) is type(b) and a.loc == b.loc:
            return a
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            r = [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)]
            return None if any(x is None for x in r) else VTuple(r)
        if isinstance(a, VField) and isinstance(b, VField) and a.key == b.key:
            return VField(z3.If(c, a.owner, b.owner), a.ocls, a.name, a.kind)
        if isinstance(a, VSub) and isinstance(b, VSub) and a.prefix == b.prefix:
            return VSub(z3.If(c, a.owner, b.owner), a.ocls, a.role, a.cls)
        if isinstance(a, VEnv) and isinstance(b, VEnv):
            return a
        if isinstance(a, VFunc) and isinstance(b, VFunc) and a.node is b.node:
            return a
        if isinstance(a, VUserFn) and isinstance(b, VUserFn) and a.name == b.name:
            return a
        if type(a) is type(b) and isinstance(a, (VClass, VModule, VBuiltin, VGlobal)) and a.name == b.name:
            return a
        return None

    def merge_content(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items):
            r = [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)]
            return None if any(x is None for x in r) else PyList(r)
        if isinstance(a, PyList) and isinstance(b, PyList) and self.s.split_lists:
            return None
        if isinstance(a, (PyList, SymSeq)) and isinstance(b, (PyList, SymSeq)):
            if isinstance(a, PyList) and not a.items and isinstance(b, SymSeq):
                return SymSeq(z3.If(c, z3.IntVal(0), b.n), b.elem)
            if isinstance(b, PyList) and not b.items and isinstance(a, SymSeq):
                return SymSeq(z3.If(c, a.n, z3.IntVal(0)), a.elem)
            if isinstance(a, PyList) and not a.items:
                return SymSeq(z3.If(c, z3.IntVal(0), z3.IntVal(len(b.items))), self.as_symseq(b).elem)
            if isinstance(b, PyList) and not b.items:
                return SymSeq(z3.If(c, z3.IntVal(len(a.items)), z3.IntVal(0)), self.as_symseq(a).elem)
            x, y = self.as_symseq(a), self.as_symseq(b)
            return SymSeq(z3.If(c, x.n, y.n), lambda i: self.ite(c, x.elem(i), y.elem(i)))
        if isinstance(a, SetSeq) and isinstance(b, SetSeq) and a.cls == b.cls:
            return SetSeq(z3.If(c, a.dom, b.dom), a.cls, a.val)
        if isinstance(a, SetSeq) and isinstance(b, PyList) and not b.items:
            return SetSeq(z3.If(c, a.dom, z3.K(INT, z3.BoolVal(False))), a.cls, a.val)
        if isinstance(b, SetSeq) and isinstance(a, PyList) and not a.items:
            return SetSeq(z3.If(c, z3.K(INT, z3.BoolVal(False)), b.dom), b.cls, b.val)
        if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
            r = {k: self.merge_val(c, a[k], b[k]) for k in a}
            return None if any(x is None for x in r.values()) else r
        return None

    def merge(self, base, c, s1, s2):
        n = len(base.pc)
        m = State()
        m.notes = dict(s1.notes)
        for k in set(s1.notes) | set(s2.notes):
            x, y = s1.notes.get(k), s2.notes.get(k)
            if x is y or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)):
                continue
            if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef) or x != y:
                return None
        # a variable that is assigned in one branch only may be read under the same condition later
        for a, b, cond in ((s1, s2, c), (s2, s1, z3.Not(c))):
            for k in a.env:
                if k not in b.env and not k.startswith("__"):
                    v = a.env[k]
                    m.env[k] = VMaybe(z3.And(cond, v.cond), v.v) if isinstance(v, VMaybe) else VMaybe(cond, v)
        m.pc = list(s1.pc[:n])
        for f in s1.pc[n:]:
            if not f.eq(c):
                m.pc.append(z3.Implies(c, f))
        nc = z3.Not(c)
        for f in s2.pc[n:]:
            if not f.eq(nc):
                m.pc.append(z3.Implies(nc, f))
        for k in s1.heap:
            a, b = s1.heap[k], s2.heap[k]
            m.heap[k] = a if a.eq(b) else z3.If(c, a, b)
        # local list variables bound to different locations in the two branches: unify
        for k in s1.env:
            if k in s2.env:
                va, vb = s1.env[k], s2.env[k]
                if isinstance(va, VMaybe) or isinstance(vb, VMaybe):
                    ca, xa = (va.cond, va.v) if isinstance(va, VMaybe) else (z3.BoolVal(True), va)
                    cb, xb = (vb.cond, vb.v) if isinstance(vb, VMaybe) else (z3.BoolVal(True), vb)
                    if xa is xb:
                        m.env[k] = VMaybe(z3.If(c, ca, cb), xa)
                        continue
                    try:
                        r = self.merge_val(c, xa, xb) if not isinstance(xa, VList) and not isinstance(xb, VList) else None
                    except Unsupported:
                        r = None
                    if r is not None:
                        m.env[k] = VMaybe(z3.If(c, ca, cb), r)
                    continue
                if isinstance(va, VList) and isinstance(vb, VList) and va.loc != vb.loc:
                    try:
                        cc = self.merge_content(c, s1.objs[va.loc], s2.objs[vb.loc])
                    except Unsupported:
                        return None
                    if cc is None:
                        return None
                    l = self.loc()
                    m.objs[l] = cc
                    m.env[k] = VList(l)
                    continue
                try:
                    r = self.merge_val(c, va, vb)
                except Unsupported:
                    return None
                if r is None:
                    return None
                m.env[k] = r
        for k in s1.objs:
            if k in s2.objs:
                try:
                    r = self.merge_content(c, s1.objs[k], s2.objs[k])
                except Unsupported:
                    return None
                if r is None:
                    return None
                m.objs[k] = r
        return m

    # ---------- evaluation.  results: list of Out(kind 'ok'/'raise'/'suspend')
    def bind(self, outs, f):
        r = []
        for o in outs:
            if o.kind == "ok":
                r.extend(f(o.v, o.st))
            else:
                r.append(o)
        return r

    def ok(self, v, st):
        return [Out("ok", v, st)]

    def evals(self, nodes, st, acc=()):
        """evaluates a list of expressions left to right -> list of Out with python tuple value"""
        if not nodes:
            return [Out("ok", tuple(acc), st)]
        return self.bind(self.eval(nodes[0], st), lambda v, s: self.evals(nodes[1:], s, tuple(acc) + (v,)))

    def eval(self, n, st):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("symbolic execution time limit")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, st)

    def e_Constant(self, n, st):
        return self.ok(self.const(n.value), st)

    def const(self, x):
        if x is None:
            return NONE
        if isinstance(x, bool):
            return VBool(x)
        if isinstance(x, (int,)):
            return VNum(x)
        if isinstance(x, float):
            if x == float("inf"):
                return INFV
            if x == float("-inf"):
                return self.neg(INFV)
            if x != x:
                return VOpaque("nan")
            return VNum(x)
        if isinstance(x, str):
            return VStr(const=x)
        return VOpaque(repr(x))

    def e_Name(self, n, st):
        if n.id in st.env:
            v = st.env[n.id]
            if isinstance(v, VMaybe):
                self.oblige(st, f"no-UnboundLocalError({n.id})", v.cond)
                st.assume(v.cond)
                st.env[n.id] = v = v.v
            return self.ok(v, st)
        return self.ok(self.lookup_global(n.id, st), st)

    BUILTINS = {"len", "list", "range", "isinstance", "min", "max", "abs", "int", "float", "str", "bool", "tuple", "sorted", "reversed", "sum", "zip",
                "enumerate", "hasattr", "getattr", "callable", "any", "all", "set", "dict", "repr", "id", "next", "iter", "round", "print", "hex", "type", "map", "filter"}

    def lookup_global(self, name, st):
        g = self.s.globals(self, name)
        if g is not None:
            return g
        if name in self.p.consts:
            c = self.p.consts[name]
            if isinstance(c, ast.Constant):
                return self.const(c.value)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "float" and isinstance(c.args[0], ast.Constant):
                return self.const(float(c.args[0].value))
        if name in self.p.classes:
            return VClass(name)
        if name in self.p.funcs:
            return VFunc(self.p.funcs[name], qual=name)
        if name in self.BUILTINS:
            return VBuiltin(name)
        if name in ("heapq", "collections", "math", "random", "inspect", "itertools", "bisect", "array", "numbers", "greenlet", "copy", "operator", "datetime"):
            return VModule(name)
        if name in ("ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "Exception", "StopIteration", "NotImplementedError", "object", "slice"):
            return VClass(name)
        raise Unsupported(f"global {name}")

    def e_Attribute(self, n, st):
        return self.bind(self.eval(n.value, st), lambda v, s: self.getattr(v, n.attr, s))

    def nonnull(self, v, st, what):
        if v.nullable:
            self.oblige(st, f"no-AttributeError(None.{what})", v.e != 0)
            st.assume(v.e != 0)

    def field_kind(self, cls, name):
        for c in self.p.mro(cls) or [cls]:
            k = self.s.fields.get(c, {}).get(name)
            if k is not None:
                return c, k
        k = self.s.fields.get(cls, {}).get(name)
        return (cls, k) if k is not None else (None, None)

    def read(self, st, key, kind, owner):
        """heap read of a field of given kind"""
        if kind == "opaque":
            return VOpaque(key)
        if kind == "env":
            return VEnv()
        if isinstance(kind, tuple):
            if kind[0] == "ref":
                return VRef(st[key][owner], kind[1], kind[2] if len(kind) > 2 else True)
            if kind[0] == "sub":
                ocls, role = key.split(".", 1)
                return VSub(owner, ocls, role, kind[1])
            if kind[0] == "fn":
                return kind[1](self, st, owner)
            ocls, nm = key.split(".", 1)
            return VField(owner, ocls, nm, kind)
        a = st[key][owner] if owner is not None else st[key]
        if kind in ("int", "real"):
            return VNum(a)
        if kind == "xreal":
            return VNum(a, st[key + "#k"][owner] if owner is not None else st[key + "#k"])
        if kind == "bool":
            return VBool(a)
        if kind == "str":
            return VStr(a)
        if kind == "obj":
            return VObj(a)
        raise Unsupported(f"field kind {kind}")

    def coerce(self, v, kind, st):
        """value -> list of z3 terms for a scalar kind"""
        if kind == "int":
            if isinstance(v, VBool):
                v = VNum(z3.If(v.b, z3.IntVal(1), z3.IntVal(0)))
            if isinstance(v, VNum) and v.finite and z3.is_int(v.e):
                return [v.e]
        elif kind == "real":
            if isinstance(v, VNum) and v.finite:
                return [v.real()]
            if isinstance(v, VNum):
                self.oblige(st, "finite number stored", v.kz() == 0)
                return [v.real()]
        elif kind == "xreal":
            if isinstance(v, VNum):
                return [v.real(), v.kz()]
        elif kind == "bool":
            return [self.truth(v, st)]
        elif kind == "str":
            if isinstance(v, VStr):
                return [v.e]
            if isinstance(v, (VOpaque, VNone)):
                return [self.fresh("str", INT)]
        elif kind == "obj":
            if isinstance(v, VObj):
                return [v.e]
            if isinstance(v, VNone):
                return [z3.IntVal(0)]
            if isinstance(v, VRef):
                return [v.e]
            if isinstance(v, VOpaque):
                return [self.fresh("obj", INT)]
            if isinstance(v, (VNum, VStr, VBool)):
                return [self.s.box(self, v)]
        elif isinstance(kind, tuple) and kind[0] == "ref":
            if isinstance(v, VRef):
                return [v.e]
            if isinstance(v, VNone):
                return [z3.IntVal(0)]
        raise Unsupported(f"cannot store {v} as {kind}")

    def write(self, st, key, kind, owner, v, hook=True):
        if kind in ("opaque", "env"):
            return
        if isinstance(kind, tuple) and kind[0] == "sub" and isinstance(v, VOpaque) and hasattr(v, "initial"):
            fk = self.s.sub_fields.get(key, {}).get("_tally")
            if fk is not None and v.initial is not None:
                self.write(st, key + "._tally", fk, owner, v.initial)
            return
        if isinstance(kind, tuple) and kind[0] in ("sub", "fn"):
            raise Unsupported(f"re-assignment of owned object {key}")
        if isinstance(kind, tuple) and kind[0] == "dict":
            if isinstance(v, VDictL) and not st.objs[v.loc]:
                self.s.dict_cleared(self, key, st, owner)
                st[key + "#dom"] = z3.Store(st[key + "#dom"], owner, z3.K(INT, z3.BoolVal(False)))
                return
            raise Unsupported(f"assignment to dict field {key}")
        if isinstance(kind, tuple) and kind[0] == "seq":
            sq = self.seq_of(v, st)
            st[key + "#len"] = z3.Store(st[key + "#len"], owner, sq.n)
            arrs = self.s.seq_arrays(kind[1])
            n = z3.simplify(sq.n)
            empty = z3.is_int_value(n) and n.as_long() == 0
            if hook:
                f = VField(owner, key.split(".")[0], key.split(".", 1)[1], kind)
                src = getattr(sq, "parts", None) or ([(sq, v.key)] if isinstance(v, VField) else [(sq, getattr(sq, "source", None))])
                self.s.seq_op(self, st, f, "write", parts=[] if empty else src)
            if empty:
                return
            i = self.fresh("i", INT)
            terms = self.s.seq_unelem(self, kind[1], sq.elem(i), st)
            for a, t in zip(arrs, terms):
                arr = self.fresh("seqarr", z3.ArraySort(INT, t.sort()))
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sq.n), arr[i] == t), patterns=[arr[i]]))
                st[key + "#" + a] = z3.Store(st[key + "#" + a], owner, arr)
            return
        if isinstance(kind, tuple) and kind[0] == "special":
            return self.s.write_special(self, st, key, kind, owner, v)
        t = self.coerce(v, kind, st)
        if owner is None:
            st[key] = t[0]
            if kind == "xreal":
                st[key + "#k"] = t[1]
        else:
            st[key] = z3.Store(st[key], owner, t[0])
            if kind == "xreal":
                st[key + "#k"] = z3.Store(st[key + "#k"], owner, t[1])

    def getattr(self, v, name, st):
        if isinstance(v, VRef):
            self.nonnull(v, st, name)
            c, k = self.field_kind(v.cls, name)
            if k is not None:
                return self.ok(self.read(st, f"{c}.{name}", k, v.e), st)
            return self.class_attr(v, v.cls, name, st)
        if isinstance(v, VLocal):
            d = st.objs[v.loc]
            if name in d:
                return self.ok(d[name], st)
            if name == "env" and "env" not in d:
                return self.ok(VEnv(), st)
            return self.class_attr(v, v.cls, name, st)
        if isinstance(v, VSub):
            k = self.s.sub_fields.get(v.prefix, {}).get(name)
            if k is not None:
                return self.ok(self.read(st, f"{v.prefix}.{name}", k, v.owner), st)
            if (v.prefix, name) in self.s.sub_methods or ("*", name) in self.s.sub_methods:
                return self.ok(VBuiltin("submethod:" + name, v), st)
            return self.class_attr(v, v.cls, name, st)
        if isinstance(v, VEnv):
            k = self.s.fields.get("Environment", {}).get(name)
            if name == "env":
                return self.ok(v, st)
            if k is not None:
                return self.ok(self.read(st, f"Environment.{name}", k, None if not (isinstance(k, tuple) and k[0] in ("seq", "dict", "special", "ref")) else z3.IntVal(1)), st)
            return self.class_attr(v, "Environment", name, st)
        if isinstance(v, VGlobal):
            k = self.s.fields.get(v.name, {}).get(name)
            if k is not None:
                return self.ok(self.read(st, f"{v.name}.{name}", k, None), st)
            return self.ok(VOpaque(name), st)
        if isinstance(v, VModule):
            if v.name == "math" and name == "inf":
                return self.ok(INFV, st)
            if v.name == "math" and name == "nan":
                return self.ok(VOpaque("nan"), st)
            return self.ok(VBuiltin(v.name + "." + name), st)
        if isinstance(v, (VField, VList, VTuple, VDictL, VStr, VNum, VText, VTextDict)):
            return self.ok(VBuiltin("method:" + name, v), st)
        if isinstance(v, VOpaque):
            if name == "switch":
                return self.ok(VBuiltin("switch", v), st)
            return self.ok(VBuiltin("opaque:" + name, v), st) if name not in ("dead",) else self.ok(VOpaque(name), st)
        if isinstance(v, VClass):
            c, m = self.p.find(v.name, name)
            if m is not None:
                return self.ok(VFunc(m, cls=c, qual=f"{c}.{name}"), st)
            for c in self.p.mro(v.name):
                if name in self.p.classes[c].attrs:
                    return self.eval(self.p.classes[c].attrs[name], st)
        if isinstance(v, VBuiltin) and v.name == "super":
            c, m = self.find_super(v.cls_after, v.dyn, name)
            return self.ok(VFunc(m, cls=c, self_v=v.self_v, qual=f"{c}.{name}"), st)
        if isinstance(v, VNone):
            self.oblige(st, f"no-AttributeError(None.{name})", z3.BoolVal(False))
            return []
        if isinstance(v, VBuiltin):
            return self.ok(VBuiltin(v.name + "." + name, v.self_v), st)
        if isinstance(v, (VObj, VUserFn, VFunc)):
            return self.ok(VBuiltin("opaque:" + name, v), st)
        raise Unsupported(f"attribute {name} of {v}")

    def find_super(self, after, dyn, name):
        mro = self.p.mro(dyn)
        i = mro.index(after) if after in mro else -1
        for c in mro[i + 1:]:
            if name in self.p.classes[c].methods:
                return c, self.p.classes[c].methods[name]
        raise Unsupported("super()." + name)

    def class_attr(self, v, cls, name, st):
        c, m = self.p.find(cls, name)
        if m is not None:
            if name in self.p.classes[c].static:
                return self.ok(VFunc(m, cls=c, qual=f"{c}.{name}"), st)
            return self.ok(VFunc(m, cls=c, self_v=v, qual=f"{c}.{name}"), st)
        c, m = self.p.find_prop(cls, name)
        if m is not None:
            return self.call_node(m, f"{c}.{name}", [v], {}, st, cls=c)
        for c in self.p.mro(cls):
            if name in self.p.classes[c].attrs:
                return self.eval(self.p.classes[c].attrs[name], st)
        return self.ok(VOpaque(f"{cls}.{name}"), st)

    def setattr(self, v, name, val, st):
        if isinstance(v, VRef):
            self.nonnull(v, st, name)
            c, k = self.field_kind(v.cls, name)
            if k is not None:
                self.write(st, f"{c}.{name}", k, v.e, val)
                return [Out("ok", None, st)]
            c, m = self.p.find_setter(v.cls, name)
            if m is not None:
                return self.call_node(m, f"{c}.{name}@set", [v, val], {}, st, cls=c)
            self.dropped.add(f"write to unmodelled attribute {v.cls}.{name}")
            return [Out("ok", None, st)]
        if isinstance(v, VSub):
            k = self.s.sub_fields.get(v.prefix, {}).get(name)
            if k is not None:
                self.write(st, f"{v.prefix}.{name}", k, v.owner, val)
                return [Out("ok", None, st)]
            c, m = self.p.find_setter(v.cls, name)
            if m is not None:
                return self.call_node(m, f"{c}.{name}@set", [v, val], {}, st, cls=c)
            self.dropped.add(f"write to unmodelled attribute {v.prefix}.{name}")
            return [Out("ok", None, st)]
        if isinstance(v, VLocal):
            c, m = self.p.find_setter(v.cls, name)
            if m is not None:
                return self.call_node(m, f"{c}.{name}@set", [v, val], {}, st, cls=c)
            d = dict(st.objs[v.loc])
            d[name] = val
            st.objs[v.loc] = d
            return [Out("ok", None, st)]
        if isinstance(v, (VEnv, VGlobal)):
            nm = "Environment" if isinstance(v, VEnv) else v.name
            k = self.s.fields.get(nm, {}).get(name)
            if k is not None:
                self.write(st, f"{nm}.{name}", k, None if not (isinstance(k, tuple)) else z3.IntVal(1), val)
            else:
                self.dropped.add(f"write to unmodelled attribute {nm}.{name}")
            return [Out("ok", None, st)]
        if isinstance(v, VOpaque):
            return [Out("ok", None, st)]
        raise Unsupported(f"attribute assignment on {v}")

    def e_BinOp(self, n, st):
        return self.bind(self.evals([n.left, n.right], st), lambda ab, s: self.ok(self.binop(n.op, ab[0], ab[1], s), s))

    def e_UnaryOp(self, n, st):
        def f(v, s):
            if isinstance(n.op, ast.Not):
                return self.ok(VBool(z3.Not(self.truth(v, s))), s)
            if isinstance(n.op, ast.USub):
                if isinstance(v, VNum):
                    return self.ok(self.neg(v), s)
                if isinstance(v, VOpaque):
                    return self.ok(v, s)
            if isinstance(n.op, ast.UAdd):
                return self.ok(v, s)
            raise Unsupported("unary operator")

        return self.bind(self.eval(n.operand, st), f)

    def e_BoolOp(self, n, st):
        def go(vals, s):
            if len(vals) == 1:
                return self.eval(vals[0], s)

            def f(v, s1):
                t = z3.simplify(self.truth(v, s1)) if not isinstance(v, VOpaque) else self.truth(v, s1)
                isand = isinstance(n.op, ast.And)
                if z3.is_true(t):
                    return go(vals[1:], s1) if isand else self.ok(v, s1)
                if z3.is_false(t):
                    return self.ok(v, s1) if isand else go(vals[1:], s1)
                s2 = s1.fork()
                s2.assume(t if isand else z3.Not(t))
                res = go(vals[1:], s2)
                # merge when the right operand is pure
                if len(res) == 1 and res[0].kind == "ok":
                    r = res[0]
                    same = all(r.st.heap[k] is s1.heap[k] or r.st.heap[k].eq(s1.heap[k]) for k in s1.heap)
                    if same:
                        c = t if isand else z3.Not(t)
                        for x in r.st.pc[len(s1.pc) + 1:]:
                            s1.assume(z3.Implies(c, x))
                        s1.objs.update({k: o for k, o in r.st.objs.items() if k not in s1.objs})
                        if isinstance(v, VBool) and isinstance(r.v, VBool):
                            return self.ok(VBool(z3.And(t, r.v.b) if isand else z3.Or(t, r.v.b)), s1)
                        mv = self.merge_val(c, r.v, v)
                        if mv is not None:
                            return self.ok(mv, s1)
                        tr = self.truth(r.v, s1)
                        return self.ok(VBool(z3.And(t, tr) if isand else z3.Or(t, tr)), s1)
                s3 = s1.fork()
                s3.assume(z3.Not(t) if isand else t)
                return res + self.ok(v, s3)

            return self.bind(self.eval(vals[0], s), f)

        return go(n.values, st)

    def e_Compare(self, n, st):
        def f(vs, s):
            conds = []
            for op, a, b in zip(n.ops, vs, vs[1:]):
                conds.append(self.compare(op, a, b, s))
            return self.ok(VBool(conds[0] if len(conds) == 1 else z3.And(conds)), s)

        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            def g(vs, s):
                outs = self.contains(vs[1], vs[0], s)
                if isinstance(n.ops[0], ast.NotIn):
                    return self.bind(outs, lambda v, s2: self.ok(VBool(z3.Not(self.truth(v, s2))), s2))
                return outs

            return self.bind(self.evals([n.left, n.comparators[0]], st), g)
        return self.bind(self.evals([n.left] + n.comparators, st), f)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b, st)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return z3.Not(self.eq(a, b, st))
        ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
        a, b = self.unopt(a, st), self.unopt(b, st)
        for k, s in ops.items():
            if isinstance(op, k):
                if isinstance(a, VBool):
                    a = VNum(z3.If(a.b, z3.IntVal(1), z3.IntVal(0)))
                if isinstance(b, VBool):
                    b = VNum(z3.If(b.b, z3.IntVal(1), z3.IntVal(0)))
                if isinstance(a, VNum) and isinstance(b, VNum):
                    return self.cmp(a, b, s)
                if isinstance(a, (VOpaque, VObj)) or isinstance(b, (VOpaque, VObj)):
                    if isinstance(a, VObj) and isinstance(b, VObj):
                        return self.s.obj_lt(self, a, b, s)
                    return self.fresh("nondet", BOOL)
                if isinstance(a, VNone) or isinstance(b, VNone):
                    self.oblige(st, "no-TypeError(comparison with None)", z3.BoolVal(False))
                    return self.fresh("nondet", BOOL)
                if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items) and s in ("<", "<=", ">", ">="):
                    if s in (">", ">="):
                        a, b, s = b, a, "<" if s == ">" else "<="
                    r = z3.BoolVal(s == "<=")
                    for x, y in reversed(list(zip(a.items, b.items))):
                        r = z3.Or(self.cmp(x, y, "<"), z3.And(self.cmp(x, y, "=="), r))
                    return r
        raise Unsupported(f"comparison {type(op).__name__} of {a} and {b}")

    def contains(self, cont, x, st):
        if isinstance(cont, VTextDict):
            return self.ok(VBool(st[cont.key + "#dom"][self.text(x, st)]), st)
        if isinstance(cont, VTuple):
            return self.ok(VBool(z3.Or([self.eq(x, y, st) for y in cont.items] or [z3.BoolVal(False)])), st)
        if isinstance(cont, VList):
            c = st.objs[cont.loc]
            if isinstance(c, PyList):
                return self.ok(VBool(z3.Or([self.eq(x, y, st) for y in c.items] or [z3.BoolVal(False)])), st)
            if isinstance(c, SetSeq):
                return self.ok(VBool(c.dom[x.e]), st)
            if isinstance(c, SymSeq):
                i = self.fresh("i", INT)
                return self.ok(VBool(z3.Exists([i], z3.And(0 <= i, i < c.n, self.eq(c.elem(i), x, st)))), st)
        if isinstance(cont, VField) and cont.kind[0] == "dict":
            if not isinstance(x, VRef):
                return self.ok(VBool(False), st)
            return self.ok(VBool(st[cont.key + "#dom"][cont.owner][x.e]), st)
        if isinstance(cont, VField) and cont.kind[0] == "seq":
            c = self.seq_of(cont, st)
            i = self.fresh("i", INT)
            return self.ok(VBool(z3.Exists([i], z3.And(0 <= i, i < c.n, self.eq(c.elem(i), x, st)))), st)
        if isinstance(cont, VRef):
            c, m = self.p.find(cont.cls, "__contains__")
            if m is not None:
                return self.call_node(m, f"{c}.__contains__", [cont, x], {}, st, cls=c)
        if isinstance(cont, VDictL):
            ks = list(st.objs[cont.loc])
            kk = self.static_key(x)
            if kk is not None and all(isinstance(k, tuple) for k in ks):
                return self.ok(VBool(kk in ks), st)
            if all(isinstance(k, str) for k in ks) and isinstance(x, VStr):
                return self.ok(VBool(z3.Or([self.eq(x, VStr(const=k), st) for k in ks] or [z3.BoolVal(False)])), st)
        if isinstance(cont, VOpaque) and hasattr(cont, "strof") and isinstance(x, VStr) and x.const is not None:
            return self.ok(VBool(self.s.text_contains(cont.strof, x.const)), st)
        if isinstance(cont, (VOpaque, VStr)):
            return self.ok(VBool(self.fresh("nondet", BOOL)), st)
        raise Unsupported(f"containment in {cont}")

    def e_IfExp(self, n, st):
        def f(v, s):
            t = z3.simplify(self.truth(v, s))
            if z3.is_true(t):
                return self.eval(n.body, s)
            if z3.is_false(t):
                return self.eval(n.orelse, s)
            s1, s2 = s.fork(), s.fork()
            s1.assume(t)
            s2.assume(z3.Not(t))
            r1, r2 = self.eval(n.body, s1), self.eval(n.orelse, s2)
            if len(r1) == 1 and len(r2) == 1 and r1[0].kind == "ok" and r2[0].kind == "ok":
                mv = self.merge_val(t, r1[0].v, r2[0].v)
                ms = self.merge(s, t, r1[0].st, r2[0].st)
                if mv is not None and ms is not None:
                    return self.ok(mv, ms)
            return r1 + r2

        return self.bind(self.eval(n.test, st), f)

    def e_Yield(self, n, st):
        """generator body as verification target: the yielded values are collected in a ghost list"""
        def f(v, s):
            return self.bind(self.container_method(s.env["__yield__"], "append", [v], {}, s), lambda _, s2: self.ok(VOpaque("sent"), s2))

        if self.s.process_yields:
            # a process: the call whose result is yielded has already been made; the process goes on when it becomes current again
            return self.eval(n.value, st) if n.value is not None else self.ok(NONE, st)
        if "__yield__" not in st.env:
            raise Unsupported("yield")
        return self.bind(self.eval(n.value, st), f)

    def e_JoinedStr(self, n, st):
        if not self.s.texts:
            return self.ok(VOpaque("fstring"), st)

        def f(vs, s):
            parts = []
            for x in vs:
                t = self.text(x, s, conv=True)
                if t is None:
                    return self.ok(VOpaque("fstring"), s)
                parts.append(t)
            return self.ok(VText(parts[0] if len(parts) == 1 else z3.Concat(*parts) if parts else ""), s)

        nodes = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                if x.conversion not in (-1, 115) or x.format_spec is not None:
                    return self.ok(VOpaque("fstring"), st)
                nodes.append(x.value)
            else:
                nodes.append(x)
        return self.bind(self.evals(nodes, st), f)

    def text(self, v, st, conv=False):
        """string term of a value (or None)"""
        if isinstance(v, VText):
            return v.e
        if isinstance(v, VStr) and v.const is not None:
            return z3.StringVal(v.const)
        if conv and isinstance(v, VNum) and v.isint:
            return z3.If(v.e >= 0, z3.IntToStr(v.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.e)))
        return None

    def text_method(self, v, m, args, st):
        if m in ("endswith", "startswith"):
            pats = args[0].items if isinstance(args[0], VTuple) else [args[0]]
            ts = [self.text(x, st) for x in pats]
            if all(t is not None for t in ts):
                f = z3.SuffixOf if m == "endswith" else z3.PrefixOf
                return self.ok(VBool(z3.Or([f(t, v.e) for t in ts])), st)
        if m in ("lower", "upper", "strip"):
            return self.ok(VText(z3.Function("str." + m, z3.StringSort(), z3.StringSort())(v.e)), st)
        raise Unsupported(f"string method {m}")

    def e_Tuple(self, n, st):
        return self.bind(self.evals(n.elts, st), lambda vs, s: self.ok(VTuple(vs), s))

    def e_List(self, n, st):
        return self.bind(self.evals(n.elts, st), lambda vs, s: self.ok(self.new_list(s, PyList(vs)), s))

    def e_Dict(self, n, st):
        if not n.keys:
            l = self.loc()
            st.objs[l] = {}
            return self.ok(VDictL(l), st)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            def f(vs, s):
                l = self.loc()
                s.objs[l] = {k.value: v for k, v in zip(n.keys, vs)}
                return self.ok(VDictL(l), s)

            return self.bind(self.evals(n.values, st), f)
        raise Unsupported("dict display")

    def e_Lambda(self, n, st):
        return self.ok(VFunc(n, closure=dict(st.env)), st)

    def e_Starred(self, n, st):
        raise Unsupported("starred expression")

    def e_NamedExpr(self, n, st):
        def f(v, s):
            s.env[n.target.id] = v
            return self.ok(v, s)

        return self.bind(self.eval(n.value, st), f)

    def e_Slice(self, n, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        return self.bind(self.evals(parts, st), lambda vs, s: self.ok(VIter("slice", parts=vs), s))

    def e_Subscript(self, n, st):
        return self.bind(self.evals([n.value, n.slice], st), lambda vi, s: self.getitem(vi[0], vi[1], s))

    def getitem(self, v, i, st):
        if isinstance(v, VTextDict):
            k = self.text(i, st)
            self.oblige(st, "no-KeyError", st[v.key + "#dom"][k])
            return self.ok(VNum(st[v.key + "#val"][k]), st)
        if isinstance(v, VText):
            n = z3.Length(v.e)
            if isinstance(i, VIter) and i.kind == "slice" and isinstance(i.parts[2], VNone):
                lo, hi, _ = i.parts
                a = z3.IntVal(0) if isinstance(lo, VNone) else self.clampidx(lo, n)
                b = n if isinstance(hi, VNone) else self.clampidx(hi, n)
                return self.ok(VText(z3.SubString(v.e, a, z3.If(b > a, b - a, z3.IntVal(0)))), st)
            if isinstance(i, VNum):
                k = z3.If(i.e < 0, i.e + n, i.e)
                self.oblige(st, "no-IndexError", z3.And(0 <= k, k < n))
                return self.ok(VText(z3.SubString(v.e, k, 1)), st)
        if isinstance(i, VIter) and i.kind == "slice":
            lo, hi, step = i.parts
            if isinstance(step, VNone):
                if isinstance(v, VList) and isinstance(st.objs[v.loc], PyList) or isinstance(v, VTuple):
                    items = v.items if isinstance(v, VTuple) else st.objs[v.loc].items
                    a = None if isinstance(lo, VNone) else self.static_int(lo)
                    b = None if isinstance(hi, VNone) else self.static_int(hi)
                    if (isinstance(lo, VNone) or a is not None) and (isinstance(hi, VNone) or b is not None):
                        r = items[slice(a, b)]
                        return self.ok(VTuple(r) if isinstance(v, VTuple) else self.new_list(st, PyList(r)), st)
                sq = self.seq_of(v, st)
                a = z3.IntVal(0) if isinstance(lo, VNone) else self.clampidx(lo, sq.n)
                b = sq.n if isinstance(hi, VNone) else self.clampidx(hi, sq.n)
                return self.ok(self.new_list(st, SymSeq(z3.If(b > a, b - a, z3.IntVal(0)), lambda j: sq.elem(j + a))), st)
            k = self.static_int(step)
            if k is not None and k >= 1:
                sq = self.seq_of(v, st)
                a = z3.IntVal(0) if isinstance(lo, VNone) else self.clampidx(lo, sq.n)
                b = sq.n if isinstance(hi, VNone) else self.clampidx(hi, sq.n)
                return self.ok(self.new_list(st, SymSeq(z3.simplify(z3.If(b > a, (b - a + (k - 1)) / k, z3.IntVal(0))), lambda j: sq.elem(j * k + a))), st)
            raise Unsupported("slice step")
        if isinstance(v, VTuple):
            k = self.static_int(i)
            if k is not None:
                if -len(v.items) <= k < len(v.items):
                    return self.ok(v.items[k], st)
                self.oblige(st, "no-IndexError", z3.BoolVal(False))
                return []
            if isinstance(i, VNum) and v.items:
                return self.seq_index(self.as_symseq(PyList(v.items), st), i, st)
        if isinstance(v, VList):
            c = st.objs[v.loc]
            if isinstance(c, PyList):
                k = self.static_int(i)
                if k is not None:
                    if -len(c.items) <= k < len(c.items):
                        return self.ok(c.items[k], st)
                    self.oblige(st, "no-IndexError", z3.BoolVal(False))
                    return []
            if isinstance(c, SetSeq):
                k = self.static_int(i)
                if k == 0:
                    e = self.fresh("first", INT)
                    self.oblige(st, "no-IndexError", c.dom != z3.K(INT, z3.BoolVal(False)))
                    st.assume(c.dom[e])
                    return self.ok(VRef(e, c.cls, False), st)
                raise Unsupported("index in unordered sequence")
            sq = self.as_symseq(c, st)
            return self.seq_index(sq, i, st)
        if isinstance(v, VField) and v.kind[0] == "seq":
            return self.seq_index(self.seq_of(v, st), i, st)
        if isinstance(v, VField) and v.kind[0] == "dict":
            self.oblige(st, f"no-KeyError({v.name})", st[v.key + "#dom"][v.owner][i.e])
            return self.ok(self.s.dict_val(self, v, st, i.e), st)
        if isinstance(v, VDictL):
            d = st.objs[v.loc]
            kk = self.static_key(i)
            if kk is not None:
                return self.ok(d[kk], st) if kk in d else [Out("raise", "KeyError", st)]
            if isinstance(i, VStr) and i.const in d:
                return self.ok(d[i.const], st)
            if isinstance(i, VStr) and i.const is not None:
                return [Out("raise", "KeyError", st)]
        r = self.s.getitem(self, v, i, st)
        if r is not None:
            return r
        if isinstance(v, VRef):
            c, m = self.p.find(v.cls, "__getitem__")
            if m is not None:
                self.nonnull(v, st, "__getitem__")
                return self.call_node(m, f"{c}.__getitem__", [v, i], {}, st, cls=c)
        if isinstance(v, VOpaque):
            return self.ok(VOpaque("item"), st)
        raise Unsupported(f"subscript of {v}")

    def static_int(self, v):
        if isinstance(v, VNum) and v.isint:
            e = z3.simplify(v.e)
            if z3.is_int_value(e):
                return e.as_long()
        if isinstance(v, VBool):
            b = z3.simplify(v.b)
            if z3.is_true(b):
                return 1
            if z3.is_false(b):
                return 0
        return None

    def clampidx(self, v, n):
        e = v.e
        e = z3.If(e < 0, z3.If(e + n < 0, z3.IntVal(0), e + n), z3.If(e > n, n, e))
        return z3.simplify(e)

    def seq_index(self, sq, i, st):
        if isinstance(i, VBool):
            i = VNum(z3.If(i.b, z3.IntVal(1), z3.IntVal(0)))
        if not (isinstance(i, VNum) and z3.is_int(i.e)):
            raise Unsupported("sequence index")
        e = z3.simplify(z3.If(i.e < 0, i.e + sq.n, i.e))
        self.oblige(st, "no-IndexError", z3.And(0 <= e, e < sq.n))
        st.assume(z3.And(0 <= e, e < sq.n))
        return self.ok(sq.elem(e), st)

    # ---------- comprehensions
    def comp_iter(self, n, st, elt_nodes):
        if len(n.generators) != 1 or n.generators[0].is_async:
            raise Unsupported("nested comprehension")
        return n.generators[0]

    def e_ListComp(self, n, st):
        g = self.comp_iter(n, st, [n.elt])

        def f(it, s):
            return self.bind(self.iter_of(it, s), lambda itv, s2: self.map_comp(n.elt, g, itv, s2, False))

        return self.bind(self.eval(g.iter, st), f)

    def e_GeneratorExp(self, n, st):
        return self.e_ListComp(n, st)

    def e_SetComp(self, n, st):
        g = self.comp_iter(n, st, [n.elt])
        if g.ifs or not (isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id):
            raise Unsupported("set comprehension")

        def f(v, s):
            return self.bind(self.iter_of(v, s), lambda it, s2: self.set_from_iter(it, s2))

        return self.bind(self.eval(g.iter, st), f)

    def pure_eval(self, node, st):
        """evaluates an expression that must be single-path and heap-pure"""
        heap0 = dict(st.heap)
        r = self.eval(node, st)
        if len(r) != 1 or r[0].kind != "ok":
            raise Unsupported("impure or branching comprehension element")
        for k in heap0:
            if not r[0].st.heap[k].eq(heap0[k]):
                raise Unsupported("comprehension element with side effect")
        return r[0].v, r[0].st

    def map_comp(self, elt, g, it, st, _):
        if it.kind == "static":
            items, s = [], st
            for x in it.items:
                sub = s.fork()
                for o in self.assign(g.target, x, sub):
                    sub = o.st
                skip = False
                for cnd in g.ifs:
                    cv, sub = self.pure_eval(cnd, sub)
                    t = z3.simplify(self.truth(cv, sub))
                    if z3.is_false(t):
                        skip = True
                        break
                    if not z3.is_true(t):
                        raise Unsupported("filter on static comprehension")
                if skip:
                    continue
                v, sub = self.pure_eval(elt, sub)
                items.append(v)
                s.pc, s.objs = sub.pc, sub.objs
            return self.ok(self.new_list(s, PyList(items)), s)
        if it.kind == "seq":
            if g.ifs:
                r = self.s.filter_comp(self, elt, g, it, st)
                if r is not None:
                    return r
                return self.filter_seq(elt, g, it.seq, st)
            env0, base = dict(st.env), st

            def elem(i):
                s = base.fork()
                s.env = dict(env0)
                s.assume(z3.And(0 <= i, i < it.seq.n))
                self.assign(g.target, it.seq.elem(i), s)
                rec = self.recording
                self.recording = False
                try:
                    v, s2 = self.pure_eval(elt, s)
                finally:
                    self.recording = rec
                return v

            # safety obligations of the element expression, for an arbitrary index
            j = self.fresh("j", INT)
            s = base.fork()
            s.assume(z3.And(0 <= j, j < it.seq.n))
            self.assign(g.target, it.seq.elem(j), s)
            self.pure_eval(elt, s)
            return self.ok(self.new_list(st, SymSeq(it.seq.n, elem)), st)
        if it.kind == "fseq":
            return self.filter_seq(elt, g, it.seq, st)
        if it.kind == "set" and not g.ifs and isinstance(elt, ast.Name) and isinstance(g.target, ast.Name) and elt.id == g.target.id:
            return self.ok(self.new_list(st, it.setseq), st)
        if it.kind == "set" and isinstance(elt, ast.Name) and isinstance(g.target, ast.Name) and elt.id == g.target.id:
            x = self.fresh("x", INT)
            s = st.fork()
            s.assume(it.setseq.dom[x])
            s.env[g.target.id] = VRef(x, it.setseq.cls, False)
            cond = z3.BoolVal(True)
            for cnd in g.ifs:
                cv, s = self.pure_eval(cnd, s)
                cond = z3.And(cond, self.truth(cv, s))
            dom = self.fresh("filtered", z3.ArraySort(INT, BOOL))
            st.assume(z3.ForAll([x], dom[x] == z3.And(it.setseq.dom[x], cond), patterns=[dom[x]]))
            return self.ok(self.new_list(st, SetSeq(dom, it.setseq.cls)), st)
        raise Unsupported(f"comprehension over {it.kind}")

    # ---------- iterables
    def static_key(self, v):
        """python tuple of statically known booleans/numbers/strings"""
        if not isinstance(v, VTuple):
            return None
        out = []
        for x in v.items:
            if isinstance(x, VBool):
                t = z3.simplify(x.b)
                if not (z3.is_true(t) or z3.is_false(t)):
                    return None
                out.append(z3.is_true(t))
            elif isinstance(x, VStr) and x.const is not None:
                out.append(x.const)
            elif isinstance(x, VNum) and self.static_int(x) is not None:
                out.append(self.static_int(x))
            else:
                return None
        return tuple(out)

    def filter_seq(self, elt, g, seq, st):
        """[elt for target in seq if ...]"""
        env0, base = dict(st.env), st.fork()
        c0 = seq.cond if isinstance(seq, FilterSeq) else (lambda i: z3.BoolVal(True))

        def at(i, rec):
            s = base.fork()
            s.env = dict(env0)
            s.assume(z3.And(0 <= i, i < seq.n, c0(i)))
            self.assign(g.target, seq.elem(i), s)
            old, self.recording = self.recording, self.recording and rec
            try:
                cs = [c0(i)]
                for c in g.ifs:
                    v, s = self.pure_eval(c, s)
                    t = self.truth(v, s)
                    s.assume(t)
                    cs.append(t)
                v, s = self.pure_eval(elt, s)
            finally:
                self.recording = old
            return v, z3.And(cs)

        at(self.fresh("j", INT), True)
        return self.ok(self.new_list(st, FilterSeq(seq.n, lambda i: at(i, False)[0], lambda i: at(i, False)[1])), st)

    def fcount(self, f, st):
        """number of elements of a filtered sequence"""
        if f.cnt is None:
            f.cnt = self.s.COUNT(self, f, st)
        i = z3.Int("ci")
        w = self.fresh("cw", INT)
        st.assume(z3.And(f.cnt >= 0, f.cnt <= z3.If(f.n > 0, f.n, z3.IntVal(0))))
        st.assume(z3.Implies(f.cnt > 0, z3.And(0 <= w, w < f.n, f.cond(w))))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < f.n, f.cond(i)), f.cnt > 0)))
        return f.cnt

    def iter_of(self, v, st):
        """value -> VIter"""
        if isinstance(v, VIter):
            return self.ok(v, st)
        if isinstance(v, VTuple):
            return self.ok(VIter("static", items=list(v.items)), st)
        if isinstance(v, VList):
            c = st.objs[v.loc]
            if isinstance(c, PyList):
                return self.ok(VIter("static", items=list(c.items), loc=v.loc), st)
            if isinstance(c, SymSeq):
                return self.ok(VIter("seq", seq=c, desc=("local",)), st)
            if isinstance(c, FilterSeq):
                return self.ok(VIter("fseq", seq=c), st)
            if isinstance(c, SetSeq):
                return self.ok(VIter("set", setseq=c, desc=("localset",)), st)
        if isinstance(v, VDictL):
            return self.ok(VIter("static", items=[self.const(k) for k in st.objs[v.loc]]), st)
        if isinstance(v, VField) and v.kind[0] == "dict":
            return self.ok(VIter("set", setseq=SetSeq(st[v.key + "#dom"][v.owner], v.kind[1]), desc=("dict", v.key, v.owner), live=v), st)
        if isinstance(v, VField) and v.kind[0] == "seq":
            return self.ok(VIter("seq", seq=self.seq_of(v, st), desc=("seq", v.key, v.owner), live=v), st)
        r = self.s.iter_of(self, v, st)
        if r is not None:
            return r
        raise Unsupported(f"iteration over {v}")

    # ---------- calls
    def e_Call(self, n, st):
        f = n.func
        # calls without modelled effect: arguments are not evaluated (stated in the extraction notes)
        nm = f.attr if isinstance(f, ast.Attribute) else (f.id if isinstance(f, ast.Name) else None)
        if (nm in NOEFFECT and not self.s.texts) or nm in self.s.noeffect:
            self.dropped.add(f"call {nm}(...)")
            return self.ok(VOpaque(nm), st)
        if self.s.texts and nm == "str" and isinstance(f, ast.Name) and len(n.args) == 1:
            return self.bind(self.eval(n.args[0], st), lambda v, s: self.ok(VText(self.text(v, s, conv=True)) if self.text(v, s, conv=True) is not None else VOpaque("str"), s))
        if nm == "str" and isinstance(f, ast.Name) and self.s.obj_texts and len(n.args) == 1:
            def tx(v, s):
                r = VOpaque("str")
                if isinstance(v, (VObj, VBool)):
                    r.strof = v
                return self.ok(r, s)
            return self.bind(self.eval(n.args[0], st), tx)
        if nm in ("str", "repr", "hex", "print") and isinstance(f, ast.Name):
            return self.ok(VOpaque(nm), st)
        if isinstance(f, ast.Name) and f.id == "super" and not n.args:
            raise Unsupported("bare super()")
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            sv = st.env.get("self")
            c, m = self.find_super(st.env["__class__"].name, sv.cls if isinstance(sv, (VRef, VSub, VLocal)) else "Environment", f.attr)
            fv = VFunc(m, cls=c, self_v=sv, qual=f"{c}.{f.attr}")
            return self.call_with(fv, n, st)
        return self.bind(self.eval(f, st), lambda fv, s: self.call_with(fv, n, s))

    def call_with(self, fv, n, st):
        if isinstance(fv, VFunc) and fv.node.name in NOEFFECT and not self.s.texts if isinstance(fv, VFunc) and isinstance(fv.node, ast.FunctionDef) else False:
            return self.ok(VOpaque(fv.node.name), st)
        pos, star = [], None
        for a in n.args:
            if isinstance(a, ast.Starred):
                star = a.value
            else:
                if star is not None:
                    raise Unsupported("positional after starred")
                pos.append(a)
        kws = [k for k in n.keywords if k.arg is not None]
        dstar = [k for k in n.keywords if k.arg is None]
        nodes = pos + ([star] if star is not None else []) + [k.value for k in kws] + [k.value for k in dstar]

        def f(vs, s):
            a = list(vs[: len(pos)])
            rest = list(vs[len(pos):])
            if star is not None:
                sv = rest.pop(0)
                if isinstance(sv, VTuple):
                    a.extend(sv.items)
                elif isinstance(sv, VList) and isinstance(s.objs[sv.loc], PyList):
                    a.extend(s.objs[sv.loc].items)
                else:
                    a.append(VIter("star", v=sv))
            kw = {k.arg: v for k, v in zip(kws, rest)}
            for d in rest[len(kws):]:
                if isinstance(d, VDictL):
                    kw.update(s.objs[d.loc])
                elif isinstance(d, VOpaque):
                    pass
                else:
                    raise Unsupported("** argument")
            return self.call_value(fv, a, kw, s, n)

        return self.bind(self.evals(nodes, st), f)

    def call_value(self, fv, args, kw, st, n=None):
        if isinstance(fv, VFunc):
            a = ([fv.self_v] if fv.self_v is not None else []) + list(args)
            return self.call_node(fv.node, fv.qual, a, kw, st, cls=fv.cls, closure=fv.closure)
        if isinstance(fv, VUserFn):
            return self.ok(fv.fn(self, st, args, kw) if getattr(fv, "kw", False) else fv.fn(self, st, args), st)
        if isinstance(fv, VBuiltin):
            if fv.name.startswith("submethod:"):
                m = fv.name.split(":", 1)[1]
                h = self.s.sub_methods.get((fv.self_v.prefix, m)) or self.s.sub_methods[("*", m)]
                return h(self, fv.self_v, args, kw, st)
            return self.builtin(fv, args, kw, st)
        if isinstance(fv, VClass):
            return self.construct(fv.name, args, kw, st)
        if isinstance(fv, VSub):
            h = self.s.sub_methods.get((fv.prefix, "__call__")) or self.s.sub_methods.get(("*", "__call__"))
            if h:
                return h(self, fv, args, kw, st)
        if isinstance(fv, VRef):
            c, m = self.p.find(fv.cls, "__call__")
            if m is not None:
                return self.call_node(m, f"{c}.__call__", [fv] + list(args), kw, st, cls=c)
        if isinstance(fv, VLocal):
            c, m = self.p.find(fv.cls, "__call__")
            if m is not None:
                return self.call_node(m, f"{c}.__call__", [fv] + list(args), kw, st, cls=c)
        if isinstance(fv, (VOpaque, VObj)):
            r = self.s.call_opaque(self, fv, args, kw, st)
            if r is not None:
                return r
        raise Unsupported(f"call of {fv}")

    def construct(self, name, args, kw, st):
        r = self.s.construct(self, name, args, kw, st)
        if r is not None:
            return r
        if name in self.p.classes and any(self.p.issub(name, c) for c in self.s.local_classes):
            return self.new_local(name, args, kw, st)
        raise Unsupported(f"construction of {name}")

    def new_local(self, name, args, kw, st):
        l = self.loc()
        st.objs[l] = {}
        v = VLocal(l, name)
        c, m = self.p.find(name, "__init__")
        if m is None:
            return self.ok(v, st)
        return self.bind(self.call_node(m, f"{c}.__init__", [v] + list(args), kw, st, cls=c), lambda _, s: self.ok(v, s))

    def bind_args(self, node, args, kw, st):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        starred = None
        if args and isinstance(args[-1], VIter) and args[-1].kind == "star":
            starred = args.pop().v
        if len(args) > len(names) and a.vararg is None:
            raise Unsupported("too many arguments")
        for nme, v in zip(names, args):
            env[nme] = v
        extra = args[len(names):]
        if a.vararg is not None:
            if starred is not None:
                if extra:
                    raise Unsupported("mixed star arguments")
                env[a.vararg.arg] = starred
            else:
                env[a.vararg.arg] = VTuple(extra)
        elif starred is not None:
            raise Unsupported("star argument")
        kwnames = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in kwnames:
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                raise Unsupported(f"unexpected keyword {k}")
        if a.kwarg is not None:
            l = self.loc()
            st.objs[l] = rest
            env[a.kwarg.arg] = VDictL(l)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwnames, a.kw_defaults) if d is not None})
        for nme in names + kwnames:
            if nme not in env:
                if nme not in defaults:
                    raise Unsupported(f"missing argument {nme}")
                d = defaults[nme]
                save = st.env
                st.env = {}
                o = self.eval(d, st)
                st.env = save
                env[nme] = o[0].v
        return env

    def check_args(self, c, node, env, st):
        """a contract is only used for calls of the shape it is proved for"""
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, v in env.items():
            kind = c.params.get(k)
            if kind == "none" and not isinstance(v, VNone) and k not in c.any_args:
                raise Unsupported(f"{c.name} called with {k} given")
            if kind is None and k not in ("self", "cls") and k not in c.any_args:
                if a.vararg is not None and k == a.vararg.arg:
                    if not (isinstance(v, VTuple) and not v.items):
                        raise Unsupported(f"{c.name} called with *{k}")
                elif a.kwarg is not None and k == a.kwarg.arg:
                    if st.objs.get(getattr(v, "loc", None)):
                        raise Unsupported(f"{c.name} called with **{k}")
                elif k in defaults:
                    d = defaults[k]
                    dv = self.const(d.value) if isinstance(d, ast.Constant) else None
                    if dv is None or not (type(dv) is type(v) and (isinstance(v, VNone) or repr_eq(dv, v))):
                        raise Unsupported(f"{c.name} called with {k} given")

    def call_node(self, node, qual, args, kw, st, cls=None, closure=None):
        if isinstance(node, ast.Lambda):
            env = self.bind_args(node, args, kw, st)
            save = st.env
            st.env = dict(closure or {})
            st.env.update(env)

            def back(v, s):
                s.env = save
                return self.ok(v, s)

            return self.bind(self.eval(node.body, st), back)
        for d in node.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr == "contextmanager":
                raise Unsupported("contextmanager call")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            raise Unsupported("generator function call")
        c = self.s.contract_for(self, qual, args, kw, st)
        if c is not None:
            env = self.bind_args(node, args, kw, st)
            self.check_args(c, node, env, st)
            self.used_contracts.add(c.name)
            return self.apply_contract(c, env, st)
        if self.depth > 8:
            raise Unsupported("inlining depth (recursion without contract)")
        env = self.bind_args(node, args, kw, st)
        if qual:
            self.inlined.add(qual)
        save, swhere = st.env, self.where
        st.env = dict(closure or {})
        st.env.update(env)
        if cls:
            st.env["__class__"] = VClass(cls)
        self.depth += 1
        self.where = f"{swhere}>{qual}"
        try:
            outs = self.exec_block(node.body, st)
        finally:
            self.depth -= 1
            self.where = swhere
        res = []
        for o in outs:
            # container locals that escape keep their content in objs
            o.st.env = dict(save)
            if o.kind == "fall":
                res.append(Out("ok", NONE, o.st))
            elif o.kind == "return":
                res.append(Out("ok", o.v, o.st))
            elif o.kind in ("raise", "suspend"):
                res.append(o)
            else:
                raise Unsupported(o.kind)
        return self.merge_results(res, st)

    def merge_results(self, res, base):
        """merge pairs of 'ok' outcomes of an inlined call where possible (keeps the number of paths small)"""
        return res

    def apply_contract(self, c, env, st):
        self.s.sync(self, st)
        self.name_heap(st)
        pre = st.fork()
        for name, f in c.requires(self, pre, env):
            self.oblige(st, f"requires[{c.name}].{name}", f, kind="requires")
            st.assume(f)
        outs = []
        for exc, cond in c.raises(self, pre, env):
            s2 = st.fork()
            s2.assume(cond)
            if self.feasible(st, cond):
                e = c.exc_effect(self, pre, s2, env, exc)
                outs.append(Out("raise", exc, s2))
            st.assume(z3.Not(cond))
        for branch in c.branches(self, pre, env):
            s = st.fork()
            bcond = branch.get("cond")
            if bcond is not None:
                if not self.feasible(s, bcond):
                    continue
                s.assume(bcond)
            for m in branch.get("modifies", c.modifies):
                old = s.heap[m]
                s.heap[m] = self.fresh(m, old.sort())
            c.ghost(self, pre, s, env)
            self.name_heap(s)
            res = c.result(self, pre, s, env)
            for name, f in c.frame(self, pre, s, env):
                s.assume(f)
            for name, f in c.ensures(self, pre, s, env, res):
                s.assume(f)
            kind = branch.get("kind", "ok")
            outs.append(Out(kind, res, s))
        return outs

    # ---------- builtins
    def builtin(self, fv, args, kw, st):
        r = self.s.builtin(self, fv, args, kw, st)
        if r is not None:
            return r
        name = fv.name
        if name == "switch":
            return [Out("suspend", None, st)]
        if name.startswith("opaque:"):
            r = self.s.call_opaque(self, fv, args, kw, st)
            if r is not None:
                return r
            if name[7:] in ("strip", "lstrip", "rstrip", "lower", "upper", "replace", "format", "join", "ljust", "rjust", "startswith", "endswith", "split") and isinstance(fv.self_v, VOpaque):
                return self.ok(VOpaque("text"), st)
            raise Unsupported(f"call of unmodelled method {name[7:]}")
        if name == "len":
            v = args[0]
            if isinstance(v, VTuple):
                return self.ok(VNum(len(v.items)), st)
            if isinstance(v, VList):
                c = st.objs[v.loc]
                if isinstance(c, PyList):
                    return self.ok(VNum(len(c.items)), st)
                if isinstance(c, SymSeq):
                    return self.ok(VNum(c.n), st)
                if isinstance(c, SetSeq):
                    return self.ok(VNum(self.card(c.dom, st)), st)
                if isinstance(c, FilterSeq):
                    return self.ok(VNum(self.fcount(c, st)), st)
            if isinstance(v, VField) and v.kind[0] == "seq":
                return self.ok(VNum(st[v.key + "#len"][v.owner]), st)
            if isinstance(v, VField) and v.kind[0] == "dict":
                return self.ok(VNum(self.card(st[v.key + "#dom"][v.owner], st)), st)
            if isinstance(v, VDictL):
                return self.ok(VNum(len(st.objs[v.loc])), st)
            if isinstance(v, VRef):
                c, m = self.p.find(v.cls, "__len__")
                if m is not None:
                    return self.call_node(m, f"{c}.__len__", [v], {}, st, cls=c)
            if isinstance(v, (VOpaque, VStr)):
                r = self.fresh("len", INT)
                st.assume(r >= 0)
                return self.ok(VNum(r), st)
            raise Unsupported("len")
        if name in ("list", "tuple"):
            if not args:
                return self.ok(self.new_list(st, PyList([])), st)
            return self.bind(self.iter_of(args[0], st), lambda it, s: self.list_from_iter(it, s, name))
        if name == "range":
            a = [z3.IntVal(0), args[0].e] if len(args) == 1 else [args[0].e, args[1].e]
            if len(args) == 3:
                raise Unsupported("range step")
            vals = [z3.simplify(x) for x in a]
            if all(z3.is_int_value(x) for x in vals) and vals[1].as_long() - vals[0].as_long() <= 8:
                return self.ok(VIter("static", items=[VNum(i) for i in range(vals[0].as_long(), vals[1].as_long())]), st)
            n = z3.If(a[1] > a[0], a[1] - a[0], z3.IntVal(0))
            lo = a[0]
            return self.ok(VIter("seq", seq=SymSeq(z3.simplify(n), lambda i: VNum(lo + i)), desc=("range",)), st)
        if name == "isinstance":
            return self.ok(VBool(self.isinstance(args[0], args[1], st)), st)
        if name in ("min", "max"):
            if len(args) >= 2 and all(isinstance(a, VNum) for a in args):
                r = args[0]
                for b in args[1:]:
                    # python: min returns the first minimal argument
                    cnd = self.cmp(b, r, "<" if name == "min" else ">")
                    r = self.merge_val(cnd, b, r)
                return self.ok(r, st)
            if len(args) == 1:
                return self.bind(self.iter_of(args[0], st), lambda it, s: self.minmax_iter(it, name, s))
        if name == "abs" and isinstance(args[0], VNum) and args[0].finite:
            e = args[0].e
            return self.ok(VNum(z3.If(e >= 0, e, -e)), st)
        if name == "float" and isinstance(args[0], VNum):
            return self.ok(VNum(args[0].real(), args[0].k), st)
        if name == "float" and isinstance(args[0], VStr) and args[0].const is not None:
            return self.ok(self.const(float(args[0].const)), st)
        if name == "float" and isinstance(args[0], VNone):
            return [Out("raise", "TypeError", st)]
        if name == "int" and isinstance(args[0], VBool):
            return self.ok(VNum(z3.If(args[0].b, z3.IntVal(1), z3.IntVal(0))), st)
        if name == "int" and isinstance(args[0], VNum) and args[0].finite:
            e = args[0].e
            if z3.is_int(e):
                return self.ok(args[0], st)
            return self.ok(VNum(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))), st)
        if name == "bool":
            return self.ok(VBool(self.truth(args[0], st)), st)
        if name == "callable":
            if isinstance(args[0], (VNum, VNone, VBool, VStr, VList, VTuple)):
                return self.ok(VBool(False), st)
            if isinstance(args[0], (VFunc, VUserFn, VClass)):
                return self.ok(VBool(True), st)
            return self.ok(VBool(self.fresh("nondet", BOOL)), st)
        if name == "sum":
            return self.bind(self.iter_of(args[0], st), lambda it, s: self.sum_iter(it, s))
        if name == "reversed":
            def rv(it, s):
                if it.kind == "static":
                    return self.ok(VIter("static", items=list(reversed(it.items))), s)
                if it.kind == "seq":
                    sq = it.seq
                    return self.ok(VIter("seq", seq=SymSeq(sq.n, lambda i: sq.elem(sq.n - 1 - i)), desc=("reversed", it.desc), live=getattr(it, "live", None)), s)
                raise Unsupported("reversed")

            return self.bind(self.iter_of(args[0], st), rv)
        if name == "enumerate":
            def en(it, s):
                if it.kind == "static":
                    return self.ok(VIter("static", items=[VTuple([VNum(i), x]) for i, x in enumerate(it.items)]), s)
                if it.kind == "seq":
                    sq = it.seq
                    return self.ok(VIter("seq", seq=SymSeq(sq.n, lambda i: VTuple([VNum(i), sq.elem(i)])), desc=it.desc, live=getattr(it, "live", None)), s)
                raise Unsupported("enumerate")

            return self.bind(self.iter_of(args[0], st), en)
        if name == "itertools.repeat" and len(args) == 1:
            return self.ok(VIter("seq", seq=SymSeq(None, lambda i, v=args[0]: v), desc=("repeat",)), st)
        if name == "itertools.count" and not args:
            return self.ok(VIter("seq", seq=SymSeq(None, lambda i: VNum(i))), st)
        if name == "zip":
            def zz(its, s):
                if all(i.kind == "static" for i in its):
                    return self.ok(VIter("static", items=[VTuple(list(t)) for t in zip(*[i.items for i in its])]), s)
                fs = [i.seq for i in its if i.kind == "fseq"]
                if fs:
                    f = fs[0]
                    k = z3.Int("zk")
                    for i in its:
                        q = i.seq if i.kind in ("seq", "fseq") else None
                        if isinstance(q, FilterSeq) and q.n.eq(f.n) and z3.is_true(z3.simplify(q.cond(k) == f.cond(k))):
                            continue
                        if isinstance(q, SymSeq) and f.cnt is not None and (q.n.eq(f.cnt) or z3.is_true(z3.simplify(z3.Implies(f.cnt >= 0, q.n == f.cnt)))) and getattr(q, "const", False):
                            continue
                        raise Unsupported("zip of different filtered sequences")
                    sq = [i.seq for i in its]
                    return self.ok(VIter("fseq", seq=FilterSeq(f.n, lambda i: VTuple([q.elem(i) for q in sq]), f.cond)), s)
                sqs = [i.seq if i.kind == "seq" else self.as_symseq(PyList(i.items)) for i in its]
                fin = [q for q in sqs if q.n is not None]  # itertools.count() has no end
                n = fin[0].n
                for q in fin[1:]:
                    n = z3.If(q.n < n, q.n, n)
                return self.ok(VIter("seq", seq=SymSeq(z3.simplify(n), lambda i: VTuple([q.elem(i) for q in sqs])), desc=("zip",)), s)

            def collect(vs, s, acc):
                if not vs:
                    return zz(acc, s)
                return self.bind(self.iter_of(vs[0], s), lambda it, s2: collect(vs[1:], s2, acc + [it]))

            return collect(list(args), st, [])
        if name == "getattr" and isinstance(args[0], VLocal) and isinstance(args[1], VStr) and args[1].const is not None:
            d = st.objs[args[0].loc]
            if args[1].const in d:
                return self.ok(d[args[1].const], st)
            if len(args) > 2 and self.p.find(args[0].cls, args[1].const)[1] is None:
                return self.ok(args[2], st)
        if name == "hasattr":
            nm = args[1].const
            v = args[0]
            if isinstance(v, (VList, VTuple)) and nm in ("__iter__", "__len__", "__getitem__"):
                return self.ok(VBool(True), st)
            if isinstance(v, VLocal):
                return self.ok(VBool(nm in st.objs[v.loc] or self.p.find(v.cls, nm)[1] is not None), st)
            if isinstance(v, VNum):
                return self.ok(VBool(False), st)
            if isinstance(v, VRef):
                c, k = self.field_kind(v.cls, nm)
                if k is not None or self.p.find(v.cls, nm)[1] is not None:
                    return self.ok(VBool(True), st)
            return self.ok(VBool(self.fresh("nondet", BOOL)), st)
        if name in ("math.sqrt",):
            return self.ok(self.sqrt(args[0], st), st)
        if name == "math.floor" and args[0].finite:
            return self.ok(VNum(z3.ToInt(args[0].real())), st)
        if name == "collections.OrderedDict" and not args:
            l = self.loc()
            st.objs[l] = {}
            return self.ok(VDictL(l), st)
        if name == "dict" and not args and not kw:
            l = self.loc()
            st.objs[l] = {}
            return self.ok(VDictL(l), st)
        if name == "set" and args:
            return self.bind(self.iter_of(args[0], st), lambda it, s: self.set_from_iter(it, s))
        if name.startswith("method:"):
            return self.container_method(fv.self_v, name[7:], args, kw, st)
        if name.startswith("operator."):
            o = name.split(".")[1]
            rel = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}
            if o in rel and isinstance(args[0], VNum) and isinstance(args[1], VNum):
                return self.ok(VBool(self.cmp(args[0], args[1], rel[o])), st)
            if o in ("eq", "ne"):
                r = self.eq(args[0], args[1], st)
                return self.ok(VBool(r if o == "eq" else z3.Not(r)), st)
            ar = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult, "truediv": ast.Div, "floordiv": ast.FloorDiv, "pow": ast.Pow}
            if o in ar:
                return self.ok(self.binop(ar[o](), args[0], args[1], st), st)
        if name in ("any", "all"):
            def aa(it, s):
                if it.kind == "static":
                    ts = [self.truth(x, s) for x in it.items]
                    return self.ok(VBool(z3.Or(ts + [z3.BoolVal(False)]) if name == "any" else z3.And(ts + [z3.BoolVal(True)])), s)
                i = self.fresh("i", INT)
                t = self.truth(it.seq.elem(i), s)
                rng = z3.And(0 <= i, i < it.seq.n)
                return self.ok(VBool(z3.Exists([i], z3.And(rng, t)) if name == "any" else z3.ForAll([i], z3.Implies(rng, t))), s)

            return self.bind(self.iter_of(args[0], st), aa)
        raise Unsupported(f"builtin {name}")

    def set_from_iter(self, it, s):
        if it.kind == "set":
            return self.ok(self.new_list(s, it.setseq), s)
        if it.kind == "seq":
            i, x = self.fresh("i", INT), self.fresh("x", INT)
            e = it.seq.elem(i)
            if not isinstance(e, VRef):
                raise Unsupported("set of non-objects")
            d = self.fresh("set", z3.ArraySort(INT, BOOL))
            w = self.fresh_fn("setwit", INT, INT)
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.seq.n), d[e.e])))
            s.assume(z3.ForAll([x], z3.Implies(d[x], z3.And(0 <= w(x), w(x) < it.seq.n, it.seq.elem(w(x)).e == x)), patterns=[d[x]]))
            self.s.set_hint(self, it, d, s)
            return self.ok(self.new_list(s, SetSeq(d, e.cls)), s)
        raise Unsupported("set()")

    def minmax_iter(self, it, name, s):
        if it.kind == "static" and it.items:
            return self.builtin(VBuiltin(name), it.items, {}, s)
        if it.kind == "seq":
            # contract of min/max over a non-empty sequence: attained and extremal
            i, r, w = self.fresh("i", INT), self.fresh(name, REAL), self.fresh("arg" + name, INT)
            self.oblige(s, f"no-ValueError({name} of empty sequence)", it.seq.n > 0)
            e = it.seq.elem(i)
            if not (isinstance(e, VNum) and e.finite):
                raise Unsupported("min/max over non-numbers")
            rel = (r <= e.real()) if name == "min" else (r >= e.real())
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < it.seq.n), rel)))
            s.assume(z3.And(0 <= w, w < it.seq.n, it.seq.elem(w).real() == r))
            return self.ok(VNum(r), s)
        if it.kind == "fseq":
            f = it.seq
            i, r, w = self.fresh("i", INT), self.fresh(name, REAL), self.fresh("arg" + name, INT)
            self.oblige(s, f"no-ValueError({name} of empty sequence)", self.fcount(f, s) > 0)
            rel = (r <= f.elem(i).real()) if name == "min" else (r >= f.elem(i).real())
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < f.n, f.cond(i)), rel)))
            s.assume(z3.And(0 <= w, w < f.n, f.cond(w), f.elem(w).real() == r))
            return self.ok(VNum(r), s)
        raise Unsupported(name)

    def sum_iter(self, it, s):
        if it.kind == "static":
            r = VNum(0)
            for x in it.items:
                r = self.binop(ast.Add(), r, x, s)
            return self.ok(r, s)
        if it.kind == "seq":
            return self.ok(VNum(self.s.SUM(self, it.seq, s)), s)
        if it.kind == "fseq":
            f = it.seq
            return self.ok(VNum(self.s.SUM(self, SymSeq(f.n, lambda i: VNum(z3.If(f.cond(i), f.elem(i).real(), z3.RealVal(0)))), s)), s)
        raise Unsupported("sum")

    def card(self, dom, st):
        f = z3.Function("card", z3.ArraySort(INT, BOOL), INT)
        st.assume(z3.And(f(dom) >= 0, (f(dom) == 0) == (dom == z3.K(INT, z3.BoolVal(False)))))
        return f(dom)

    def list_from_iter(self, it, s, name="list"):
        if it.kind == "static":
            return self.ok(self.new_list(s, PyList(it.items)) if name == "list" else VTuple(it.items), s)
        if it.kind == "seq":
            return self.ok(self.new_list(s, it.seq), s)
        if it.kind == "set":
            return self.ok(self.new_list(s, it.setseq), s)
        if it.kind == "fseq":
            return self.ok(self.new_list(s, it.seq), s)
        raise Unsupported("list()")

    def isinstance(self, v, c, st):
        if isinstance(c, VTuple):
            return z3.Or([self.isinstance(v, x, st) for x in c.items])
        cn = c.name
        if isinstance(v, VRef):
            if self.p.issub(v.cls, cn):
                return z3.BoolVal(True) if not v.nullable else v.e != 0
            if cn in self.p.classes and self.p.issub(cn, v.cls):
                f = z3.Function(f"isinstance_{cn}", INT, BOOL)
                return f(v.e) if not v.nullable else z3.And(v.e != 0, f(v.e))
            return z3.BoolVal(False)
        if isinstance(v, VLocal):
            return z3.BoolVal(self.p.issub(v.cls, cn))
        if cn in ("tuple", "list"):
            if isinstance(v, VTuple):
                return z3.BoolVal(cn == "tuple")
            if isinstance(v, VList):
                return z3.BoolVal(cn == "list")
            if isinstance(v, VOpaque):
                return self.fresh("nondet", BOOL)
            return z3.BoolVal(False)
        if cn == "int" or cn.endswith("Number") or cn == "numbers.Number" or cn == "float":
            if isinstance(v, VNum):
                if cn == "int":
                    return z3.BoolVal(z3.is_int(v.e))
                return z3.BoolVal(True)
            if isinstance(v, VBool):
                return z3.BoolVal(True)
            if isinstance(v, (VObj, VOpaque)):
                return self.fresh("nondet", BOOL)
            return z3.BoolVal(False)
        if cn == "slice":
            return z3.BoolVal(isinstance(v, VIter) and v.kind == "slice")
        if cn == "bool":
            return z3.BoolVal(isinstance(v, VBool)) if not isinstance(v, (VOpaque, VObj)) else self.fresh("nondet", BOOL)
        if cn == "str":
            return z3.BoolVal(isinstance(v, VStr)) if not isinstance(v, (VOpaque, VObj)) else self.fresh("nondet", BOOL)
        if isinstance(v, (VOpaque, VObj)):
            return self.fresh("nondet", BOOL)
        return z3.BoolVal(False)

    def container_method(self, v, m, args, kw, st):
        if isinstance(v, VList):
            c = st.objs[v.loc]
            if m == "append":
                if isinstance(c, PyList):
                    st.objs[v.loc] = PyList(c.items + [args[0]])
                elif isinstance(c, SymSeq):
                    x, n = args[0], c.n
                    st.objs[v.loc] = SymSeq(n + 1, lambda i: self.ite(i == n, x, c.elem(i)))
                elif isinstance(c, SetSeq) and isinstance(args[0], VRef):
                    st.objs[v.loc] = SetSeq(z3.Store(c.dom, args[0].e, z3.BoolVal(True)), c.cls)
                else:
                    raise Unsupported("append")
                return self.ok(NONE, st)
            if m == "pop" and isinstance(c, PyList):
                k = self.static_int(args[0]) if args else -1
                if k is not None and c.items:
                    items = list(c.items)
                    x = items.pop(k)
                    st.objs[v.loc] = PyList(items)
                    return self.ok(x, st)
            if m == "pop" and isinstance(c, SymSeq) and args and self.static_int(args[0]) == 0:
                self.oblige(st, "no-IndexError(pop)", c.n > 0)
                x = c.elem(z3.IntVal(0))
                st.objs[v.loc] = SymSeq(c.n - 1, lambda i: c.elem(i + 1))
                return self.ok(x, st)
            if m == "extend" and isinstance(c, PyList):
                return self.bind(self.iter_of(args[0], st), lambda it, s: self.list_extend(v, it, s))
            raise Unsupported(f"list.{m}")
        if isinstance(v, VField) and v.kind[0] == "dict":
            dom, = (st[v.key + "#dom"][v.owner],)
            if m == "get":
                d = args[1] if len(args) > 1 else NONE
                val = self.s.dict_val(self, v, st, args[0].e)
                return self.ok(self.ite(dom[args[0].e], val, d), st)
            if m == "keys":
                return self.iter_of(v, st)
            if m == "items":
                x = VIter("setitems", setseq=SetSeq(dom, v.kind[1]), field=v, desc=("dict", v.key, v.owner), live=v)
                return self.ok(x, st)
            if m == "pop":
                self.oblige(st, "no-KeyError(pop)", dom[args[0].e])
                val = self.s.dict_val(self, v, st, args[0].e)
                old = st.fork()
                st[v.key + "#dom"] = z3.Store(st[v.key + "#dom"], v.owner, z3.Store(dom, args[0].e, z3.BoolVal(False)))
                self.s.dict_changed(self, v, st, args[0], old)
                return self.ok(val, st)
            if m == "clear":
                self.s.dict_cleared(self, v.key, st, v.owner)
                st[v.key + "#dom"] = z3.Store(st[v.key + "#dom"], v.owner, z3.K(INT, z3.BoolVal(False)))
                return self.ok(NONE, st)
        if isinstance(v, VField) and v.kind[0] == "seq":
            arrs = self.s.seq_arrays(v.kind[1])
            ln = st[v.key + "#len"]
            n = ln[v.owner]
            if m == "append":
                ts = self.s.seq_unelem(self, v.kind[1], args[0], st)
                for a, t in zip(arrs, ts):
                    cur = st[v.key + "#" + a]
                    st[v.key + "#" + a] = z3.Store(cur, v.owner, z3.Store(cur[v.owner], n, t))
                st[v.key + "#len"] = z3.Store(ln, v.owner, n + 1)
                self.s.seq_op(self, st, v, "append", pos=n, elem=args[0])
                return self.ok(NONE, st)
            if m == "pop" and len(args) <= 1 and (not args or (isinstance(args[0], VNum) and args[0].isint)):
                self.oblige(st, "no-IndexError(pop)", n > 0)
                sq = self.seq_of(v, st)
                k = n - 1 if not args else z3.simplify(z3.If(args[0].e < 0, args[0].e + n, args[0].e))
                if args and not z3.is_int_value(k):
                    self.oblige(st, "no-IndexError(pop)", z3.And(0 <= k, k < n))
                x = sq.elem(k)
                if not args:
                    st[v.key + "#len"] = z3.Store(ln, v.owner, n - 1)
                elif z3.is_int_value(k) and k.as_long() == 0:
                    self.write(st, v.key, v.kind, v.owner, self.new_list(st, SymSeq(n - 1, lambda i: sq.elem(i + 1))), hook=False)
                else:
                    self.write(st, v.key, v.kind, v.owner, self.new_list(st, SymSeq(n - 1, lambda i: self.ite(i < k, sq.elem(i), sq.elem(i + 1)))), hook=False)
                self.s.seq_op(self, st, v, "pop", pos=k, elem=x)
                return self.ok(x, st)
            if m == "clear":
                st[v.key + "#len"] = z3.Store(ln, v.owner, z3.IntVal(0))
                self.s.seq_op(self, st, v, "write", parts=[])
                return self.ok(NONE, st)
            if m == "remove":
                # removes the first occurrence; ValueError if absent
                sq = self.seq_of(v, st)
                w, i = self.fresh("rmidx", INT), self.fresh("i", INT)
                x = args[0]
                self.oblige(st, "no-ValueError(list.remove)", z3.Exists([i], z3.And(0 <= i, i < sq.n, self.eq(sq.elem(i), x, st))))
                st.assume(z3.And(0 <= w, w < sq.n, self.eq(sq.elem(w), x, st)))
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), z3.Not(self.eq(sq.elem(i), x, st)))))
                self.write(st, v.key, v.kind, v.owner, self.new_list(st, SymSeq(sq.n - 1, lambda j: self.ite(j < w, sq.elem(j), sq.elem(j + 1)))), hook=False)
                st.notes["rmidx"] = w
                self.s.seq_op(self, st, v, "pop", pos=w, elem=x)
                return self.ok(NONE, st)
            if m == "extend":
                return self.bind(self.iter_of(args[0], st), lambda it, s: self.field_extend(v, it, s))
        if isinstance(v, VDictL):
            if m == "pop" and isinstance(args[0], VStr) and args[0].const is not None:
                d, key = st.objs[v.loc], args[0].const
                if key in d:
                    st.objs[v.loc] = {x: y for x, y in d.items() if x != key}
                    return self.ok(d[key], st)
                if len(args) > 1:
                    return self.ok(args[1], st)
                return [Out("raise", "KeyError", st)]
            d = st.objs[v.loc]
            if m == "clear":
                st.objs[v.loc] = {}
                return self.ok(NONE, st)
            if m == "get" and isinstance(args[0], VStr) and args[0].const is not None:
                return self.ok(d.get(args[0].const, args[1] if len(args) > 1 else NONE), st)
        if isinstance(v, VText):
            return self.text_method(v, m, args, st)
        if isinstance(v, VTextDict) and m == "get":
            k = self.text(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            if k is not None and isinstance(d, VNum) and d.isint:
                return self.ok(VNum(z3.If(st[v.key + "#dom"][k], st[v.key + "#val"][k], d.e)), st)
            if k is not None and isinstance(d, VNone):
                s1, s2 = st.fork(), st.fork()
                s1.assume(st[v.key + "#dom"][k])
                s2.assume(z3.Not(st[v.key + "#dom"][k]))
                return [Out("ok", VNum(st[v.key + "#val"][k]), s1), Out("ok", NONE, s2)]
        if isinstance(v, (VStr,)):
            if self.s.texts and v.const is not None:
                return self.text_method(VText(v.const), m, args, st)
            return self.ok(VOpaque("str method"), st)
        if isinstance(v, VTuple) and m == "index":
            raise Unsupported("tuple.index")
        raise Unsupported(f"method {m} of {v}")

    def list_extend(self, v, it, s):
        c = s.objs[v.loc]
        if it.kind == "static":
            s.objs[v.loc] = PyList(c.items + it.items)
            return self.ok(NONE, s)
        if it.kind == "seq":
            s.objs[v.loc] = self.concat(self.as_symseq(c), it.seq)
            return self.ok(NONE, s)
        raise Unsupported("extend")

    def field_extend(self, v, it, s):
        sq = it.seq if it.kind == "seq" else self.as_symseq(PyList(it.items))
        self.write(s, v.key, v.kind, v.owner, self.new_list(s, self.concat(self.seq_of(v, s), sq)))
        return self.ok(NONE, s)

    # ---------- statements
    def exec_block(self, stmts, st):
        outs, live = [], [st]
        for n in stmts:
            nxt = []
            for s in live:
                for o in self.exec(n, s):
                    if o.kind == "fall":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            live = nxt
            if not live:
                break
            if len(live) > 1 and self.s.merge_paths and isinstance(n, (ast.If, ast.For, ast.While)):
                live = self.merge_live(live)
            if len(live) > 400:
                raise Unsupported("too many paths")
        return outs + [Out("fall", None, s) for s in live]

    @staticmethod
    def same_value(a, b):
        if a is b:
            return True
        if type(a) is not type(b) or set(a.__dict__) != set(b.__dict__):
            return False
        for k, x in a.__dict__.items():
            y = b.__dict__[k]
            if x is y:
                continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if not x.eq(y):
                    return False
            elif not (type(x) is type(y) and isinstance(x, (int, str, bool, type(None))) and x == y):
                return False
        return True

    def merge_live(self, live):
        """paths that differ in nothing but what is known (same heap, same objects, same values of the variables; variables that only
        differ in an unknown value become unusable) are continued as one path that knows the disjunction"""
        def const(v):
            e = getattr(v, "e", None)
            if isinstance(v, (VRef, VObj)):
                return False
            return not (e is not None and z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED)

        groups = []
        for s in live:
            for g in groups:
                t = g[0]
                if set(s.heap) != set(t.heap) or any(not s.heap[k].eq(t.heap[k]) for k in s.heap) or set(s.objs) != set(t.objs) or any(s.objs[k] is not t.objs[k] for k in s.objs) or s.notes != t.notes:
                    continue
                bad = [k for k in set(s.env) | set(t.env) if k not in s.env or k not in t.env or not self.same_value(s.env[k], t.env[k])]
                if any(const(x.env[k]) for k in bad for x in (s, t) if k in x.env):
                    continue
                g.append(s)
                break
            else:
                groups.append([s])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            n = 0
            while all(len(x.pc) > n and x.pc[n].eq(g[0].pc[n]) for x in g):
                n += 1
            m = g[0].fork()
            m.pc = g[0].pc[:n] + [z3.Or([z3.And(x.pc[n:]) if len(x.pc) > n else z3.BoolVal(True) for x in g])]
            for k in set().union(*[set(x.env) for x in g]):
                if any(k not in x.env or not self.same_value(x.env[k], g[0].env[k]) for x in g):
                    m.env[k] = VOpaque("joined")
            out.append(m)
        return out

    def exec(self, n, st):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("symbolic execution time limit")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__}")
        self.line = getattr(n, "lineno", 0)
        return m(n, st)

    def stmt(self, outs):
        return [Out("fall", None, o.st) if o.kind == "ok" else o for o in outs]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [Out("fall", None, st)]
        return self.stmt(self.eval(n.value, st))

    def s_Pass(self, n, st):
        return [Out("fall", None, st)]

    def s_FunctionDef(self, n, st):
        st.env[n.name] = VFunc(n, closure=dict(st.env))
        return [Out("fall", None, st)]

    def s_Import(self, n, st):
        return [Out("fall", None, st)]

    def s_Assert(self, n, st):
        return self.stmt(self.bind(self.eval(n.test, st), lambda v, s: self.assert_(v, s)))

    def assert_(self, v, s):
        t = self.truth(v, s)
        self.oblige(s, "no-AssertionError", t)
        s.assume(t)
        return self.ok(NONE, s)

    def s_Assign(self, n, st):
        def f(v, s):
            outs = [Out("ok", None, s)]
            for t in n.targets:
                outs = self.bind(outs, lambda _, s2: self.assign(t, v, s2))
            return outs

        return self.stmt(self.bind(self.eval(n.value, st), f))

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [Out("fall", None, st)]
        return self.stmt(self.bind(self.eval(n.value, st), lambda v, s: self.assign(n.target, v, s)))

    def s_AugAssign(self, n, st):
        load = ast.parse(ast.unparse(n.target), mode="eval").body

        def f(ab, s):
            a, b = ab
            if isinstance(n.op, ast.Add) and isinstance(a, VList):
                c = s.objs[a.loc]
                return self.bind(self.iter_of(b, s), lambda it, s2: self.list_extend(a, it, s2))
            return self.assign(n.target, self.binop(n.op, a, b, s), s)

        return self.stmt(self.bind(self.evals([load, n.value], st), f))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [Out("ok", None, st)]
        if isinstance(t, ast.Attribute):
            return self.bind(self.eval(t.value, st), lambda o, s: self.setattr(o, t.attr, v, s))
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, VList) and isinstance(st.objs[v.loc], PyList):
                v = VTuple(st.objs[v.loc].items)
            if isinstance(v, VTuple) and len(v.items) == len(t.elts):
                outs = [Out("ok", None, st)]
                for x, y in zip(t.elts, v.items):
                    outs = self.bind(outs, lambda _, s, x=x, y=y: self.assign(x, y, s))
                return outs
            if isinstance(v, VOpaque):
                outs = [Out("ok", None, st)]
                for x in t.elts:
                    outs = self.bind(outs, lambda _, s, x=x: self.assign(x, VOpaque("unpacked"), s))
                return outs
            raise Unsupported("unpacking")
        if isinstance(t, ast.Subscript):
            return self.bind(self.evals([t.value, t.slice], st), lambda vi, s: self.setitem(vi[0], vi[1], v, s))
        raise Unsupported("assignment target")

    def setitem(self, o, i, v, st):
        if isinstance(o, VTextDict) and isinstance(v, VNum) and v.isint:
            k = self.text(i, st)
            st[o.key + "#dom"] = z3.Store(st[o.key + "#dom"], k, z3.BoolVal(True))
            st[o.key + "#val"] = z3.Store(st[o.key + "#val"], k, v.e)
            return [Out("ok", None, st)]
        if isinstance(o, VField) and o.kind[0] == "dict":
            dom = st[o.key + "#dom"]
            old = st.fork()
            self.s.dict_store(self, o, st, i, v)
            st[o.key + "#dom"] = z3.Store(dom, o.owner, z3.Store(dom[o.owner], i.e, z3.BoolVal(True)))
            self.s.dict_changed(self, o, st, i, old)
            return [Out("ok", None, st)]
        if isinstance(o, VList) and isinstance(st.objs[o.loc], PyList):
            k = self.static_int(i)
            items = list(st.objs[o.loc].items)
            if k is not None and -len(items) <= k < len(items):
                items[k] = v
                st.objs[o.loc] = PyList(items)
                return [Out("ok", None, st)]
            if isinstance(i, VNum) and i.isint and items:
                self.oblige(st, "no-IndexError", z3.And(-len(items) <= i.e, i.e < len(items)))
                st.objs[o.loc] = PyList([self.ite(z3.Or(i.e == j, i.e == j - len(items)), v, x) for j, x in enumerate(items)])
                return [Out("ok", None, st)]
        if isinstance(o, VList) and isinstance(st.objs[o.loc], SymSeq) and isinstance(i, VNum):
            c = st.objs[o.loc]
            e = z3.simplify(z3.If(i.e < 0, i.e + c.n, i.e))
            self.oblige(st, "no-IndexError", z3.And(0 <= e, e < c.n))
            st.objs[o.loc] = SymSeq(c.n, lambda j: self.ite(j == e, v, c.elem(j)))
            return [Out("ok", None, st)]
        if isinstance(o, VDictL) and self.static_key(i) is not None:
            st.objs[o.loc] = dict(st.objs[o.loc], **{}) | {self.static_key(i): v}
            return [Out("ok", None, st)]
        if isinstance(o, VField) and o.kind[0] == "seq":
            n = st[o.key + "#len"][o.owner]
            e = z3.simplify(z3.If(i.e < 0, i.e + n, i.e))
            self.oblige(st, "no-IndexError", z3.And(0 <= e, e < n))
            for a, t in zip(self.s.seq_arrays(o.kind[1]), self.s.seq_unelem(self, o.kind[1], v, st)):
                cur = st[o.key + "#" + a]
                st[o.key + "#" + a] = z3.Store(cur, o.owner, z3.Store(cur[o.owner], e, t))
            self.s.seq_op(self, st, o, "set", pos=e, elem=v)
            return [Out("ok", None, st)]
        r = self.s.setitem(self, o, i, v, st)
        if r is not None:
            return r
        if isinstance(o, VOpaque):
            return [Out("ok", None, st)]
        raise Unsupported(f"item assignment on {o}")

    def s_Delete(self, n, st):
        outs = [Out("ok", None, st)]
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                def f(_, s, t=t):
                    return self.bind(self.evals([t.value, t.slice], s), lambda vi, s2: self.delitem(vi[0], vi[1], s2))

                outs = self.bind(outs, f)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                def f(_, s, t=t):
                    def g(v, s2):
                        if not isinstance(v, VLocal) or t.attr not in s2.objs[v.loc]:
                            raise Unsupported("del attribute")
                        s2.objs[v.loc] = {k: w for k, w in s2.objs[v.loc].items() if k != t.attr}
                        return self.ok(NONE, s2)

                    return self.bind(self.eval(t.value, s), g)

                outs = self.bind(outs, f)
            else:
                raise Unsupported("del")
        return self.stmt(outs)

    def delitem(self, o, i, st):
        if isinstance(o, VField) and o.kind[0] == "dict":
            dom = st[o.key + "#dom"]
            self.oblige(st, f"no-KeyError(del {o.name})", dom[o.owner][i.e])
            old = st.fork()
            st[o.key + "#dom"] = z3.Store(dom, o.owner, z3.Store(dom[o.owner], i.e, z3.BoolVal(False)))
            self.s.dict_changed(self, o, st, i, old)
            return [Out("ok", None, st)]
        r = self.s.delitem(self, o, i, st)
        if r is not None:
            return r
        raise Unsupported("del item")

    def s_Return(self, n, st):
        if n.value is None:
            return [Out("return", NONE, st)]
        return [Out("return", o.v, o.st) if o.kind == "ok" else o for o in self.eval(n.value, st)]

    def s_Raise(self, n, st):
        e = n.exc
        if e is None:
            name = st.env["__exc__"] if "__exc__" in st.env else "Exception"
        elif isinstance(e, ast.Call):
            name = e.func.id if isinstance(e.func, ast.Name) else "Exception"
        elif isinstance(e, ast.Name):
            name = e.id if e.id in ("SimulationStopped",) or e.id in ("ValueError", "TypeError", "KeyError", "IndexError", "Exception", "QueueFullError", "NotImplementedError") else st.notes.get("exc:" + e.id, "Exception")
        else:
            name = "Exception"
        return [Out("raise", name, st)]

    def s_Break(self, n, st):
        return [Out("break", None, st)]

    def s_Continue(self, n, st):
        return [Out("continue", None, st)]

    def s_Global(self, n, st):
        raise Unsupported("global")

    def s_Nonlocal(self, n, st):
        raise Unsupported("nonlocal")

    def s_If(self, n, st):
        def f(v, s):
            t = self.truth(v, s)
            ts = z3.simplify(t) if not has_quant(t) else t
            if z3.is_true(ts):
                return self.exec_block(n.body, s)
            if z3.is_false(ts):
                return self.exec_block(n.orelse, s)
            s1, s2 = s.fork(), s.fork()
            s1.assume(t)
            s2.assume(z3.Not(t))
            f1 = self.feasible(s, t)
            f2 = self.feasible(s, z3.Not(t))
            o1 = self.exec_block(n.body, s1) if f1 else []
            o2 = self.exec_block(n.orelse, s2) if f2 else []
            falls1 = [o for o in o1 if o.kind == "fall"]
            falls2 = [o for o in o2 if o.kind == "fall"]
            rest = [o for o in o1 + o2 if o.kind != "fall"]
            if len(falls1) == 1 and len(falls2) == 1:
                m = self.merge(s, t, falls1[0].st, falls2[0].st)
                if m is not None:
                    return rest + [Out("fall", None, m)]
            return rest + falls1 + falls2

        outs = []
        for o in self.eval(n.test, st):
            outs.extend(f(o.v, o.st) if o.kind == "ok" else [o])
        return outs

    def s_With(self, n, st):
        for it in n.items:
            e = it.context_expr
            nm = e.func.attr if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
            if nm not in ("suppress_trace",) or it.optional_vars is not None:
                raise Unsupported("with statement")
            self.dropped.add("with suppress_trace()")
        return self.exec_block(n.body, st)

    EXC_PARENT = {"QueueFullError": "Exception", "KeyError": "Exception", "IndexError": "Exception", "ValueError": "Exception", "TypeError": "Exception", "AttributeError": "Exception"}

    def s_Try(self, n, st):
        outs = []
        for o in self.exec_block(n.body, st):
            if o.kind == "raise":
                handled = False
                for h in n.handlers:
                    names = []
                    if h.type is None:
                        names = ["Exception"]
                    elif isinstance(h.type, ast.Name):
                        names = [h.type.id]
                    elif isinstance(h.type, ast.Tuple):
                        names = [x.id for x in h.type.elts if isinstance(x, ast.Name)]
                    if o.v in names or "Exception" in names:
                        if h.name:
                            o.st.env[h.name] = VOpaque("exception")
                            o.st.notes["exc:" + h.name] = o.v
                        o.st.env["__exc__"] = o.v
                        outs.extend(self.exec_block(h.body, o.st))
                        handled = True
                        break
                if not handled:
                    outs.append(o)
            elif o.kind == "fall" and n.orelse:
                outs.extend(self.exec_block(n.orelse, o.st))
            else:
                outs.append(o)
        if n.finalbody:
            res = []
            for o in outs:
                for p in self.exec_block(n.finalbody, o.st):
                    res.append(Out(o.kind, o.v, p.st) if p.kind == "fall" else p)
            outs = res
        return outs

    # ---------- loops
    def s_While(self, n, st):
        return self.loop(n, st, None)

    def s_For(self, n, st):
        outs = []
        for o in self.eval(n.iter, st):
            if o.kind != "ok":
                outs.append(o)
                continue
            for p in self.iter_of(o.v, o.st):
                if p.kind != "ok":
                    outs.append(p)
                    continue
                it = p.v
                if it.kind == "static":
                    outs.extend(self.unroll(n, it.items, p.st))
                elif it.kind == "concat":
                    outs.extend(self.for_parts(n, it.parts, p.st))
                else:
                    outs.extend(self.loop(n, p.st, it))
        return outs

    def for_parts(self, n, parts, st):
        """one iterable after the other"""
        if n.orelse or any(isinstance(y, ast.Break) for b in n.body for y in ast.walk(b)):
            raise Unsupported("break in a loop over a merged sequence")
        live, outs = [st], []
        for k, p in enumerate(parts):
            nxt = []
            for s in live:
                for y in ast.walk(n.target):
                    if isinstance(y, ast.Name):
                        s.env.pop(y.id, None)
                if p.kind == "seq":
                    p.seg = k
                for o in self.unroll(n, p.items, s) if p.kind == "static" else self.loop(n, s, p):
                    if o.kind == "fall":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            live = nxt
        return outs + [Out("fall", None, s) for s in live]

    def unroll(self, n, items, st):
        live, outs = [st], []
        for x in items:
            nxt = []
            for s in live:
                for a in self.assign(n.target, x, s):
                    if a.kind != "ok":
                        outs.append(a)
                        continue
                    for o in self.exec_block(n.body, a.st):
                        if o.kind in ("fall", "continue"):
                            nxt.append(o.st)
                        elif o.kind == "break":
                            outs.append(Out("fall", None, o.st))
                        else:
                            outs.append(o)
            live = nxt
        for s in live:
            if n.orelse:
                outs.extend(self.exec_block(n.orelse, s))
            else:
                outs.append(Out("fall", None, s))
        return outs

    def havoc_like(self, v, st, name):
        """a fresh value of the same kind"""
        if isinstance(v, VOpt):
            return VOpt(self.fresh(name + "_none", BOOL), self.havoc_like(v.v, st, name))
        if isinstance(v, VNum):
            if v.finite:
                return VNum(self.fresh(name, INT if z3.is_int(v.e) else REAL))
            k = self.fresh(name + "_k", INT)
            st.assume(z3.And(k >= -1, k <= 1))
            return VNum(self.fresh(name, REAL), k)
        if isinstance(v, VBool):
            return VBool(self.fresh(name, BOOL))
        if isinstance(v, VStr):
            return VStr(self.fresh(name, INT))
        if isinstance(v, VObj):
            return VObj(self.fresh(name, INT))
        if isinstance(v, VRef):
            return VRef(self.fresh(name, INT), v.cls, v.nullable)
        if isinstance(v, VTuple):
            return VTuple([self.havoc_like(x, st, name) for x in v.items])
        if isinstance(v, (VOpaque, VEnv, VClass, VModule, VFunc, VGlobal, VUserFn)):
            return v
        if isinstance(v, VSub):
            return VSub(self.fresh(name, INT), v.ocls, v.role, v.cls)
        if isinstance(v, VField):
            return VField(self.fresh(name, INT), v.ocls, v.name, v.kind)
        raise Unsupported(f"loop variable of kind {v}")

    def join_kind(self, a, b):
        """kind that covers both values, or None"""
        if a is b:
            return a
        if isinstance(a, VNone) and isinstance(b, VRef):
            return VRef(b.e, b.cls, True)
        if isinstance(b, VNone) and isinstance(a, VRef):
            return VRef(a.e, a.cls, True)
        if isinstance(a, (VNone, VNum, VOpt)) and isinstance(b, (VNone, VNum, VOpt)) and not (isinstance(a, VNum) and isinstance(b, VNum)) and not (isinstance(a, VNone) and isinstance(b, VNone)):
            nums = [x.v if isinstance(x, VOpt) else x for x in (a, b) if not isinstance(x, VNone)]
            return VOpt(z3.Bool("j"), nums[0] if len(nums) == 1 else self.join_kind(nums[0], nums[1]))
        if isinstance(a, VNum) and isinstance(b, VNum):
            real = z3.is_real(a.e) or z3.is_real(b.e)
            if a.finite and b.finite:
                return VNum(z3.RealVal(0) if real else z3.IntVal(0))
            return VNum(z3.RealVal(0), self.fresh("k", INT))
        if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
            r = [self.join_kind(x, y) for x, y in zip(a.items, b.items)]
            return None if any(x is None for x in r) else VTuple(r)
        try:
            return self.merge_val(z3.Bool("j"), a, b)
        except Unsupported:
            return None

    def used_after(self, n):
        """the names of variables used in the function being verified after loop n"""
        f = getattr(self, "fn_node", None)
        if f is None:
            return ()
        return sorted({y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load) and y.lineno > n.end_lineno})

    def loop(self, n, st, it):
        """cuts the loop with candidate invariants from the contract; Houdini keeps the inductive subset"""
        provider = self.loop_provider
        self.s.sync(self, st)
        if it is not None:
            for y in ast.walk(n.target):
                if isinstance(y, ast.Name) and isinstance(st.env.get(y.id), VMaybe):
                    del st.env[y.id]
        self.name_heap(st)
        entry = st
        kinds = dict(st.env)
        objkinds = dict(st.objs)
        mod_heap, mod_vars, mod_objs = set(), set(), set()
        line = n.lineno
        late = {}  # variables that get their first value in the loop and are used after it

        def make_head():
            h = entry.fork()
            for k, v in late.items():
                h.env[k] = VMaybe(self.fresh(k + "_set", BOOL), self.havoc_like(v, h, k))
            for k in mod_heap:
                h.heap[k] = self.fresh(k, entry.heap[k].sort())
            for k in mod_vars:
                v = kinds[k]
                if isinstance(v, VList):
                    continue
                if isinstance(v, VNone):
                    continue
                h.env[k] = self.havoc_like(v, h, k)
            for l in mod_objs:
                h.objs[l] = self.havoc_obj(objkinds[l], h)
            ghost = {}
            if it is not None:
                if it.kind == "seq":
                    i = self.fresh("it", INT)
                    h.assume(z3.And(0 <= i, i <= it.seq.n))
                    ghost["i"] = i
                elif it.kind in ("set", "setitems"):
                    vis = self.fresh("visited", z3.ArraySort(INT, BOOL))
                    x = self.fresh("x", INT)
                    h.assume(z3.ForAll([x], z3.Implies(vis[x], it.setseq.dom[x]), patterns=[vis[x]]))
                    ghost["vis"] = vis
            return h, ghost

        def body_states(h, ghost):
            """-> list of (state at body start) , list of (exit states)"""
            if it is None:
                starts, exits, others = [], [], []
                for o in self.eval(n.test, h.fork()):
                    if o.kind != "ok":
                        others.append(o)
                        continue
                    t = self.truth(o.v, o.st)
                    s1, s2 = o.st.fork(), o.st.fork()
                    s1.assume(t)
                    s2.assume(z3.Not(t))
                    ts = z3.simplify(t) if not has_quant(t) else t
                    if not z3.is_false(ts):
                        starts.append((s1, ghost))
                    if not z3.is_true(ts):
                        exits.append(s2)
                return starts, exits, others
            if it.kind == "seq":
                i = ghost["i"]
                s1, s2 = h.fork(), h.fork()
                s1.assume(i < it.seq.n)
                s2.assume(i == it.seq.n)
                tnames = [y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)]
                flat = isinstance(n.target, ast.Name) or (isinstance(n.target, ast.Tuple) and all(isinstance(y, ast.Name) for y in n.target.elts))
                if flat and all(y not in entry.env for y in tnames) and not self.feasible(s2, it.seq.n <= 0):
                    # python leaves the last element in the loop variable(s)
                    if not any(isinstance(y, ast.Name) and y.id in tnames and isinstance(y.ctx, ast.Store) for b in n.body for y in ast.walk(b)):
                        last = it.seq.elem(it.seq.n - 1)
                        if isinstance(n.target, ast.Name):
                            s2.env[n.target.id] = last
                        elif isinstance(last, VTuple) and len(last.items) == len(tnames):
                            for y, w in zip(tnames, last.items):
                                s2.env[y] = w
                x = self.loop_elem(it, i, s1)
                outs = self.assign(n.target, x, s1)
                return [(o.st, {"i": i + 1}) for o in outs], [s2], []
            if it.kind in ("set", "setitems"):
                vis = ghost["vis"]
                s1, s2 = h.fork(), h.fork()
                x = self.fresh("elt", INT)
                s1.assume(z3.And(it.setseq.dom[x], z3.Not(vis[x])))
                s2.assume(vis == it.setseq.dom)
                xv = VRef(x, it.setseq.cls, False)
                self.s.assume_type(self, xv, s1)
                if it.kind == "setitems":
                    xv = VTuple([xv, self.s.dict_val(self, it.field, s1, x)])
                outs = self.assign(n.target, xv, s1)
                return [(o.st, {"vis": z3.Store(vis, x, z3.BoolVal(True))}) for o in outs], [s2], []
            raise Unsupported(f"loop over {it.kind}")

        # 1. discover what the loop modifies
        rec = self.recording
        self.recording = False
        depth, self.discovering = self.discovering, self.discovering + 1
        try:
            for _ in range(8):
                h, ghost = make_head()
                starts, exits, others = body_states(h, ghost)
                ends = []
                for s, g2 in starts:
                    for o in self.exec_block(n.body, s):
                        if o.kind in ("fall", "continue"):
                            ends.append(o.st)
                changed = False
                for e in ends + exits:
                    for k in entry.heap:
                        if k not in mod_heap and not e.heap[k].eq(h.heap[k]):
                            mod_heap.add(k)
                            changed = True
                    for k in list(e.env):
                        if k in kinds:
                            a, b = h.env.get(k, kinds[k]), e.env[k]
                            if a is not b and not self.same_val(a, b):
                                j = self.join_kind(kinds[k], b)
                                if isinstance(kinds[k], VList) and isinstance(b, VList):
                                    raise Unsupported("list variable rebound in loop")
                                if j is None:
                                    raise Unsupported(f"loop variable {k} changes kind ({kinds[k]} / {b})")
                                if k not in mod_vars or not self.same_kind(j, kinds[k]):
                                    kinds[k] = j
                                    mod_vars.add(k)
                                    changed = True
                    for k in self.used_after(n):
                        if k in entry.env or k not in e.env or (it is not None and k in [y.id for y in ast.walk(n.target) if isinstance(y, ast.Name)]):
                            continue
                        v = e.env[k].v if isinstance(e.env[k], VMaybe) else e.env[k]
                        if not isinstance(v, (VRef, VNum, VBool)):
                            continue
                        j = v if k not in late else self.join_kind(late[k], v)
                        if j is not None and (k not in late or not self.same_kind(j, late[k])):
                            late[k] = j
                            changed = True
                    for l in entry.objs:
                        if l in e.objs and e.objs[l] is not h.objs[l]:
                            nk = self.join_obj(objkinds[l], e.objs[l])
                            if nk is None:
                                raise Unsupported("list content changes kind in loop")
                            if l not in mod_objs or nk is not objkinds[l]:
                                objkinds[l] = nk
                                mod_objs.add(l)
                                changed = True
                if not changed:
                    break
            else:
                raise Unsupported("loop analysis did not converge")
        finally:
            self.recording = rec
            self.discovering = depth

        # 2. candidate invariants
        h, ghost = make_head()
        g0 = {}
        if it is not None and it.kind == "seq":
            g0 = {"i": z3.IntVal(0)}
        elif it is not None:
            g0 = {"vis": z3.K(INT, z3.BoolVal(False))}
        cands = []
        if provider is not None and not (self.discovering and self.s.fast_discovery):
            L = LoopCtx(eng=self, entry=entry, head=h, it=it, pre=self.pre, args=self.cargs, mod_heap=mod_heap, mod_vars=mod_vars, mod_objs=mod_objs, objkinds=objkinds, node=n, ghost=ghost)
            cands = list(provider(L))
        # cands: list of (name, fn(state, ghost) -> formula or None)
        live = []
        for name, fn in cands:
            try:
                f0 = fn(entry, g0)
                fh = fn(h, ghost)
            except (KeyError, AttributeError, TypeError, z3.Z3Exception, Unsupported) as ex:
                if os.environ.get("PYVC_DEBUG"):
                    print("   candidate error", name, repr(ex))
                continue
            if f0 is None or fh is None:
                continue
            ok0 = self.prove_now(entry.pc, f0)
            if os.environ.get("PYVC_DEBUG"):
                print("   cand", line, name, "entry:", ok0)
            if ok0:
                live.append((name, fn, fh))

        # 3. Houdini
        while True:
            hs = h.fork()
            for name, fn, fh in live:
                hs.assume(fh)
            save_obs = list(self.obs)
            starts, exits, others = body_states(hs, ghost)
            outs, ends = list(others), []
            for s, g2 in starts:
                for o in self.exec_block(n.body, s):
                    if o.kind in ("fall", "continue"):
                        ends.append((o.st, g2))
                    elif o.kind == "break":
                        outs.append(Out("fall", None, o.st))
                    else:
                        outs.append(o)
            bad = []
            for name, fn, fh in live:
                for e, g2 in ends:
                    try:
                        self.name_heap(e)
                        g = fn(e, g2)
                    except (KeyError, AttributeError, TypeError, z3.Z3Exception, Unsupported):
                        g = None
                    self.cand_name = name
                    if g is None or not self.prove_now(e.pc, g):
                        bad.append(name)
                        break
            if os.environ.get("PYVC_DEBUG"):
                print(f"   loop {line}: {len(live)} candidates, dropped {bad}")
            if not bad:
                break
            self.obs = save_obs
            live = [c for c in live if c[0] not in bad]
        self.s.on_loop(self, n, it, [c[0] for c in live])
        for (s, g2) in ends:
            if it is not None and getattr(it, "live", None) is not None:
                # the iterated container itself must not change while iterating
                self.s.check_live(self, it, hs, s)
            for name, fn, fh in live:
                self.oblige(s, f"loop-invariant@{line - self.base_line}:{name}", fn(s, g2), kind="invariant")
        for s in exits:
            if n.orelse:
                outs.extend(self.exec_block(n.orelse, s))
            else:
                outs.append(Out("fall", None, s))
        return outs

    base_line = 0

    def loop_elem(self, it, i, st):
        x = it.seq.elem(i)
        if isinstance(x, VRef):
            self.s.assume_type(self, x, st)
        return x

    def same_val(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, VNum):
            return a.e.eq(b.e) and (a.k == b.k if isinstance(a.k, int) and isinstance(b.k, int) else (z3.is_expr(a.k) and z3.is_expr(b.k) and a.k.eq(b.k)))
        if isinstance(a, VBool):
            return a.b.eq(b.b)
        if isinstance(a, (VStr, VRef, VObj)):
            return a.e.eq(b.e)
        if isinstance(a, VTuple):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VList):
            return a.loc == b.loc
        if isinstance(a, (VNone, VOpaque, VEnv)):
            return True
        return False

    def same_kind(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, VNum):
            return z3.is_int(a.e) == z3.is_int(b.e) and a.finite == b.finite
        if isinstance(a, VRef):
            return a.cls == b.cls and a.nullable == b.nullable
        if isinstance(a, VOpt):
            return self.same_kind(a.v, b.v)
        if isinstance(a, VTuple):
            return len(a.items) == len(b.items) and all(self.same_kind(x, y) for x, y in zip(a.items, b.items))
        return True

    def join_obj(self, a, b):
        """list content kind at loop head"""
        if isinstance(a, SymSeq) and getattr(a, "template", None) is not None:
            return a
        items = None
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return None
            j = JoinDict(a)
            j.changed = set(getattr(a, "changed", ()))
            for k in a:
                if a[k] is b[k] or k in j.changed and self.same_kind(a[k], b[k]):
                    continue
                if self.same_val(a[k], b[k]):
                    continue
                jk = self.join_kind(a[k], b[k])
                if jk is None or isinstance(a[k], (VList, VDictL, VLocal)):
                    return None
                j[k] = jk
                j.changed.add(k)
            return a if isinstance(a, JoinDict) and j.changed == a.changed and all(self.same_kind(a[k], j[k]) for k in j.changed) else j
        if isinstance(b, SetSeq):
            return b if not isinstance(a, SetSeq) else a
        if isinstance(a, SetSeq):
            return a
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items) > 0:
            j = [x if self.same_val(x, y) and not isinstance(a, JoinList) else self.join_kind(x, y) for x, y in zip(a.items, b.items)]
            if all(x is not None for x in j):
                return a if isinstance(a, JoinList) and all(self.same_kind(x, y) for x, y in zip(a.items, j)) else JoinList(j)
        if isinstance(a, (PyList, SymSeq)) and isinstance(b, (PyList, SymSeq)):
            tmpl = None
            for c in (a, b):
                if isinstance(c, PyList):
                    for x in c.items:
                        tmpl = x if tmpl is None else self.join_kind(tmpl, x)
                        if tmpl is None:
                            return None
                else:
                    x = c.elem(z3.IntVal(0))
                    tmpl = x if tmpl is None else self.join_kind(tmpl, x)
            r = SymSeq(None, None)
            r.template = tmpl
            return r
        return None

    def havoc_obj(self, k, st):
        if isinstance(k, JoinDict):
            return {x: (self.havoc_like(v, st, x) if x in k.changed else v) for x, v in k.items()}
        if isinstance(k, SetSeq):
            return SetSeq(self.fresh("set", z3.ArraySort(INT, BOOL)), k.cls, k.val)
        if isinstance(k, JoinList):
            return PyList([self.havoc_like(x, st, "item") for x in k.items])
        n = self.fresh("n", INT)
        st.assume(n >= 0)
        t = k.template
        mk = self.havoc_arr(t)
        s = SymSeq(n, mk)
        s.template = t
        return s

    def havoc_arr(self, t):
        if isinstance(t, VNum) and t.finite:
            a = self.fresh("seq", z3.ArraySort(INT, INT if z3.is_int(t.e) else REAL))
            return lambda i: VNum(a[i])
        if isinstance(t, VRef):
            a = self.fresh("seq", z3.ArraySort(INT, INT))
            return lambda i: VRef(a[i], t.cls, t.nullable)
        if isinstance(t, VObj):
            a = self.fresh("seq", z3.ArraySort(INT, INT))
            return lambda i: VObj(a[i])
        if isinstance(t, VTuple):
            fs = [self.havoc_arr(x) for x in t.items]
            return lambda i: VTuple([f(i) for f in fs])
        if isinstance(t, VBool):
            a = self.fresh("seq", z3.ArraySort(INT, BOOL))
            return lambda i: VBool(a[i])
        if isinstance(t, VOpaque):
            return lambda i: t
        raise Unsupported("list element kind in loop")
