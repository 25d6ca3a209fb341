"""Session = heap typing + contracts + models of dependencies for one area of salabim.

A Contract is written once and used twice: to verify the real body (verify_target) and at call sites (Engine.apply_contract)."""
import ast, time
import z3
from .values import *
from .engine import Engine, State, Out, Ob

A1 = lambda s: z3.ArraySort(INT, s)
A2 = lambda s: z3.ArraySort(INT, z3.ArraySort(INT, s))
FALSE1 = z3.K(INT, z3.BoolVal(False))


def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats is None:
        return z3.ForAll(list(vs), body)
    if not isinstance(pats, (list, tuple)):
        pats = [pats]
    return z3.ForAll(list(vs), body, patterns=list(pats))


class Contract:
    """name, params {arg: kind}, and functions of (S0 pre-state, S1 post-state, a arguments, r result)"""

    params = {}
    modifies = ()
    any_args = ()  # parameters that may have any value at a call (they only serve messages)
    suspends = False  # the function may end by switching to another greenlet
    verify = True
    trusted = None  # reason, when the body is not verified (assumed contract)
    props = ()
    deterministic_ghost = True
    source = None  # text of a client function (a sequence of calls of real code) when the contract is about several calls together

    def __init__(self, s):
        self.s = s
        self.name = self.qual

    qual = None

    def requires(self, eng, S, a):
        return []

    def raises(self, eng, S, a):
        return []

    def exc_effect(self, eng, pre, st, a, exc):
        return None

    def exc_ensures(self, eng, S0, S1, a, exc):
        """default: an exceptional exit leaves the modelled state untouched"""
        return [(f"unchanged({m})", S1[m] == S0[m]) for m in S1.heap if not S1[m].eq(S0[m])]

    def branches(self, eng, pre, a):
        return [dict()]

    def ghost(self, eng, S0, S1, a):
        return None

    def exit_ghost(self, eng, S0, S1, a, res):
        """ghost updates when verifying the body (default: same as at call sites)"""
        return self.ghost(eng, S0, S1, a)

    def result(self, eng, S0, S1, a):
        return NONE

    def frame(self, eng, S0, S1, a):
        return []

    def ensures(self, eng, S0, S1, a, r):
        return []

    def loops(self, L):
        return []

    def make_args(self, eng, st):
        env = {}
        for k, kind in self.params.items():
            env[k] = self.s.sym(eng, k, kind, st)
        return env


class Session:
    name = "base"
    fields = {}
    sub_fields = {}
    sub_methods = {}
    noeffect = set()
    split_lists = False  # lists of different (static) length keep their paths apart
    merge_paths = False  # paths with the same heap and variables are joined after if and loop statements
    obj_texts = False  # str(x) of an opaque object is a function of that object (text_contains)
    fast_discovery = False  # inner loops are taken without invariants while finding out what an outer loop modifies
    process_yields = False  # generator functions are processes (and not generators of a sequence)
    houdini_timeout = 4000
    local_classes = ()  # classes whose instances, created in verified code, are modelled attribute by attribute
    extra_maps = {}
    texts = False  # model the content of strings
    assumptions = ()

    def __init__(self, program):
        self.p = program
        self.contracts = {}
        self.loops_used = []

    def add(self, *classes):
        for c in classes:
            k = c(self)
            self.contracts[k.qual] = k

    # ------------- heap
    def sort_of(self, kind):
        if kind in ("int", "str", "obj"):
            return INT
        if kind in ("real", "xreal"):
            return REAL
        if kind == "bool":
            return BOOL
        if isinstance(kind, tuple) and kind[0] == "ref":
            return INT
        raise KeyError(kind)

    def init_heap(self, eng, st):
        def add(key, kind, scalar):
            if kind in ("opaque", "env"):
                return
            if isinstance(kind, tuple) and kind[0] in ("sub", "fn", "special"):
                return
            if isinstance(kind, tuple) and kind[0] == "dict":
                st[key + "#dom"] = z3.Const(key + "#dom", A2(BOOL))
                for suffix, srt in self.dict_maps(kind):
                    st[key + suffix] = z3.Const(key + suffix, A2(srt))
                return
            if isinstance(kind, tuple) and kind[0] == "seq":
                st[key + "#len"] = z3.Const(key + "#len", A1(INT))
                for a, srt in self.seq_sorts(kind[1]):
                    st[key + "#" + a] = z3.Const(key + "#" + a, A2(srt))
                return
            srt = self.sort_of(kind)
            if scalar and not (isinstance(kind, tuple)):
                st[key] = z3.Const(key, srt)
                if kind == "xreal":
                    st[key + "#k"] = z3.Const(key + "#k", INT)
            else:
                st[key] = z3.Const(key, A1(srt))
                if kind == "xreal":
                    st[key + "#k"] = z3.Const(key + "#k", A1(INT))

        for cls, fs in self.fields.items():
            for f, kind in fs.items():
                add(f"{cls}.{f}", kind, cls in ("Environment", "g"))
        for pre, fs in self.sub_fields.items():
            for f, kind in fs.items():
                add(f"{pre}.{f}", kind, False)
        for m, srt in self.extra_maps.items():
            st[m] = z3.Const(m, srt)

    def dict_maps(self, kind):
        v = kind[2]
        if v == "xreal":
            return [("", REAL), ("#k", INT)]
        if v is None:
            return []
        return [("", self.sort_of(v))]

    def seq_sorts(self, ekind):
        if isinstance(ekind, tuple) and ekind[0] == "tuple":
            r = []
            for i, k in enumerate(ekind[1:]):
                r.append((str(i), self.sort_of(k)))
                if k == "xreal":
                    r.append((f"{i}k", INT))
            return r
        if ekind == "xreal":
            return [("0", REAL), ("k", INT)]
        return [("0", self.sort_of(ekind))]

    def seq_arrays(self, ekind):
        return [a for a, _ in self.seq_sorts(ekind)]

    def lift(self, kind, terms):
        if kind in ("int", "real"):
            return VNum(terms[0])
        if kind == "xreal":
            return VNum(terms[0], terms[1])
        if kind == "bool":
            return VBool(terms[0])
        if kind == "str":
            return VStr(terms[0])
        if kind == "obj":
            return VObj(terms[0])
        if isinstance(kind, tuple) and kind[0] == "ref":
            return VRef(terms[0], kind[1], kind[2] if len(kind) > 2 else True)
        raise Unsupported(f"lift {kind}")

    def seq_elem(self, eng, ekind, terms):
        if isinstance(ekind, tuple) and ekind[0] == "tuple":
            items, ts = [], list(terms)
            for k in ekind[1:]:
                m = 2 if k == "xreal" else 1
                items.append(self.lift(k, ts[:m]))
                ts = ts[m:]
            return VTuple(items)
        return self.lift(ekind, terms)

    def seq_unelem(self, eng, ekind, v, st):
        if isinstance(ekind, tuple) and ekind[0] == "tuple":
            items = v.items if isinstance(v, VTuple) else st.objs[v.loc].items
            return [t for x, k in zip(items, ekind[1:]) for t in eng.coerce(x, k, st)]
        return eng.coerce(v, ekind, st)

    def dict_val(self, eng, v, st, k):
        kind = v.kind[2]
        if kind == "xreal":
            return VNum(st[v.key][v.owner][k], st[v.key + "#k"][v.owner][k])
        return self.lift(kind, [st[v.key][v.owner][k]])

    def dict_store(self, eng, o, st, i, v):
        kind = o.kind[2]
        if kind is None:
            return
        ts = eng.coerce(v, kind, st)
        for (suffix, _), t in zip(self.dict_maps(o.kind), ts):
            cur = st[o.key + suffix]
            st[o.key + suffix] = z3.Store(cur, o.owner, z3.Store(cur[o.owner], i.e, t))

    # ------------- symbolic values
    def sym(self, eng, name, kind, st):
        if callable(kind):
            return kind(eng, st)
        if kind in ("int",):
            return VNum(eng.fresh(name, INT))
        if kind == "real":
            return VNum(eng.fresh(name, REAL))
        if kind == "xreal":
            k = eng.fresh(name + "_k", INT)
            st.assume(z3.And(k >= -1, k <= 1))
            return VNum(eng.fresh(name, REAL), k)
        if kind == "bool":
            return VBool(eng.fresh(name, BOOL))
        if kind == "str":
            return VStr(eng.fresh(name, INT))
        if kind == "obj":
            return VObj(eng.fresh(name, INT))
        if kind == "none":
            return NONE
        if kind == "env":
            return VEnv()
        if kind == "opaque":
            return VOpaque(name)
        if isinstance(kind, tuple) and kind[0] == "const":
            return eng.const(kind[1])
        if isinstance(kind, tuple) and kind[0] == "ref":
            nullable = kind[2] if len(kind) > 2 else False
            e = eng.fresh(name, INT)
            st.assume(e >= 0 if nullable else e > 0)
            v = VRef(e, kind[1], nullable)
            self.assume_type(eng, v, st)
            return v
        if isinstance(kind, tuple) and kind[0] == "seqarg":
            n = eng.fresh(name + "_n", INT)
            st.assume(n >= 0)
            if len(kind) > 2:
                st.assume(n >= kind[2])
            srt = self.sort_of(kind[1])
            arr = eng.fresh(name + "_a", A1(srt))
            ek = kind[1]
            return eng.new_list(st, SymSeq(n, lambda i: self.lift(ek, [arr[i]])))
        raise KeyError(kind)

    # ------------- hooks (defaults)
    def globals(self, eng, name):
        if name == "inf":
            return INFV
        if name == "nan":
            return VOpaque("nan")
        if name == "g":
            return VGlobal("g")
        if name == "Pythonista":
            return VBool(False)
        return None

    def obj_truth(self, e):
        return z3.Function("obj_truth", INT, BOOL)(e)

    def obj_lt(self, eng, a, b, op):
        return eng.fresh("nondet", BOOL)

    def box(self, eng, v):
        if isinstance(v, VStr):
            return z3.Function("box_str", INT, INT)(v.e)
        if isinstance(v, VNum):
            return z3.Function("box_num", REAL, INT)(v.real())
        return z3.Function("box_bool", BOOL, INT)(v.b)

    def field_truth(self, eng, v, st):
        raise Unsupported("truth")

    def seq_of(self, eng, v, st):
        return None

    def getitem(self, eng, v, i, st):
        return None

    def setitem(self, eng, o, i, v, st):
        return None

    def sync(self, eng, st):
        """called before a contract is applied and before a loop: the session may bring ghost state up to date"""

    def dict_changed(self, eng, o, st, i, old):
        """called after an item of a modelled dict is set or deleted (ghost state); old = state before"""

    def dict_cleared(self, eng, key, st, owner):
        """called before a modelled dict is emptied"""

    def seq_op(self, eng, st, field, op, **info):
        """called after every change of a modelled list (ghost state of the list)"""

    def delitem(self, eng, o, i, st):
        return None

    def iter_of(self, eng, v, st):
        return None

    def set_hint(self, eng, it, d, st):
        """instances of the axiom 'every element of the sequence is in the set' (implied by it)"""

    def filter_comp(self, eng, elt, g, it, st):
        return None

    def call_opaque(self, eng, fv, args, kw, st):
        return None

    def construct(self, eng, name, args, kw, st):
        return None

    def builtin(self, eng, fv, args, kw, st):
        return None

    def contract_for(self, eng, qual, args, kw, st):
        return self.contracts.get(qual)

    def SUM(self, eng, seq, st):
        raise Unsupported("sum")

    def assume_type(self, eng, v, st):
        pass

    def on_loop(self, eng, n, it, names):
        self.loops_used.append((eng.where, n.lineno - eng.base_line, names))

    def check_live(self, eng, it, h, s):
        pass

    def write_special(self, eng, st, key, kind, owner, v):
        raise Unsupported(f"write to {key}")

    def background(self, eng, st):
        """assumptions about the initial state that are not contract specific (heap typing)"""
        return []


class Result:
    def __init__(self, target):
        self.target = target
        self.status = None  # ok / failed / undecided
        self.obligations = []  # dicts
        self.reason = ""
        self.solver_s = 0.0
        self.wall_s = 0.0
        self.reach = None
        self.inlined = []
        self.used = []
        self.dropped = []
        self.loops = []
        self.sha = None
        self.paths = 0
        self.timed = False

    def as_dict(self):
        return dict(self.__dict__)


def build(session, contract, budget=120):
    """symbolically executes the real body -> engine with obligations, list of exit states"""
    p = session.p
    if contract.source is not None:
        # a client of the real code: the harness text is only the sequence of calls, every callee is the real code
        node = ast.parse(contract.source).body[0]
    else:
        node = p.node(contract.qual.split("/")[0])
    if node is None:
        raise Unsupported(f"function {contract.qual} not found in the source")
    eng = Engine(p, session)
    eng.deadline = time.time() + budget
    eng.base_line = node.lineno
    eng.fn_node = node
    eng.where = contract.qual
    st = State()
    session.init_heap(eng, st)
    env = contract.make_args(eng, st)
    for f in session.background(eng, st):
        st.assume(f)
    pre = st.fork()
    for name, f in contract.requires(eng, pre, env):
        st.assume(f)
    pre = st.fork()
    eng.pre, eng.cargs = pre, dict(env)
    eng.loop_provider = contract.loops
    eng.contract = contract
    cls = contract.qual.split(".")[0] if "." in contract.qual and contract.source is None else None
    kwenv = {k: v for k, v in env.items() if not k.startswith("$")}
    for k, v in list(kwenv.items()):
        if isinstance(v, VIter) and v.kind == "star":
            pass
    names = [x.arg for x in node.args.posonlyargs + node.args.args]
    st.env = {}
    full = bind_target(eng, node, kwenv, st)
    st.env.update(full)
    if cls:
        c, _ = p.find(cls, contract.qual.split("/")[0].split(".")[1])
        st.env["__class__"] = VClass(c or cls)
    gen = any(isinstance(x, (ast.Yield,)) for x in ast.walk(node)) and not session.process_yields
    if gen:
        st.env["__yield__"] = eng.new_list(st, PyList([]))
    init_pc = list(st.pc)
    outs = eng.exec_block(node.body, st)
    exits = []
    excs = contract.raises(eng, pre, env)
    for o in outs:
        s = o.st
        if o.kind in ("fall", "return"):
            res = NONE if o.kind == "fall" else o.v
            if gen:
                res = s.env["__yield__"]
            for exc, cond in excs:
                eng.oblige(s, f"must-raise({exc})", z3.Not(cond), kind="raises")
            finish(eng, contract, pre, s, env, res)
            exits.append(s)
        elif o.kind == "suspend":
            if not contract.suspends:
                eng.oblige(s, "no-unexpected-switch", z3.BoolVal(False), kind="raises")
                continue
            for exc, cond in excs:
                eng.oblige(s, f"must-raise({exc})", z3.Not(cond), kind="raises")
            finish(eng, contract, pre, s, env, NONE)
            exits.append(s)
        elif o.kind == "raise":
            conds = [c for e, c in excs if e == o.v]
            eng.oblige(s, f"no-unexpected-exception({o.v})", z3.Or(conds) if conds else z3.BoolVal(False), kind="raises")
            if conds:
                s.assume(z3.Or(conds))
                for nme, f in contract.exc_ensures(eng, pre, s, env, o.v):
                    eng.oblige(s, f"exceptional[{o.v}].{nme}", f, kind="exceptional")
                exits.append(s)
        else:
            raise Unsupported(o.kind)
    return eng, init_pc, exits


def bind_target(eng, node, env, st):
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]
    out = {}
    pos = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
    defaults.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n in names:
        if n in env:
            out[n] = env[n]
        elif n in defaults:
            out[n] = eng.eval(defaults[n], st)[0].v
        else:
            raise Unsupported(f"parameter {n} has no contract kind")
    if a.vararg is not None:
        out[a.vararg.arg] = env.get(a.vararg.arg, VTuple([]))
    if a.kwarg is not None:
        l = eng.loc()
        st.objs[l] = {}
        out[a.kwarg.arg] = env.get(a.kwarg.arg, VDictL(l))
    for n in env:
        if n not in names and n != "self" and (a.vararg is None or n != a.vararg.arg) and (a.kwarg is None or n != a.kwarg.arg):
            raise Unsupported(f"parameter {n} not in signature")
    return out


def finish(eng, contract, pre, s, env, res):
    eng.name_heap(s)
    contract.exit_ghost(eng, pre, s, env, res)
    eng.name_heap(s)
    mods = set(contract.modifies)
    for m in s.heap:
        if m not in mods and not s.heap[m].eq(pre.heap[m]):
            eng.oblige(s, f"frame({m})", s.heap[m] == pre.heap[m], kind="frame")
    for name, f in contract.frame(eng, pre, s, env):
        eng.oblige(s, name, f, kind="frame")
    for name, f in contract.ensures(eng, pre, s, env, res):
        eng.oblige(s, name, f, kind="ensures")
