"""C19: names"""
from pyvc.session import *
from pyvc.values import *
import z3

S_ = z3.StringSort()
LOWER = z3.Function("str.lower", S_, S_)
DOM, VAL = z3.ArraySort(S_, BOOL), z3.ArraySort(S_, INT)


class NamesSession(Session):
    name = "names"
    texts = True
    local_classes = ()
    fields = {"Environment": {}, "g": {}}
    extra_maps = {"names#dom": DOM, "names#val": VAL}
    assumptions = ("str.lower is an uninterpreted function; the class name of an object is an arbitrary non-empty string",
                   "the table of used names of one kind of objects in one environment is changed by _set_name only")

    def builtin(self, eng, fv, args, kw, st):
        if fv.name == "type" and isinstance(args[0], VLocal):
            l = eng.loc()
            st.objs[l] = {"__name__": VText(z3.String(f"class_name_{args[0].tag}"))}
            return eng.ok(VLocal(l, "type"), st)
        return None


def obj(cls, tag):
    def f(eng, st):
        l = eng.loc()
        st.objs[l] = {}
        v = VLocal(l, cls)
        v.tag = tag
        return v

    return f


def text(nm):
    return lambda eng, st: VText(z3.String(nm))


def table(eng, st):
    return VTextDict("names")


def base_of(name, tag):
    """specification of the base name"""
    low = LOWER(z3.String(f"class_name_{tag}"))
    dot, comma = z3.StringVal("."), z3.StringVal(",")
    if name is None:
        return z3.Concat(low, dot)
    return z3.If(name == z3.StringVal(""), z3.Concat(low, dot), z3.If(z3.Or(name == dot, name == comma), z3.Concat(low, name), name))


class NameC(Contract):
    props = ("C19",)
    modifies = ("names#dom", "names#val")

    def __init__(self, s, cls, none):
        self.cls, self.none = cls, none
        self.qual = f"_set_name on a {cls}{' (no name given)' if none else ''}: name, base name, sequence number"
        self.params = dict(o=obj(cls, "o"), d=table) if none else dict(n=text("given"), o=obj(cls, "o"), d=table)
        self.source = f"def h({', '.join(self.params)}):\n    _set_name({'None' if none else 'n'}, d, o)\n    return (o.name(), o.base_name(), o.sequence_number())\n"
        super().__init__(s)

    def requires(self, eng, S, a):
        k = z3.Const("k", S_)
        return [("numbers", forall(k, z3.Implies(S["names#dom"][k], S["names#val"][k] >= 0))), ("class name", z3.Length(LOWER(z3.String("class_name_o"))) > 0)]

    def ensures(self, eng, S0, S1, a, r):
        nm, bn, sn = r.items
        g = None if self.none else z3.String("given")
        b = base_of(g, "o")
        ser = z3.Or(z3.SuffixOf(z3.StringVal("."), b), z3.SuffixOf(z3.StringVal(","), b))
        used = S0["names#dom"][b]
        num = z3.If(used, S0["names#val"][b] + 1, z3.If(z3.SuffixOf(z3.StringVal(","), b), z3.IntVal(1), z3.IntVal(0)))
        t = lambda v: eng.text(v, S1)
        k = z3.Const("k", S_)
        return [("base name", t(bn) == b),
                ("sequence number", sn.e == z3.If(ser, num, z3.IntVal(1))),
                ("name", t(nm) == z3.If(ser, z3.Concat(z3.SubString(b, 0, z3.Length(b) - 1), z3.StringVal("."), z3.IntToStr(num)), b)),
                ("table", z3.And(S1["names#dom"] == z3.If(ser, z3.Store(S0["names#dom"], b, z3.BoolVal(True)), S0["names#dom"]),
                                 S1["names#val"] == z3.If(ser, z3.Store(S0["names#val"], b, num), S0["names#val"])))]


class TwoC(Contract):
    """two objects of the same kind, one after the other (whatever happened before)"""

    props = ("C19",)
    modifies = ("names#dom", "names#val")
    qual = "_set_name twice: serialised names are different and consecutive"
    params = dict(n1=text("n1"), n2=text("n2"), o1=obj("Component", "o1"), o2=obj("Component", "o2"), d=table)
    source = "def h(n1, n2, o1, o2, d):\n    _set_name(n1, d, o1)\n    _set_name(n2, d, o2)\n    return (o1.base_name(), o1.sequence_number(), o2.base_name(), o2.sequence_number())\n"

    def requires(self, eng, S, a):
        k = z3.Const("k", S_)
        return [("numbers", forall(k, z3.Implies(S["names#dom"][k], S["names#val"][k] >= 0))), ("named", z3.And(z3.Length(z3.String("n1")) > 1, z3.Length(z3.String("n2")) > 1))]

    def ensures(self, eng, S0, S1, a, r):
        b1, s1, b2, s2 = r.items
        ser = z3.Or(z3.SuffixOf(z3.StringVal("."), eng.text(b1, S1)), z3.SuffixOf(z3.StringVal(","), eng.text(b1, S1)))
        return [("consecutive", z3.Implies(z3.And(ser, eng.text(b1, S1) == eng.text(b2, S1)), s2.e == s1.e + 1))]


class RenameC(Contract):
    props = ("C19",)

    def __init__(self, s, cls):
        self.qual = f"{cls}.name(value)"
        self.params = dict(o=obj(cls, "o"), v=text("value"), d=table, n=text("given"))
        self.modifies = ("names#dom", "names#val")
        self.source = "def h(n, o, d, v):\n    _set_name(n, d, o)\n    b = o.base_name()\n    o.name(v)\n    return (o.name(), b, o.base_name())\n"
        super().__init__(s)

    def requires(self, eng, S, a):
        return [("serialised", z3.And(z3.Length(z3.String("given")) > 1, z3.SuffixOf(z3.StringVal("."), z3.String("given"))))]

    def ensures(self, eng, S0, S1, a, r):
        n, b, b2 = (eng.text(x, S1) for x in r.items)
        return [("new name", n == z3.String("value")), ("base name kept", b == b2)]


def make(program):
    s = NamesSession(program)
    for cls in ("Monitor", "Queue", "Component", "State", "Resource", "Environment"):
        for none in (False, True):
            c = NameC(s, cls, none)
            s.contracts[c.qual] = c
    s.add(TwoC)
    for cls in ("Monitor", "Component", "Environment"):
        c = RenameC(s, cls)
        s.contracts[c.qual] = c
    return s
