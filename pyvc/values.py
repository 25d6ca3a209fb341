"""Symbolic values of the pyvc verifier."""
import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """a construct outside the verified subset: the function is *undecided*, never 'violated'"""


class V:
    pass


class VNone(V):
    def __repr__(self):
        return "None"


NONE = VNone()


class VBool(V):
    def __init__(self, b):
        self.b = z3.BoolVal(b) if isinstance(b, bool) else b

    def __repr__(self):
        return f"Bool({self.b})"


class VNum(V):
    """number: e is an Int or Real term; k is the sign of infinity (python int 0 when statically finite)"""

    def __init__(self, e, k=0):
        if isinstance(e, bool):
            e = int(e)
        if isinstance(e, int):
            e = z3.IntVal(e)
        elif isinstance(e, float):
            from fractions import Fraction

            fr = Fraction(repr(e))  # the decimal that was written (mathematical reals)
            e = z3.RealVal(str(fr))
        self.e = e
        self.k = k

    @property
    def isint(self):
        return z3.is_int(self.e) and isinstance(self.k, int) and self.k == 0

    def real(self):
        return z3.ToReal(self.e) if z3.is_int(self.e) else self.e

    def kz(self):
        return z3.IntVal(self.k) if isinstance(self.k, int) else self.k

    @property
    def finite(self):
        return isinstance(self.k, int) and self.k == 0

    def __repr__(self):
        return f"Num({self.e},{self.k})"


INFV = VNum(z3.RealVal(0), 1)

_strcodes = {}
_strnames = {}


def strcode(s):
    if s not in _strcodes:
        _strcodes[s] = len(_strcodes) + 1
        _strnames[_strcodes[s]] = s
    return _strcodes[s]


class VStr(V):
    """string: interned code; 'const' when statically known"""

    def __init__(self, e=None, const=None):
        self.const = const
        self.e = z3.IntVal(strcode(const)) if const is not None else e

    def __repr__(self):
        return f"Str({self.const or self.e})"


class VObj(V):
    """uninterpreted user value (equality only)"""

    def __init__(self, e):
        self.e = e


class VRef(V):
    """reference to a heap object of class cls (or a subclass); 0 is None"""

    def __init__(self, e, cls, nullable=True):
        self.e = e
        self.cls = cls
        self.nullable = nullable

    def __repr__(self):
        return f"Ref({self.e}:{self.cls})"


class VSub(V):
    """object owned by another object, identified by (owner, role)"""

    def __init__(self, owner, ocls, role, cls):
        self.owner, self.ocls, self.role, self.cls = owner, ocls, role, cls

    @property
    def prefix(self):
        return f"{self.ocls}.{self.role}"


class VEnv(V):
    """the (single) simulation environment"""


class VGlobal(V):
    """module-global object with scalar fields, e.g. g"""

    def __init__(self, name):
        self.name = name


class VOpaque(V):
    """value that is not modelled (strings, trace output ...)"""

    def __init__(self, why=""):
        self.why = why

    def __repr__(self):
        return f"Opaque({self.why})"


class VTuple(V):
    def __init__(self, items):
        self.items = list(items)


class VList(V):
    """local mutable list; content lives in State.objs[loc]"""

    def __init__(self, loc):
        self.loc = loc


class VDictL(V):
    """local concrete dict"""

    def __init__(self, loc):
        self.loc = loc


class VField(V):
    """container stored in a heap field: kind ('dict',keycls,valkind) or ('seq',elemkind) or ('evlist',)"""

    def __init__(self, owner, ocls, name, kind):
        self.owner, self.ocls, self.name, self.kind = owner, ocls, name, kind

    @property
    def key(self):
        return f"{self.ocls}.{self.name}"


class VFunc(V):
    def __init__(self, node, closure=None, cls=None, self_v=None, qual=None):
        self.node, self.closure, self.cls, self.self_v, self.qual = node, closure, cls, self_v, qual


class VBuiltin(V):
    def __init__(self, name, self_v=None):
        self.name, self.self_v = name, self_v


class VClass(V):
    def __init__(self, name):
        self.name = name


class VModule(V):
    def __init__(self, name):
        self.name = name


class VUserFn(V):
    """user supplied callable: pure, uninterpreted"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class VIter(V):
    """an iterable prepared for a for loop"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class PyList:
    """statically sized list content"""

    def __init__(self, items):
        self.items = list(items)


class SymSeq:
    """sequence of symbolic length; elem(i) -> V"""

    def __init__(self, n, elem, kind=None):
        self.n, self.elem, self.kind = n, elem, kind


class FilterSeq:
    """the elements elem(i), 0 <= i < n, for which cond(i), in order"""

    def __init__(self, n, elem, cond):
        self.n, self.elem, self.cond = n, elem, cond
        self.cnt = None


class SetSeq:
    """duplicate-free sequence in unspecified order, given by its set of members (refs of class cls)"""

    def __init__(self, dom, cls, val=None):
        self.dom, self.cls, self.val = dom, cls, val


class VLocal(V):
    """object created inside the verified code: its attributes are a concrete dict State.objs[loc]; cls is its class"""

    def __init__(self, loc, cls):
        self.loc, self.cls = loc, cls

    def __repr__(self):
        return f"Local({self.cls})"


class JoinList(PyList):
    """list of fixed length at a loop head"""


class JoinDict(dict):
    """attributes of a local object at a loop head; changed = attributes to havoc"""


class VText(V):
    """string with content (z3 String term); used in sessions with texts = True"""

    def __init__(self, e):
        self.e = z3.StringVal(e) if isinstance(e, str) else e


class VTextDict(V):
    """dict from text to int; content in the heap maps key#dom, key#val"""

    def __init__(self, key):
        self.key = key


class VMaybe(V):
    """local variable that is only assigned on paths where cond holds"""

    def __init__(self, cond, v):
        self.cond, self.v = cond, v


class VOpt(V):
    """None (if none holds) or the number v"""

    def __init__(self, none, v):
        self.none, self.v = none, v
