"""Relevance filter: subsets of the hypotheses that are likely to be enough for a goal (dropping hypotheses is sound)."""
import re
import z3

_cache = {}
_q = {}


def _syms(e):
    """names of the uninterpreted array constants in e"""
    seen, out, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort().kind() == z3.Z3_ARRAY_SORT:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
    return frozenset(out)


def _age(n):
    m = re.search(r"!(\d+)$", n)
    return int(m.group(1)) if m else -1


def info(h):
    k = h.get_id()
    r = _cache.get(k)
    if r is not None and r[0].eq(h):
        return r
    from .engine import has_quant

    s = _syms(h)
    d = None
    if z3.is_eq(h):
        a = h.arg(0)
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.sort().kind() == z3.Z3_ARRAY_SORT:
            d = a.decl().name()
    newest = max(s, key=_age) if s else None
    r = (h, s, d, has_quant(h), newest)
    _cache[k] = r
    return r


def slices(hyps, goal):
    """-> list of hypothesis lists, small to large (without the complete list)"""
    if len(hyps) < 12:
        return []
    inf = [info(h) for h in hyps]
    nq = sum(1 for x in inf if x[3])
    if nq < 8:
        return []
    cone = set(_syms(goal))
    defs = {}
    for x in inf:
        if x[2] is not None:
            defs.setdefault(x[2], []).append(x)

    def close(cone, wide):
        todo = True
        while todo:
            todo = False
            for x in inf:
                if x[2] is not None and x[2] in cone and not x[1] <= cone:
                    cone |= x[1]
                    todo = True
                elif x[3] and x[4] in cone and not x[1] <= cone and len(x[1] - cone) <= wide:
                    cone |= x[1]
                    todo = True
        return cone

    def pick(cone):
        out = []
        for x in inf:
            if x[2] is not None:
                if x[2] in cone:
                    out.append(x[0])
            elif not x[3] or x[1] <= cone:
                out.append(x[0])
        return out

    r, last = [], 0
    for width in (1, 2, 3, 1000):
        cone = close(set(cone), width)
        p = pick(cone)
        if last < len(p) < 0.9 * len(hyps):
            r.append(p)
            last = len(p)
    return r
