"""helpers for the concrete oracles"""
import math, io
import salabim as sim

inf = float("inf")
nan = float("nan")
_default = {}


def yieldless(v):
    sim.yieldless(v)


def new_env(yl=True, **kw):
    sim.yieldless(yl)
    kw.setdefault("random_seed", None)
    kw.setdefault("trace", False)
    return sim.Environment(**kw)


def same(a, b, tol=1e-9):
    """numeric equality: nan equals nan, relative tolerance for rounding"""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def checked(f):
    """turns Bad into the oracle's message"""

    def run(case):
        try:
            f(case)
        except Bad as e:
            return str(e)
        return None

    return run
