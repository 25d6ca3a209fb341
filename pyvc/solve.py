"""Discharges obligations: z3 (E-matching) first, then cvc5, then z3 with model-based instantiation."""
import os, subprocess, time, tempfile
import z3
from .engine import has_quant
from . import relevance

T1 = int(os.environ.get("PYVC_T1", "8000"))
CVC5 = "/usr/bin/cvc5" if os.path.exists("/usr/bin/cvc5") else "cvc5"


SCALE = 1  # all time limits are multiplied by this (retries of failed functions)


def z3_check(hyps, goal, timeout, mbqi=False, seed=0, simple=True):
    timeout = timeout * SCALE
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set("timeout", timeout)
    s.set("auto_config", False)
    s.set("mbqi", mbqi)
    if seed:
        s.set("random_seed", seed)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def cvc5_check(hyps, goal, timeout):
    timeout = timeout * SCALE
    s = z3.SimpleSolver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + txt)
        name = f.name
    try:
        out = subprocess.run(["cvc5", f"--tlimit={timeout}", "--full-saturate-quant", name], capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout
    except Exception:
        out = ""
    finally:
        os.unlink(name)
    return out.strip().split("\n")[0] if out.strip() else "unknown"


def split_goal(g):
    """conjunctions are split; foralls are left to the solver"""
    if z3.is_and(g):
        r = []
        for c in g.children():
            r.extend(split_goal(c))
        return r
    return [g]


def model_text(m, limit=60):
    try:
        out = []
        for d in sorted(m.decls(), key=lambda d: d.name()):
            if "!" in d.name() and d.arity() == 0 or d.arity() == 0:
                out.append(f"{d.name()} = {str(m[d])[:160]}")
        return out[:limit]
    except Exception as e:
        return [repr(e)]


def discharge(ob, t1=None):
    """-> dict(verdict proved|refuted|unproved|timeout, backend, time, info)"""
    t1 = t1 or T1
    t0 = time.time()
    goals = split_goal(ob.goal)
    backends = set()
    for g in goals:
        done = False
        for sl in relevance.slices(ob.hyps, g):
            if z3_check(sl, g, 900)[0] == z3.unsat:
                done = True
                break
        if done:
            backends.add("z3")
            continue
        r, s = z3_check(ob.hyps, g, min(2500, t1))
        if r == z3.unknown:
            r, s = z3_check(ob.hyps, g, min(2500, t1), simple=False)
        if r == z3.unknown and "timeout" in s.reason_unknown() + "canceled":
            r, s = z3_check(ob.hyps, g, t1, seed=7)
        if r == z3.unsat:
            backends.add("z3")
            continue
        reason = s.reason_unknown() if r == z3.unknown else "sat"
        if r == z3.unknown and not has_quant(g):
            # (non-linear) arithmetic: the quantifier-free hypotheses only, default tactics
            qf = [h for h in ob.hyps if not has_quant(h)]
            sn = z3.Solver()
            sn.set("timeout", t1 * SCALE)
            sn.add(qf)
            sn.add(z3.Not(g))
            rn = sn.check()
            if rn == z3.unsat:
                backends.add("z3-nlsat")
                continue
            if rn == z3.sat and len(qf) == len(ob.hyps):
                return dict(verdict="refuted", backend="z3-nlsat", time=time.time() - t0, info=model_text(sn.model()))
        if r == z3.unknown:
            r2 = cvc5_check(ob.hyps, g, t1)
            if r2 == "unsat":
                backends.add("cvc5")
                continue
            # other seeds / model finding
            r3, s3 = z3_check(ob.hyps, g, t1, mbqi=True) if len(ob.hyps) < 150 else (z3.unknown, None)
            if r3 == z3.unsat:
                backends.add("z3-mbqi")
                continue
            if r3 == z3.sat:
                return dict(verdict="refuted", backend="z3", time=time.time() - t0, info=model_text(s3.model()))
            timed = "timeout" in reason or "canceled" in reason
            return dict(verdict="timeout" if timed else "unproved", backend="z3+cvc5", time=time.time() - t0, info=[f"z3: {reason}", f"cvc5: {r2}"])
        return dict(verdict="refuted", backend="z3", time=time.time() - t0, info=model_text(s.model()))
    return dict(verdict="proved", backend="+".join(sorted(backends)) or "trivial", time=time.time() - t0, info=[])
