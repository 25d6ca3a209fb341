"""Verifies the targets of sessions, in parallel, from the current source."""
import os, sys, time, traceback, importlib, multiprocessing as mp, signal, resource
import z3
from .program import Program
from .values import Unsupported
from . import session as S
from . import solve

_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


def load(session_name):
    m = importlib.import_module("specs." + session_name)
    return m.make(prog())


def reachable(pc, timeout=3000):
    """vacuity guard: the hypotheses must not be contradictory (unsat = vacuous)"""
    s = z3.SimpleSolver()
    s.set("timeout", timeout)
    s.set("auto_config", False)
    s.set("mbqi", False)
    for f in pc:
        s.add(f)
    return s.check() != z3.unsat


def verify(session_name, qual, verbose=False, budget=None, scale=1):
    t0 = time.time()
    solve.SCALE = scale
    r = S.Result(f"{session_name}:{qual}")
    try:
        ses = load(session_name)
        c = ses.contracts[qual]
        r.sha = ses.p.sha(qual.split("/")[0])
        if c.trusted or not c.verify:
            r.status = "trusted"
            r.reason = c.trusted or ""
            return r.as_dict()
        b0 = time.time()
        eng, init_pc, exits = S.build(ses, c, budget=(budget or 120) if scale > 1 else 120)
        bt = time.time() - b0
        r.paths = len(exits)
        r.inlined, r.used, r.dropped = sorted(eng.inlined), sorted(eng.used_contracts), sorted(eng.dropped)
        r.loops = ses.loops_used
        if c.source is not None:
            r.sha = "+".join(f"{q}:{ses.p.sha(q)}" for q in r.inlined)
        if not reachable(init_pc):
            r.status, r.reason = "vacuous", "precondition is contradictory"
            return r.as_dict()
        reach = [reachable(e.pc) for e in exits]
        if not any(reach):
            r.status, r.reason = "vacuous", "no exit is reachable"
            return r.as_dict()
        r.reach = f"{sum(reach)}/{len(exits)} exits reachable"
        names = {}
        nbad = 0
        for ob in eng.obs:
            d = solve.discharge(ob, None if nbad < (2 if scale == 1 else 1) else 1500)
            nbad += d["verdict"] != "proved"
            k = names[ob.name] = names.get(ob.name, 0) + 1
            d.update(name=ob.name, n=k, where=ob.where, kind=ob.kind, prop=ob.prop)
            r.solver_s += d["time"]
            r.obligations.append(d)
            if verbose and (d["verdict"] != "proved" or d["time"] > 2):
                print("   ", d["verdict"], ob.where, ob.name, f"{d['time']:.2f}s", d["backend"], d["info"][:verbose if d["verdict"] != "proved" else 0], flush=True)
            if budget and time.time() - t0 > budget:
                r.status, r.reason, r.timed = "undecided", f"time budget {budget}s", True
                return r.as_dict()
        r.solver_s += bt
        if not r.obligations:
            r.status, r.reason = "vacuous", "no obligation generated"
        elif all(o["verdict"] == "proved" for o in r.obligations):
            r.status = "proved"
        elif any(o["verdict"] in ("refuted", "unproved") for o in r.obligations):
            r.status = "failed"
            # a time limit may have had a part in it (a loop invariant dropped, an obligation given up): try again with more time
            r.timed = eng.stats.get("houdini_timeouts", 0) > 0 or any(o["verdict"] == "timeout" for o in r.obligations)
        else:
            r.timed = True
            r.status, r.reason = "undecided", "solver time-out"
    except Unsupported as e:
        r.status, r.reason = "undecided", f"outside the verified subset: {e}"
        if verbose:
            traceback.print_exc()
    except Exception as e:
        r.status, r.reason = "undecided", f"verifier error: {e!r}"
        if verbose:
            traceback.print_exc()
    finally:
        r.wall_s = time.time() - t0
    return r.as_dict()


def _work(conn, session_name, qual, budget, scale=1):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.stdout = open(os.devnull, "w")
        conn.send(verify(session_name, qual, budget=budget, scale=scale))
    except Exception as e:
        r = S.Result(f"{session_name}:{qual}")
        r.status, r.reason = "undecided", f"verifier error: {e!r}"
        conn.send(r.as_dict())
    finally:
        conn.close()


def verify_all(targets, jobs=8, budget=150, retry=300):
    """targets: list of (session, qual) -> list of result dicts (same order); what did not succeed because of a time limit is tried again, with four times the limits and less load"""
    results = _verify_all(targets, jobs, budget)
    return retry_timed(targets, results, retry) if retry else results


def retry_timed(targets, results, retry=300):
    again = [i for i, r in enumerate(results) if r["status"] in ("failed", "undecided") and r.get("timed")]
    again = again[:12]
    if again:
        for i, r in zip(again, _verify_all([targets[i] for i in again], 4, retry, scale=4)):
            if r["status"] == "undecided" and r["obligations"]:
                # an obligation that is discharged on the verified tree (in at most a few seconds) is still not discharged with four times the limits,
                # while nearly all others of the same function are: this counts as not discharged
                late = [o for o in r["obligations"] if o["verdict"] == "timeout"]
                if late and len(late) <= 10 and len(late) * 5 <= len(r["obligations"]):
                    r["status"], r["reason"] = "failed", "obligation not discharged within the extended time limit"
            if r["status"] in ("proved", "failed") or results[i]["status"] == "undecided":
                r["retried"] = True
                results[i] = r
            else:
                # not confirmed with more time
                results[i]["status"], results[i]["reason"] = "undecided", "not confirmed in the retry: " + r["reason"]
    return results


def _verify_all(targets, jobs, budget, scale=1):
    prog()
    ctx = mp.get_context("fork")
    pending = list(enumerate(targets))
    running, results = {}, [None] * len(targets)
    while pending or running:
        while pending and len(running) < jobs:
            i, (s, q) = pending.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=_work, args=(b, s, q, budget, scale), daemon=True)
            pr.start()
            b.close()
            running[i] = (pr, a, time.time(), s, q)
        time.sleep(0.02)
        for i in list(running):
            pr, a, t0, s, q = running[i]
            done = None
            try:
                if a.poll():
                    done = a.recv()
            except (EOFError, OSError):
                pass
            if done is None and (not pr.is_alive() or time.time() - t0 > budget + 60):
                pr.kill()
                r = S.Result(f"{s}:{q}")
                r.status, r.reason, r.wall_s = "undecided", "verifier process ended without a result", time.time() - t0
                done = r.as_dict()
            if done is not None:
                results[i] = done
                pr.join(timeout=1)
                if pr.is_alive():
                    pr.kill()
                del running[i]
    return results


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.execve(sys.executable, [sys.executable, "-m", "pyvc.driver"] + sys.argv[1:], dict(os.environ, PYTHONHASHSEED="0"))
    ses = sys.argv[1]
    quals = sys.argv[2:]
    if not quals:
        quals = list(load(ses).contracts)
    if len(quals) == 1:
        r = verify(ses, quals[0], verbose=12)
        print(r["status"], r["reason"], len(r["obligations"]), "obligations", f"{r['wall_s']:.1f}s", r["reach"])
        print("inlined", r["inlined"], "used", r["used"], "dropped", r["dropped"])
        for l in r["loops"]:
            print("loop", l)
    else:
        t0 = time.time()
        for r in verify_all([(ses, q) for q in quals], retry=int(os.environ.get('PYVC_RETRY', '300'))):
            bad = [(o["name"], o["verdict"]) for o in r["obligations"] if o["verdict"] != "proved"]
            print(f"{r['status']:10} {r['target']:45} {len(r['obligations']):4} obs {r['wall_s']:6.1f}s {r['reason']} {bad[:6]}")
        print(f"{time.time()-t0:.1f}s")
