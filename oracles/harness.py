"""Bounded concrete oracles: random and small-scope histories on the real code, compared with independent reference models.

An oracle module defines
    gen(rng, size) -> case       (JSON-able)
    run(case)      -> None | message      (executes the case on the real salabim through its public interface)
    exhaustive()   -> iterable of cases   (optional, small scope, always run first)
    shrink(case)   -> iterable of smaller cases (optional; default removes elements of case["ops"])
"""
import sys, os, json, time, random, importlib, traceback, copy, signal

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True


class Stuck(Exception):
    pass


def default_shrink(case):
    for i, inner in enumerate(case.get("procs") or []):
        for step in sorted({max(1, len(inner) // 2), 1}, reverse=True):
            for j in range(0, len(inner), step):
                c = copy.deepcopy(case)
                del c["procs"][i][j:j + step]
                yield c
    for key in ("ops", "events", "entries", "main"):
        ops = case.get(key)
        if isinstance(ops, list) and len(ops) > 0:
            n = len(ops)
            step = max(1, n // 2)
            while step >= 1:
                for i in range(0, n, step):
                    c = copy.deepcopy(case)
                    del c[key][i:i + step]
                    yield c
                if step == 1:
                    break
                step //= 2


def guarded(mod, case, limit=20):
    def h(*a):
        raise Stuck("no progress within %d s" % limit)

    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.run(copy.deepcopy(case))
    except Stuck as e:
        return f"the history does not terminate: {e}"
    except RecursionError:
        return "RecursionError in salabim"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1]
        return f"unexpected {type(e).__name__}: {e} at {os.path.basename(last.filename)}:{last.name}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def minimise(mod, case, msg, limit=15):
    t0 = time.time()
    sh = getattr(mod, "shrink", default_shrink)
    progress = True
    while progress and time.time() - t0 < limit:
        progress = False
        for c in sh(case):
            if time.time() - t0 > limit:
                break
            m = guarded(mod, c, 5)
            if m:
                case, msg, progress = c, m, True
                break
    return case, msg


def main():
    cmd = sys.argv[1]
    if cmd == "replay":
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module("oracles." + d["oracle"])
        m = guarded(mod, d["case"])
        print("FAILS: " + m if m else "holds")
        sys.exit(1 if m else 0)
    name, seed, budget, out = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    mod = importlib.import_module("oracles." + name)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    t0 = time.time()
    n, distinct, samples, bad = 0, set(), [], None
    shard, nshards = (int(x) for x in os.environ.get("ORACLE_SHARD", "0/1").split("/"))
    ex = 0
    if hasattr(mod, "exhaustive"):
        for i, case in enumerate(mod.exhaustive()):
            if i % nshards != shard:
                continue
            if time.time() - t0 > budget * 0.6:
                break
            n += 1
            ex += 1
            m = guarded(mod, case)
            if m:
                bad = (case, m)
                break
    rng = random.Random(seed * 7919 + shard)
    size = 4
    while bad is None and time.time() - t0 < budget:
        case = mod.gen(rng, size)
        size = 4 + (size - 3) % 40
        n += 1
        distinct.add(hash(json.dumps(case, sort_keys=True, default=str)))
        if len(samples) < 2:
            samples.append(case)
        m = guarded(mod, case)
        if m:
            bad = (case, m)
    res = dict(oracle=name, evaluations=n, exhaustive_cases=ex, distinct=len(distinct) + ex, seconds=round(time.time() - t0, 2), samples=[str(s)[:600] for s in samples], violation=None)
    if bad:
        case, m = minimise(mod, *bad)
        res["violation"] = dict(case=case, message=m)
    json.dump(res, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
