#!/opt/veriftools/pyvenv/bin/python
"""check.py <property>: re-generates and discharges every proof obligation of the property from /repo's current source,
and runs the bounded concrete oracle of the property on the real code.  Exit 0 held / 1 VIOLATION / 2 error of the check."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib

if os.environ.get("PYTHONHASHSEED") != "0":  # same solver queries on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("PYVC_REPO", "/repo")
VENV = "/opt/venv/bin/python"
from specs import targets as T


def run_oracles(names, seed, budget, shards, tmp):
    procs = []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=REPO + ":" + HERE)
    for nm in names:
        for sh in range(shards):
            out = os.path.join(tmp, f"{nm}.{sh}.{seed}.json")
            e = dict(env, ORACLE_SHARD=f"{sh}/{shards}")
            err = open(os.path.join(tmp, f"{nm}.{sh}.err"), "w")
            procs.append((nm, sh, out, subprocess.Popen([VENV, "-m", "oracles.harness", "search", nm, str(seed), str(budget), out], cwd=HERE, env=e, stdout=subprocess.DEVNULL, stderr=err), err.name))
    return procs


def collect(procs, budget):
    res, viol, errors = [], [], []
    t0 = time.time()
    for nm, sh, out, p, err in procs:
        try:
            p.wait(timeout=max(5, budget + 90 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            errors.append(f"oracle {nm} shard {sh} did not end")
            continue
        if not os.path.exists(out):
            errors.append(f"oracle {nm} shard {sh} ended with {p.returncode}: " + open(err).read()[-800:])
            continue
        d = json.load(open(out))
        res.append(d)
        if d["violation"]:
            viol.append((nm, d["violation"]))
    return res, viol, errors


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = T.PROPS[prop]
    targets = T.targets_of(prop)
    tmp = tempfile.mkdtemp(prefix="vp_")
    rc = 0
    try:
        budget = P.get("budget", 25) if tier == "quick" else P.get("budget", 25) * 12
        shards = P.get("shards", 2) if tier == "quick" else 6
        procs = run_oracles(P["oracles"], seed, budget, shards, tmp)
        from pyvc import driver

        results = driver.verify_all(targets, jobs=7 if tier == "quick" else 6, budget=200 if tier == "quick" else 400, retry=0)
        ores, oviol, oerr = collect(procs, budget)
        if not oviol:
            results = driver.retry_timed(targets, results)
        known = [l.strip() for l in open("known_findings.txt") if l.strip() and not l.startswith("#")] if os.path.exists("known_findings.txt") else []
        failed = [r for r in results if r["status"] == "failed"]
        undecided = [r for r in results if r["status"] in ("undecided", "vacuous")]
        extra = []
        if failed and not oviol:
            # a failed obligation: search harder for a failing input on the real code
            b2 = 60 if tier == "quick" else 300
            pr = run_oracles(P["oracles"], seed + 1000, b2, max(1, 8 // max(1, len(P["oracles"]))), tmp)
            ores2, oviol, e2 = collect(pr, b2)
            extra = ores2
            ores += ores2
        nobs = sum(len(r["obligations"]) for r in results)
        ndis = sum(1 for r in results for o in r["obligations"] if o["verdict"] == "proved")
        back = {}
        for r in results:
            for o in r["obligations"]:
                if o["verdict"] == "proved":
                    back[o["backend"]] = back.get(o["backend"], 0) + 1
        lines = []
        os.makedirs("replays", exist_ok=True)
        if oviol:
            nm, v = oviol[0]
            rp = os.path.join(HERE, "replays", f"{prop}.json")
            json.dump(dict(property=prop, oracle=nm, case=v["case"], message=v["message"],
                           failed_obligations=[dict(target=r["target"], obligations=[o for o in r["obligations"] if o["verdict"] != "proved"]) for r in failed],
                           replay_cmd=f"cd /verif && PYTHONPATH=/repo:/verif {VENV} -m oracles.harness replay replays/{prop}.json"), open(rp, "w"), indent=1, default=str)
            lines.append(f"VIOLATION property={prop} replay={rp}")
            print("failing input:", v["message"][:500])
            rc = 1
        elif failed:
            rp = os.path.join(HERE, "replays", f"{prop}.json")
            json.dump(dict(property=prop, oracle=None, note="no failing input found; the obligations below were discharged on the verified tree and are not discharged on this one",
                           failed_obligations=[dict(target=r["target"], obligations=[o for o in r["obligations"] if o["verdict"] != "proved"]) for r in failed]), open(rp, "w"), indent=1, default=str)
            for r in failed:
                for o in r["obligations"]:
                    if o["verdict"] != "proved":
                        print("failed obligation:", r["target"], o["name"], o["verdict"])
            lines.append(f"VIOLATION property={prop} replay={rp} no-failing-input-found")
            rc = 1
        if oerr and rc == 0:
            print("oracle error:", oerr)
            rc = 2
        if not results and P["targets_expected"]:
            rc = 2
        proved = [r for r in results if r["status"] == "proved"]
        if targets and nobs == 0 and not undecided:
            print("no obligation generated")
            rc = 2
        ev = dict(property=prop, tier=tier, seed=seed, level="proof" if targets else "other", wall_s=round(time.time() - t0, 2), violations=1 if rc == 1 else 0,
                  assumptions=T.assumptions_of(prop, results),
                  coverage=dict(
                      obligations=nobs, discharged=ndis,
                      checker_cmd=f"cd /verif && python3-vt check.py {prop}   (single function: python3-vt -m pyvc.driver SESSION FUNCTION)",
                      trusted_base=["pyvc (the verification condition generator in /verif/pyvc; every exit is checked to be reachable, so that no contract holds vacuously)", "z3 5.3.2", "cvc5 1.1.2", "CPython ast module"] + P.get("trusted", []),
                      backends=back,
                      solver_s=round(sum(r["solver_s"] for r in results), 1),
                      functions_under_contract=[dict(function=r["target"], status=r["status"], obligations=len(r["obligations"]), discharged=sum(o["verdict"] == "proved" for o in r["obligations"]),
                                                     seconds=round(r["wall_s"], 2), reason=r["reason"], reach=r["reach"], source_sha=r["sha"], inlined=r["inlined"], calls_by_contract=r["used"], dropped=r["dropped"]) for r in results],
                      undecided_functions=[f"{r['target']}: {r['reason']}" for r in undecided],
                      bounded_stand_in=dict(label="bounded, not counted as proved", bound=P.get("bound", "random histories within the time budget, plus the exhaustive small scope of the oracle if it has one"),
                                            runs=[{k: v for k, v in d.items() if k != "violation"} for d in ores],
                                            evaluations=sum(d["evaluations"] for d in ores), distinct_nontrivial=sum(d["distinct"] for d in ores)),
                  ))
        if not targets:
            ev["coverage"]["explanation"] = P.get("explanation", "")
        os.makedirs("evidence", exist_ok=True)
        json.dump(ev, open(f"evidence/{prop}.json", "w"), indent=1, default=str)
        for k in known:
            if k.startswith(f"KNOWN-FINDING: property={prop} "):
                print(k)
        for l in lines:
            print(l)
        print(f"{prop}: {len(proved)}/{len(results)} functions proved, {ndis}/{nobs} obligations, {len(undecided)} undecided, "
              f"{sum(d['evaluations'] for d in ores)} bounded cases, {time.time()-t0:.1f}s")
        for r in undecided:
            print("  undecided:", r["target"], r["reason"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
