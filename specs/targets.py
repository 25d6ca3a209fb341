"""property -> verified functions, bounded oracles, assumptions"""
import importlib

SESSIONS = ["queue", "mathx", "dist", "move", "traj", "names", "proc", "res", "mon", "state", "store", "gen"]

GENERAL = [
    "Python semantics as modelled by pyvc: integers and floats are mathematical integers/reals (no rounding, no overflow); strings and trace output are not modelled",
    "no user subclass overrides the verified methods; user-supplied callables are pure",
    "one environment; no concurrent threads; functions are verified one call at a time (greenlet switches end a verified path)",
]

PROPS = {
    "C01": dict(oracles=["o_proc"]),
    "C02": dict(oracles=["o_proc"]),
    "C03": dict(oracles=["o_queue"]),
    "C04": dict(oracles=["o_queue"]),
    "C05": dict(oracles=["o_queue"]),
    "C06": dict(oracles=["o_resource"]),
    "C07": dict(oracles=["o_resource"]),
    "C08": dict(oracles=["o_resource", "o_state", "o_store"]),
    "C09": dict(oracles=["o_state"]),
    "C10": dict(oracles=["o_store"]),
    "C11": dict(oracles=["o_monitor"]),
    "C12": dict(oracles=["o_monitor"]),
    "C13": dict(oracles=["o_monitor"]),
    "C14": dict(oracles=["o_dist"]),
    "C15": dict(oracles=["o_time", "o_proc"]),
    "C16": dict(oracles=["o_math"]),
    "C17": dict(oracles=["o_proc"]),
    "C18": dict(oracles=["o_gen"]),
    "C19": dict(oracles=["o_names"]),
    "C20": dict(oracles=["o_move"]),
    "C21": dict(oracles=["o_proc"]),
}
for p in PROPS.values():
    p.setdefault("targets_expected", True)

_cache = {}


def targets_of(prop):
    from pyvc import driver

    out = []
    for s in SESSIONS:
        if s not in _cache:
            _cache[s] = driver.load(s)
        for q, c in _cache[s].contracts.items():
            if prop in c.props and c.verify and not c.trusted:
                out.append((s, q))
    # slow targets first
    slow = ["_tryrequest", "Component._trywait", "State.trigger", "State._trywait", "_check_fail", "union", "symmetric", "intersection", "difference", "copy"]
    out.sort(key=lambda t: min([i for i, w in enumerate(slow) if w in t[1]] + [99]))
    return out


def assumptions_of(prop, results):
    out = list(GENERAL)
    sess = sorted({r["target"].split(":")[0] for r in results})
    for s in sess:
        ses = _cache.get(s)
        if ses is None:
            continue
        for q, c in ses.contracts.items():
            if c.trusted and prop in c.props:
                out.append(f"assumed contract {s}:{q}: {c.trusted}")
        out += [f"{s}: {a}" for a in ses.assumptions]
    return out

DEFAULT_NOTE = (
    "Every obligation generated from the current source of the functions under contract is discharged for all inputs (unbounded loops and histories by invariants); "
    "assumes mathematical integers/reals for int/float, pure user callables, no subclass overriding verified methods, one environment, and the contracts listed as assumed in the evidence. "
    "Parts of the property outside the functions under contract are covered by the bounded concrete oracle only (labelled bounded in the evidence)."
)
NOT_APPLICABLE = {
    "C22": "a relational (2-safety) property of two complete runs, including user code and the interpreter's hash order; contracts here are per call, so no contract within reach expresses it",
    "C23": "relates two different user programs (a generator and a greenlet version); a product-program proof over user code and greenlet switching is out of reach of the verifier",
    "C24": "needs tkinter/PIL drawing and a real-time loop; there is no specification of what is drawn within reach of contracts",
}
