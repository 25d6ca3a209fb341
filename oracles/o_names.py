"""C19: names of all kinds of named objects against an independent numbering."""
import itertools
from oracles.common import sim, need, checked, new_env

KINDS = ["Component", "Sub", "Queue", "Store", "Resource", "State", "Monitor", "Data", "Gen", "Environment"]
NAMES = [None, "a.", "a,", "a", "b.", ".", ",", "", "a.b.", "x y,", "..", "A.", ".."]


def gen(rng, size):
    return dict(ops=[[rng.choice(KINDS), rng.choice(NAMES), rng.random() < 0.15] for _ in range(rng.randrange(1, 8 + size))], env2=rng.random() < 0.2)


def exhaustive():
    for k in KINDS:
        for n in NAMES:
            yield dict(ops=[[k, n, False]] * 3, env2=False)
    for k, n, m in itertools.product(["Component", "Queue", "Resource"], NAMES[:6], NAMES[:6]):
        yield dict(ops=[[k, n, False], [k, m, False], [k, n, False], [k, n, True], [k, m, False]], env2=True)


class Sub(sim.Component):
    def setup(self):
        pass


class Data(sim.Component):
    pass


@checked
def run(c):
    env = new_env()
    env2 = new_env() if c["env2"] else env
    cnt = {}
    for k, n, second in c["ops"]:
        e = env2 if second else env
        kw = dict(env=e)
        if k in ("Component", "Sub", "Data"):
            cls = {"Component": sim.Component, "Sub": Sub, "Data": Data}[k]
            group = "component"
            default = cls.__name__.lower()
            f = lambda **kw: cls(**kw)
        elif k == "Gen":
            group, default, cls = "component", None, None
            f = lambda name, env: sim.ComponentGenerator(Sub, generator_name=name, iat=1, env=env)
            default = "Sub.generator"
        elif k == "Environment":
            group = "environment"
            continue
        else:
            cls = getattr(sim, k)
            group = "queue" if k in ("Queue", "Store") else k.lower()
            default = k.lower()
            f = lambda **kw: cls(**kw)
        o = f(name=n, env=e)
        if k == "Gen" and n in (".", ",", ""):
            default = "componentgenerator"
        if n is None or n == "":
            base = default + "."
        elif n in (".", ","):
            base = default + n
        else:
            base = n
        if base.endswith((".", ",")):
            key = (id(e), group, base)
            cnt[key] = cnt[key] + 1 if key in cnt else (1 if base.endswith(",") else 0)
            name, seq = f"{base[:-1]}.{cnt[key]}", cnt[key]
        else:
            name, seq = base, 1
        what = f"{k}(name={n!r})"
        need(o.name() == name, f"{what}: name is {o.name()!r} instead of {name!r}")
        need(o.base_name() == base, f"{what}: base name is {o.base_name()!r} instead of {base!r}")
        need(o.sequence_number() == seq, f"{what}: sequence number is {o.sequence_number()} instead of {seq}")
        if k == "Resource":  # its queues and monitors are named after it
            need(o.requesters().name() == f"requesters of {name}", f"{what}: requesters queue is called {o.requesters().name()!r}")
            need(o.claimers().name() == f"claimers of {name}", f"{what}: claimers queue is called {o.claimers().name()!r}")
        if k == "State":
            need(o.waiters().name() == f"waiters of {name}", f"{what}: waiters queue is called {o.waiters().name()!r}")
        if k in ("Queue", "Store"):
            need(o.length.name() == f"Length of {name}", f"{what}: length monitor is called {o.length.name()!r}")
