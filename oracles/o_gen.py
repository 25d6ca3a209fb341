"""C18: component generators against the specified creation moments (also after a clock shift, with several generators, in both modes)."""
import itertools
from oracles.common import sim, inf, need, checked, new_env

KINDS = ["iat", "iat", "iatf", "moments", "equi", "spread", "dist", "number0", "iatdis"]


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def spec(rng):
    return dict(k=rng.choice(KINDS), at=rng.choice([None, None, 0, 1, 2.5]), delay=rng.choice([None, None, 0, 1.5]), dur=rng.choice([None, 0, 2, 3.5, 6]), usetill=rng.random() < 0.5,
                number=rng.choice([None, 1, 2, 3, 5]), ncall=rng.random() < 0.2, iat=[rng.choice([0.5, 1, 1, 2, 0.25]) for _ in range(rng.randrange(1, 4))], fa=rng.random() < 0.4, ft=rng.random() < 0.3,
                moments=[rng.choice([0, 0.5, 1, 2, 3, 3, 7]) for _ in range(rng.randrange(1, 5))], dist=[rng.choice([0.0, 0.25, 1, -0.25, -1]) for _ in range(2)])


def gen(rng, size):
    return dict(yl=rng.random() < 0.6, pre=rng.choice([0, 0, 1, 2.25]), reset=rng.choice([None, None, 0, 100, -5]), mid=rng.choice([None, None, 50, 0]), entries=[spec(rng) for _ in range(rng.randrange(1, 3))], trace=rng.random() < 0.05)


def exhaustive():
    for yl in (True, False):
        for k in ("iat", "iatf", "equi", "spread", "moments", "iatdis"):
            for at in (None, 1):
                for dur in (None, 0, 2, 2.5):
                    for number in (None, 1, 2, 3):
                        for reset in (None, 100):
                            yield dict(yl=yl, pre=1 if reset else 0, reset=reset, mid=None, trace=False,
                                       entries=[dict(k=k, at=at, delay=None, dur=dur, usetill=bool(number), number=number, ncall=False, iat=[1], fa=bool(at), ft=dur == 2, moments=[2, 1, 1], dist=[0.25, 0])])
                    if dur and k == "iatdis":
                        for d in ([-1, 0], [-0.5, 1], [-1]):
                            yield dict(yl=yl, pre=0, reset=None, mid=None, trace=False,
                                       entries=[dict(k=k, at=at, delay=None, dur=dur, usetill=True, number=None, ncall=False, iat=[1], fa=False, ft=False, moments=[1], dist=d)])


class Seq:
    """a callable that returns the given values in turn"""

    def __init__(self, v):
        self.v, self.i = v, 0

    def __call__(self):
        self.i += 1
        return self.v[(self.i - 1) % len(self.v)]


@checked
def run(c):
    import io, contextlib

    env = new_env(c["yl"])
    made = {}
    ended = {}
    off = [0.0]

    env.run(duration=c["pre"])
    if c["reset"] is not None:
        off[0] += env.now() - c["reset"]
        env.reset_now(c["reset"])
    base = env.now() + off[0]
    plans = []
    for gi, s in enumerate(c["entries"]):
        made[gi] = []
        ended[gi] = []

        def mk(gi):
            class X(sim.Component):
                def setup(self, tag=None):
                    made[gi].append((env.now() + off[0], tag))

                def process(self):
                    made[gi].append((env.now() + off[0], "run"))

            return X

        at = None if s["at"] is None else env.now() + s["at"]
        delay = s["delay"] if s["at"] is None else None
        t0 = base + (s["at"] or 0) + (delay or 0)
        k = s["k"]
        kw = dict(at=at, delay=delay)
        number = s["number"]
        N = inf if number is None else number
        T = inf
        if s["dur"] is not None:
            T = t0 + s["dur"]
            if s["usetill"]:
                kw["till"] = T - off[0]
            else:
                kw["duration"] = s["dur"]
        if number is not None:
            kw["number"] = (lambda n=number: n) if s["ncall"] else number
        X = mk(gi)
        comp = X
        exp, end, mode = None, None, "exact"
        if k in ("iat", "iatf", "dist"):
            if len(s["iat"]) == 1:
                kw["iat"] = s["iat"][0]
            else:
                kw["iat"] = Seq(s["iat"])
            q = Seq(s["iat"])
            t = t0
            if not s["fa"]:
                t += q()
            kw["force_at"] = s["fa"]
            exp = []
            while True:
                if t > T:
                    end = T
                    break
                exp.append(t)
                if len(exp) >= N:
                    end = t
                    break
                if t > base + 40:
                    break
                t += q()
            if k == "dist":
                comp = sim.Pdf((X, 1))
        elif k == "iatdis":
            kw["iat"] = s["iat"][0]
            dl = [max(x, -s["iat"][0]) for x in s["dist"]]  # never before now
            kw["disturbance"] = Seq(dl)
            d = Seq(dl)
            t = t0
            exp, n = [], 0
            mode = "scheduled"
            while True:
                a = t + d() + s["iat"][0]
                if a > T:
                    end = max(T, t)
                    break
                exp.append(a)
                n += 1
                if n >= N:
                    end = t
                    break
                if t > base + 40:
                    break
                t += s["iat"][0]
        elif k == "moments":
            kw = dict(moments=[env.now() + m for m in s["moments"]])
            exp = sorted(base + m for m in s["moments"])
            end = exp[-1]
        elif k == "equi":
            if T == inf or N == inf or N == 1:
                continue
            kw["equidistant"] = True
            exp = [t0 + (T - t0) * i / (N - 1) for i in range(N)]
            end = exp[-1]
        elif k == "spread":
            if T == inf or N == inf or (s["fa"] and s["ft"] and N == 1):
                continue
            kw["force_at"], kw["force_till"] = s["fa"], s["ft"]
            mode = "spread"
            exp = N
        elif k == "number0":
            kw["number"] = 0
            kw["iat"] = 1
            exp, end = [], None
        f = lambda gi=gi: ended[gi].append(env.now() + off[0])
        g = sim.ComponentGenerator(comp, at_end=f, tag=gi, **kw)
        plans.append((gi, s, k, exp, end, mode, t0, T))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        env.trace(c["trace"])
        env.run(duration=1.75)
        if c["mid"] is not None:
            off[0] += env.now() - c["mid"]
            env.reset_now(c["mid"])
        env.run(duration=40 - 1.75)
    lim = base + 40 - 1e-6
    for gi, s, k, exp, end, mode, t0, T in plans:
        what = f"generator {gi} ({k}, {s}) at {base}"
        setup = [t for t, tag in made[gi] if tag == gi]
        ran = [t for t, tag in made[gi] if tag == "run"]
        need(all(tag in (gi, "run") for t, tag in made[gi]), f"{what}: keyword arguments not passed")
        if mode == "spread":
            need(len(setup) == exp, f"{what}: {len(setup)} components instead of {exp}")
            need(all(t0 - 1e-9 <= t <= T + 1e-9 for t in setup), f"{what}: creation moments {setup} not within {t0}..{T}")
            need(not s["fa"] or near(min(setup), t0), f"{what}: first not forced at {t0}: {setup}")
            need(not s["ft"] or near(max(setup), T), f"{what}: last not forced at {T}: {setup}")
            end = max(setup)
        elif mode == "scheduled":
            e = sorted(t for t in exp if t < lim)
            a = sorted(t for t in ran if t < lim)
            if any(abs(x - lim) < 3 for x in exp):
                cut = base + 36
                e, a = [t for t in e if t < cut], [t for t in a if t < cut]
            need(len(e) == len(a) and all(near(x, y) for x, y in zip(e, a)), f"{what}: components start at {a} instead of {e}")
        else:
            e = [t for t in exp if t < lim]
            a = [t for t in setup if t < lim]
            need(len(e) == len(a) and all(near(x, y) for x, y in zip(e, a)), f"{what}: components created at {a} instead of {e}")
        if end is not None and end < lim:
            need(len(ended[gi]) == 1 and near(ended[gi][0], end), f"{what}: at_end called at {ended[gi]} instead of once at {end}")
        else:
            need(not [t for t in ended[gi] if t < lim], f"{what}: at_end called at {ended[gi]}")
