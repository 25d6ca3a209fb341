"""C14: distributions on a scripted random source (including the extremes 0 and 1-2**-53) against their mathematical definition."""
import math, random, itertools
from fractions import Fraction as F
from oracles.common import sim, inf, nan, same, need, checked

EXT = [0.0, 2.0**-53, 0.25, 0.5, 0.75, 1 - 2.0**-53]
UN = {"years": 365 * 86400, "weeks": 7 * 86400, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}
KINDS = ["Uniform", "IntUniform", "Triangular", "Constant", "Cdf", "Pdf", "Pdf_eq", "Pmf", "PdfD", "Pdf2", "CumPdf", "CumPmf", "Bounded", "Exponential", "Erlang", "Gamma", "Weibull", "Normal", "Poisson", "Beta", "Expr", "Dist", "Map", "PdfDis"]


class Scripted(random.Random):
    """random() returns the scripted values first"""

    def __init__(self, vals):
        super().__init__(12345)
        self.vals = list(vals)
        self.last = None

    def random(self):
        self.last = self.vals.pop(0) if getattr(self, "vals", None) else super().random()
        return self.last

    def getrandbits(self, k):
        return int(self.random() * (1 << k)) if k else 0


def gen(rng, size):
    n = rng.randrange(1, 6)
    num = lambda: rng.choice([-2, 0, 0.5, 1, 1, 2, 3, 10])
    pos = lambda: rng.choice([0.5, 1, 2, 3])
    xs = sorted(num() for _ in range(n + 1))
    ps = [rng.choice([0, 0, 1, 2, 5, 0.1, 0.7]) for _ in range(n + 1)]
    if not any(ps):
        ps[rng.randrange(n + 1)] = 1
    return dict(k=rng.choice(KINDS), r=[rng.choice(EXT) if rng.random() < 0.5 else rng.random() for _ in range(12)], xs=xs, ps=ps, a=sorted([num(), num(), num()]), p=[pos(), pos()],
                tu=rng.choice([None, None] + list(UN)), etu=rng.choice(list(UN)), incl=[rng.random() < 0.5, rng.random() < 0.5], retries=rng.choice([None, 1, 3, 0]), fail=rng.choice([None, None, 77]),
                op=rng.choice(["add", "sub", "mul", "div", "radd", "rsub", "neg", "pos"]), np=rng.random() < 0.3)


def exhaustive():
    base = dict(a=[1, 2, 4], p=[2, 3], etu="minutes", incl=[True, False], retries=3, fail=None, np=False)
    for k in KINDS:
        for tu in (None, "hours", "seconds", "minutes"):
            for r in EXT:
                for op in (("add", "sub", "mul", "div", "radd", "rsub", "neg", "pos") if k == "Expr" else ("add",)):
                    for xs, ps in (([1, 2, 4], [1, 0, 3]), ([0, 5], [0, 2]), ([1, 1, 3, 4], [0, 1, 1, 0]), ([2, 3, 7], [1, 1, 1])):
                        yield dict(base, k=k, tu=tu, r=[r] * 6, xs=xs, ps=ps, op=op)


SC = [1.0]


def near(a, b):
    """equality up to rounding, relative to the magnitude and the scale of the time unit"""
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), SC[0])


ENV = {}


@checked
def run(c):
    sim.yieldless(True)
    if c["etu"] not in ENV:
        ENV[c["etu"]] = sim.Environment(trace=False, random_seed=None, time_unit=c["etu"])
    sim.salabim.g.default_env = ENV[c["etu"]]
    k, a, tu = c["k"], c["a"], c["tu"]
    f = 1.0 if tu is None else UN[tu] / UN[c["etu"]]
    SC[0] = f
    rs = Scripted(c["r"])
    ref = lambda: Scripted(c["r"])
    kw = dict(randomstream=rs)
    tkw = dict(kw, time_unit=tu)
    N = 6
    xs, ps = c["xs"], c["ps"]

    def eachsample(d, chk):
        for i in range(N):
            v = d.sample()
            chk(v, rs.last)

    if k == "Uniform":
        lo, hi = a[0], a[2]
        d = sim.Uniform(lo, hi, **tkw)
        eachsample(d, lambda v, r: need(lo * f - 1e-9 * abs(f) * 10 <= v <= hi * f + 1e-9 * abs(f) * 10 and near(v, (lo + (hi - lo) * r) * f), f"Uniform({lo},{hi}) time_unit factor {f}: sample {v} for random {r}"))
        need(near(d.mean(), (lo + hi) / 2 * f), f"Uniform({lo},{hi}) factor {f}: mean {d.mean()}")
        need(near(sim.Uniform(lo).mean(), lo) and near(sim.Uniform(lo, **kw).sample(), lo), "Uniform with one bound is not constant")
    elif k == "IntUniform":
        lo, hi = int(a[0]), int(a[2])
        d = sim.IntUniform(lo, hi, **tkw)
        al = [x * f for x in range(lo, hi + 1)]
        eachsample(d, lambda v, r: need(any(near(v, x) for x in al), f"IntUniform({lo},{hi}) factor {f}: sample {v}"))
        need(near(d.mean(), (lo + hi) / 2 * f), f"IntUniform({lo},{hi}) mean {d.mean()}")
    elif k == "Triangular":
        lo, mo, hi = a
        d = sim.Triangular(lo, hi, mo, **tkw)

        def chk(v, r):
            need(lo * f - 1e-9 * abs(f) * 10 <= v <= hi * f + 1e-9 * abs(f) * 10, f"Triangular({lo},{hi},{mo}) factor {f}: sample {v} outside the support")
            if hi > lo:
                y = v / f
                cdf = (y - lo) ** 2 / ((hi - lo) * (mo - lo)) if y <= mo and mo > lo else 1 - (hi - y) ** 2 / ((hi - lo) * (hi - mo)) if hi > mo else 1
                need(abs(cdf - r) < 1e-6, f"Triangular({lo},{hi},{mo}): sample {v} is not the inverse cdf of {r}")

        eachsample(d, chk)
        need(near(d.mean(), (lo + mo + hi) / 3 * f), f"Triangular({a}) mean {d.mean()}")
        need(near(sim.Triangular(lo, hi).mean(), (lo + hi) / 2), "Triangular without mode: mean is not in the middle")
    elif k == "Constant":
        d = sim.Constant(a[1], **tkw)
        eachsample(d, lambda v, r: need(near(v, a[1] * f), f"Constant({a[1]}) factor {f}: sample {v}"))
        need(near(d.mean(), a[1] * f), f"Constant({a[1]}) factor {f}: mean {d.mean()}")
    elif k == "Cdf":
        cum = [0.0]
        for p in ps[1:]:
            cum.append(cum[-1] + p)
        if cum[-1] == 0:
            cum[-1] = 2.0
        spec = [v for x, y in zip(xs, cum) for v in (x, y)]
        d = sim.Cdf(spec, **tkw)
        tot = cum[-1]

        def chk(v, r):
            i = next(i for i in range(len(cum)) if r < cum[i] / tot)
            l, h = xs[i - 1], xs[i]
            need(min(l * f, h * f) - 1e-9 * f <= v <= max(l * f, h * f) + 1e-9 * f, f"Cdf({spec}) factor {f}: sample {v} for random {r} not between {l} and {h}")
            w = (r - cum[i - 1] / tot) / ((cum[i] - cum[i - 1]) / tot)
            need(abs(v - (l + (h - l) * w) * f) <= 1e-6 * max(f, abs(v)), f"Cdf({spec}) factor {f}: sample {v} for random {r}")

        eachsample(d, chk)
        m = sum((xs[i] + xs[i + 1]) / 2 * (cum[i + 1] - cum[i]) / tot for i in range(len(xs) - 1)) * f
        need(near(d.mean(), m), f"Cdf({spec}) factor {f}: mean {d.mean()} instead of {m}")
    elif k in ("Pdf", "Pmf", "Pdf_eq", "PdfD", "Pdf2", "CumPdf", "CumPmf"):
        if k == "Pdf_eq":
            ps = [1] * len(xs)
        if k == "PdfD":
            mp = {}
            for x, p in zip(xs, ps):
                mp[x] = mp.get(x, 0) + p
            xs, ps = list(mp), list(mp.values())
        cls = {"Pmf": sim.Pmf, "CumPdf": sim.CumPdf, "CumPmf": sim.CumPmf}.get(k, sim.Pdf)
        cum = list(itertools.accumulate(ps))
        tot = cum[-1]
        if k in ("CumPdf", "CumPmf"):
            d = cls([v for x, y in zip(xs, cum) for v in (x, y)], **tkw) if len(xs) % 2 else cls(xs, cum, **tkw)
        elif k == "PdfD":
            d = cls(dict(zip(xs, ps)), **tkw)
        elif k in ("Pdf2",):
            d = cls(xs, ps, **tkw)
        elif k == "Pdf_eq":
            d = cls(xs, 1, **tkw)
        else:
            d = cls([v for x, y in zip(xs, ps) for v in (x, y)], **tkw)
        eq = k not in ("CumPdf", "CumPmf") and all(p == ps[0] for p in ps)

        def chk(v, r):
            need(v is not None, f"{k}({xs},{ps}): sample returned None for random {r}")
            need(any(near(v, x * f) for x, p in zip(xs, ps) if p > 0), f"{k}({xs},{ps}) factor {f}: sample {v} for random {r} has no positive probability")
            if not eq:
                i = next(i for i in range(len(cum)) if r < cum[i] / tot)
                if min(abs(r - y / tot) for y in cum) > 1e-12 or r == 0:
                    need(near(v, xs[i] * f), f"{k}({xs},{ps}) factor {f}: sample {v} for random {r} instead of {xs[i]*f}")

        eachsample(d, chk)
        m = float(sum(F(x) * F(p) for x, p in zip(xs, ps)) / sum(F(p) for p in ps)) * f
        need(near(d.mean(), m), f"{k}({xs},{ps}) factor {f}: mean {d.mean()} instead of {m}")
        if eq and k != "PdfD":
            for n in range(0, len(xs) + 2):
                r = d.sample(n)
                rest = [x * f for x in xs]
                need(len(r) == min(n, len(xs)), f"{k} sample(n={n}) returns {len(r)} values")
                for v in r:
                    h = [x for x in rest if near(x, v)]
                    need(h, f"{k} sample(n={n}) returns {r}")
                    rest.remove(h[0])
    elif k == "PdfDis":
        comps = [sim.Uniform(1, 3, **kw), sim.Constant(7, **tkw), 4, sim.Uniform(0, 1, **kw) + 2, sim.Erlang(2, scale=3, **tkw)]
        means = [2, 7 * f, 4, 2.5, 6 * f]
        sup = [(1, 3), (7 * f, 7 * f), (4, 4), (2, 3), (0, inf)]
        n = min(len(xs), 5)
        p5 = (list(ps) + [1] * 5)[:5]
        if not any(p5):
            p5[0] = 1
        for cls, cu in ((sim.Pdf, 0), (sim.CumPdf, 1), (sim.Pmf, 0), (sim.CumPmf, 1)):
            d = cls(comps, list(itertools.accumulate(p5)) if cu else p5, **kw)
            for _ in range(4):
                v = d.sample()
                need(v is not None and any(lo - 1e-9 <= v <= hi + 1e-9 for (lo, hi), p in zip(sup, p5) if p > 0), f"{cls.__name__} of distributions with {p5}: sample {v}")
            m = sum(x * p for x, p in zip(means, p5)) / sum(p5)
            need(near(d.mean(), m), f"{cls.__name__} of distributions with probabilities {p5}, factor {f}: mean {d.mean()} instead of {m}")
    elif k == "Bounded":
        lo, hi = sorted(c["p"])
        inner = sim.Uniform(-5, 9, **kw)
        lb, ub = [(lo, hi), (None, hi), (lo, None), (None, None)][len(xs) % 4]
        args = dict(lowerbound=lb, upperbound=ub, fail_value=c["fail"], number_of_retries=c["retries"], include_lowerbound=c["incl"][0], include_upperbound=c["incl"][1])
        d = sim.Bounded(inner, time_unit=tu, **args)
        L = -inf if lb is None else lb * f
        U = inf if ub is None else ub * f
        fv = c["fail"] if c["fail"] is not None else (U if L == -inf else L)
        sh = Scripted(c["r"])
        nr = 100 if c["retries"] is None else c["retries"]

        def within(x):
            return (x > L or (c["incl"][0] and x == L)) and (x < U or (c["incl"][1] and x == U))

        for _ in range(3):
            v = d.sample()
            if lb is None and ub is None:
                e = -5 + 14 * sh.random()
            else:
                e = fv
                for _ in range(nr):
                    y = -5 + 14 * sh.random()
                    if within(y):
                        e = y
                        break
            need(near(v, e), f"Bounded(Uniform(-5,9),{args}) factor {f}: sample {v} instead of {e}")
            need(within(v) or near(v, fv) or (lb is None and ub is None), f"Bounded sample {v} outside the bounds")
        rs2 = Scripted(c["r"])
        b = sim.Uniform(-5, 9, randomstream=rs2).bounded_sample(**args)
        L, U = (-inf if lb is None else lb), (inf if ub is None else ub)
        fv = c["fail"] if c["fail"] is not None else (U if L == -inf else L)
        need(within(b) or near(b, fv) or (lb is None and ub is None), f"bounded_sample({args}) returns {b}")
        need(math.isnan(d.mean()) or (lb is None and ub is None and near(d.mean(), 2)), f"Bounded mean {d.mean()}")
    elif k in ("Exponential", "Erlang", "Gamma", "Weibull", "Normal"):
        p, q = c["p"]
        rr = Scripted([x for x in c["r"] if 0 < x < 1])
        rs.vals = list(rr.vals)
        mk = {
            "Exponential": [(lambda: sim.Exponential(p, **tkw), lambda: rr.expovariate(1 / p), p), (lambda: sim.Exponential(rate=p, **tkw), lambda: rr.expovariate(p), 1 / p)],
            "Erlang": [(lambda: sim.Erlang(2, rate=q, **tkw), lambda: rr.gammavariate(2, 1 / q), 2 / q), (lambda: sim.Erlang(2, scale=q, **tkw), lambda: rr.gammavariate(2, q), 2 * q)],
            "Gamma": [(lambda: sim.Gamma(p, q, **tkw), lambda: rr.gammavariate(p, q), p * q), (lambda: sim.Gamma(p, rate=q, **tkw), lambda: rr.gammavariate(p, 1 / q), p / q)],
            "Weibull": [(lambda: sim.Weibull(p, q, **tkw), lambda: rr.weibullvariate(p, q), p * math.gamma(1 + 1 / q))],
            "Normal": [(lambda: sim.Normal(p, q, **tkw), lambda: rr.normalvariate(p, q), p), (lambda: sim.Normal(p, coefficient_of_variation=q, **tkw), lambda: rr.normalvariate(p, p * q), p),
                       (lambda: sim.Normal(p, q, use_gauss=True, **tkw), lambda: rr.gauss(p, q), p), (lambda: sim.Normal(p, **tkw), lambda: p, p)],
        }[k]
        for make, smp, m in mk:
            rr.vals = [x for x in c["r"] if 0 < x < 1]
            rs.vals = list(rr.vals)
            rs.gauss_next = rr.gauss_next = None
            d = make()
            v = d.sample()
            e = smp() * f
            need(near(v, e), f"{k}({p},{q}) factor {f}: sample {v} instead of {e}")
            need(k == "Normal" or v >= 0, f"{k} sample {v} negative")
            need(near(d.mean(), m * f), f"{k}({p},{q}) factor {f}: mean {d.mean()} instead of {m*f}")
    elif k == "Poisson":
        d = sim.Poisson(c["p"][0], **kw)

        def chk(v, r):
            need(v == int(v) and v >= 0, f"Poisson sample {v}")
            lam = c["p"][0]
            cdf = lambda n: sum(math.exp(-lam) * lam**i / math.factorial(i) for i in range(n + 1))
            if 1e-6 < r < 1 - 1e-6:
                need(cdf(v) >= r - 1e-9 and (v == 0 or cdf(v - 1) <= r + 1e-9), f"Poisson({lam}): sample {v} is not the inverse cdf of {r}")

        eachsample(d, chk)
        need(near(d.mean(), c["p"][0]), "Poisson mean")
    elif k == "Beta":
        d = sim.Beta(*c["p"], randomstream=random.Random(3))
        for _ in range(5):
            v = d.sample()
            need(0 <= v <= 1, f"Beta sample {v}")
        need(near(d.mean(), c["p"][0] / sum(c["p"])), f"Beta mean {d.mean()}")
    elif k == "Expr":
        lo, hi, x = a[0], a[2], c["p"][0]
        u = sim.Uniform(lo, hi, **kw)
        op = c["op"]
        fs = {"add": lambda y, z: y + z, "sub": lambda y, z: y - z, "mul": lambda y, z: y * z, "div": lambda y, z: y / z, "radd": lambda y, z: z + y, "rsub": lambda y, z: z - y, "neg": lambda y, z: -y, "pos": lambda y, z: +y}[op]
        for other, ov in ((x, x), (sim.Constant(x, time_unit=tu), x * f)):
            rs.vals = list(c["r"])
            d = fs(u, other)
            v = d.sample()
            e = fs(lo + (hi - lo) * c["r"][0], ov)
            need(near(v, e), f"expression {op}: sample {v} instead of {e}")
            need(near(d.mean(), fs((lo + hi) / 2, ov)), f"expression {op} of Uniform({lo},{hi}) and {ov}: mean {d.mean()}")
        if op in ("add", "sub", "radd", "rsub"):
            need(near(fs(u, sim.Uniform(0, 4, **kw)).mean(), fs((lo + hi) / 2, 2)), f"expression {op} of two distributions: mean")
    elif k == "Map":
        lo, hi = a[0], a[2]
        d = sim.Map(sim.Uniform(lo, hi, **kw), lambda y: 2 * y + 1)
        eachsample(d, lambda v, r: need(near(v, 2 * (lo + (hi - lo) * r) + 1), f"Map sample {v} for random {r}"))
    else:
        lo, hi, x = a[0], a[2], c["p"][0]
        for spec, m in ((f"Uniform({lo},{hi})", (lo + hi) / 2), (f"{x}", x), (f"({lo},{hi})", (lo + hi) / 2), (f"tri({lo},{hi},{a[1]})", (lo + hi + a[1]) / 3), (f"({lo},{hi},{a[1]})", (lo + hi + a[1]) / 3),
                        (f"Exp({x})", x), (f"Const({x})", x), (f"Erlang(2,scale={x})", 2 * x), (f"Normal({x},1)", x), (f"intuni({int(lo)},{int(hi)})", (int(lo) + int(hi)) / 2)):
            d = sim.Distribution(spec, randomstream=rs, time_unit=tu)
            need(near(d.mean(), m * f), f"Distribution('{spec}') factor {f}: mean {d.mean()} instead of {m*f}")
        rs.vals = list(c["r"])
        v = sim.Distribution(f"Uniform({lo},{hi})", randomstream=rs, time_unit=tu).sample()
        need(near(v, (lo + (hi - lo) * c["r"][0]) * f), f"Distribution('Uniform({lo},{hi})') factor {f}: sample {v} for random {c['r'][0]}")


def shrink(c):
    if len(c["xs"]) > 2:
        for i in range(len(c["xs"])):
            d = dict(c, xs=c["xs"][:i] + c["xs"][i + 1:], ps=c["ps"][:i] + c["ps"][i + 1:])
            if any(d["ps"]):
                yield d
    if c["tu"]:
        yield dict(c, tu=None)
