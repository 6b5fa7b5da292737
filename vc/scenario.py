"""Contracts over datasets: structured points (ordered times with ties, exposures)."""
import random
import numpy as np
from fractions import Fraction
from . import field as fd
from .field import El, EL0, EL1
from .contract import Contract

mp = fd.mp


class Sym:
    """affine rational combination of the time symbols of a point: array of {sym: Fraction}"""

    def __init__(self, combos):
        self.combos = combos


class Free:
    def __init__(self, values, kind="real"):
        self.values, self.kind = np.asarray(values, dtype=float), kind


class Int:
    def __init__(self, values):
        self.values = np.asarray(values, dtype=np.int64)


class Point:
    """args: list of Free / Int / Sym; syms: float values of the time symbols;
    lams: indices of the arguments that multiply times inside exponentials"""

    def __init__(self, args, syms, lams, names, meta=None, key=None):
        self.args, self.syms, self.lams, self.names = args, [float(s) for s in syms], lams, names
        self.meta, self.key = meta or {}, key
        self.salts = {}


def kindval(rng, kind, lo, hi):
    import math
    v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    if kind == "neg" or kind == "real" and rng.random() < .5:
        v = -v
    return v


def free(rng, shape, kind="real", lo=.3, hi=3):
    n = int(np.prod(shape)) if shape else 1
    return Free(np.array([kindval(rng, kind, lo, hi) for _ in range(n)]).reshape(shape), kind)


def regime(pt, rng):
    """the same layout in another regime: units of time and of the data, noise level, spacing.
    Powers of two, so that coincidences stay exact in float64."""
    two = lambda a, b: 2.0 ** rng.randrange(a, b + 1)
    tau = two(-28, 28)
    g = two(-28, 28)
    ratio = two(-30, 10)
    ys = two(-12, 12)
    s = pt.syms
    gap = [s[i + 1] - s[i] for i in range(len(s) - 1)]
    off = s[0] if rng.random() < .5 else rng.choice([-1, 1]) * two(0, 12)
    new = [off]
    for d in gap:
        new.append(new[-1] + d * rng.choice([1, 1, 1, two(-20, -8), 16]))
    pt.syms = [x * tau for x in new]
    for n, a in zip(pt.names, pt.args):
        if not isinstance(a, Free):
            continue
        b = n.rstrip("0123456789")
        f = {"lam": 1 / tau, "C": g * g / tau, "y": g * ys, "noise": g * g * ratio,
             "H1": 1 / tau}.get(b)
        if f:
            a.values = a.values * f
    pt.wide = dict(tau=tau, amplitude=g, noise=ratio)
    return pt


class Scenario(Contract):
    def __init__(self, name, fn, call, draw, post, wide=False, **kw):
        super().__init__(name, fn, call, [], post, **kw)
        self.drawf = draw
        self.wide = wide

    def point_at(self, rng, k):
        pt = self.drawf(rng)
        return regime(pt, rng) if self.wide else pt

    def point(self, rng):
        return self.drawf(rng)

    def examples(self):
        return self.vals(self.drawf(random.Random(5)))

    def _symvals(self, pt, a):
        r = np.empty(a.combos.shape)
        for ix in np.ndindex(r.shape):
            r[ix] = float(sum(Fraction(pt.syms[k]) * c for k, c in a.combos[ix].items()))
        return r

    def vals(self, pt):
        return [self._symvals(pt, a) if isinstance(a, Sym) else a.values for a in pt.args]

    def keyof(self, pt):
        return pt.key if pt.key is not None else self.key

    def named(self, vals):
        names = getattr(self, "_names", None) or [f"arg{k}" for k in range(len(vals))]
        return {n: np.asarray(v).tolist() for n, v in zip(names, vals)}

    def els(self, pt, witness=False):
        self._names = pt.names
        c = fd.CTX
        sy = [El(c.rand(), mp.mpf(s)) for s in pt.syms]
        pt.symels = sy
        out = []
        for nm, a in zip(pt.names, pt.args):
            if isinstance(a, Int):
                out.append(a.values)
                continue
            if isinstance(a, Sym):
                r = np.empty(a.combos.shape, dtype=object)
                for ix in np.ndindex(r.shape):
                    v = EL0
                    for k, q in a.combos[ix].items():
                        v = v + sy[k] * fd.frac(q)
                    r[ix] = v
            else:
                r = np.empty(a.values.shape, dtype=object)
                for ix in np.ndindex(r.shape):
                    if a.kind == "const":
                        r[ix] = fd.lift(float(a.values[ix]))
                        continue
                    f = c.randpos() if a.kind == "pos" else c.rand()
                    if nm == "noise" and pt.salts.get(ix[-1]):
                        f = random.Random(f"{c.seed}|{ix[-1]}|{pt.salts[ix[-1]]}").randrange(1, c.p)
                    r[ix] = El(f, mp.mpf(float(a.values[ix])) if witness or fd.MONLY or pt.meta.get("witness") else None)
            out.append(r)
        # exp(lam (s_i - s_j)) for every rate and pair of times
        rates = [l.f for k in pt.lams for l in out[k].reshape(-1)]
        if "rates" in pt.meta and not fd.MONLY:
            rates += pt.meta["rates"](out)
        if rates:
            for lam in rates:
                b = [c.randpos() for _ in sy]
                # image of exp(lam e) for every time expression e of the point
                ex = pt.meta.get("exprs") or [{i: 1} for i in range(len(sy))]
                arg, img = [], []
                for e in ex:
                    x, v = 0, 1
                    for k, q in e.items():
                        q = Fraction(q)
                        x += sy[k].f * q.numerator * c.inv(q.denominator)
                        v = v * pow(b[k], q.numerator * pow(q.denominator, -1, c.m) % c.m, c.p) % c.p
                    arg.append(x % c.p)
                    img.append(v)
                for i in range(len(ex)):
                    for j in range(i):
                        if arg[i] != arg[j]:
                            c.register_exp(lam * (arg[i] - arg[j]), img[i] * c.inv(img[j]))
        return out

    def spec(self, pt, args, outs):
        self.pt = pt
        return self.post(pt, args, outs)
