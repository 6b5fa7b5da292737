"""Discharging the contract of one real function.

    Contract(name, fn, call, params, post)

call(*params) calls the real function; it is traced to a jaxpr on every run.
post(args, outs) lists the obligations (label, got, want, tol).  Every control
path reached by a witness is decided by exact evaluation at random points of
the prime fields (field.py).  A mismatch is confirmed on the 60-digit witness
and replayed on the real function in float64.
"""
import time
import math
import random
import numpy as np
import jax
import jax.numpy as jnp
from . import field as fd
from . import interp as ip
from . import linalg as la
from .field import El, Cx, EL0, EL1, Undecided, Resample
from .report import SEED, TIER

mp = fd.mp


class Par:
    """A scalar parameter: sort 'pos' (positive real), 'real', 'dt', or pinned."""

    shape = None

    def __init__(self, name, kind="pos", lo=1e-2, hi=1e2, pins=(), pin_prob=0.25, near=None,
                 shape=None):
        self.shape = shape
        self.name, self.kind, self.lo, self.hi = name, kind, lo, hi
        self.pins, self.pin_prob, self.near = list(pins), pin_prob, near

    def draw(self, rng):
        """-> (float witness, pinned?)"""
        if self.shape is not None:
            n = int(np.prod(self.shape))
            return np.array([self.draw1(rng) for _ in range(n)]).reshape(self.shape), False
        if self.pins and rng.random() < self.pin_prob:
            return rng.choice(self.pins), True
        if self.near is not None and rng.random() < 0.4:
            c, ds = self.near
            return c + rng.choice([-1, 1]) * rng.choice(ds) * rng.uniform(0.9, 1.1), False
        return self.draw1(rng), False

    def draw1(self, rng):
        v = math.exp(rng.uniform(math.log(self.lo), math.log(self.hi)))
        if self.kind == "neg" or self.kind == "real" and rng.random() < 0.5:
            v = -v
        return v

    def example(self, k):
        return np.full(self.shape, 1.0) + 0.01 * np.arange(int(np.prod(self.shape))).reshape(
            self.shape) if self.shape is not None else 1.0 + 0.1 * k

    def el(self, v, pinned):
        c = fd.CTX
        if self.shape is not None:
            r = np.empty(self.shape, dtype=object)
            for ix in np.ndindex(self.shape):
                r[ix] = El(c.randpos() if self.kind == "pos" else c.rand(), mp.mpf(float(v[ix])))
            return r
        if pinned:
            return fd.lift(v)
        return El(c.randpos() if self.kind == "pos" else c.rand(), mp.mpf(v))


def sig(trace):
    return tuple((t[0], t[4]) for t in trace)


def tolerated(d, tol, trace):
    """A masked entry: |x| < T chose 0 where x was exact and T <= allowed tolerance."""
    if tol is None or d.f is None:
        return False
    p = fd.CTX.p
    for op, _, a, b, r in trace:
        if op != "lt" or not r or a is None or a.f is None or b.f is None:
            continue
        if a.f in (d.f, -d.f % p) and tol.f:
            c = fd.CTX.ratrec(b.f * fd.CTX.inv(tol.f))
            if b.m is not None and tol.m is not None and b.m <= tol.m * (1 + mp.mpf("1e-20")):
                if c is not None and c <= 1:
                    return True
    return False


class SpecFail(ValueError):
    """raised by a specification whose structural requirement fails during the call"""


def blame(exc):
    """Did the code under verification raise (or a SpecFail)?  False: the harness itself could
    not make the call (a renamed internal, a changed signature): no verdict."""
    if isinstance(exc, SpecFail):
        return True
    import smolgp
    import os
    src = os.path.dirname(os.path.abspath(smolgp.__file__))
    own = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    who = False
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(src + os.sep):
            who = True
        elif f.startswith(own + os.sep):
            who = False
        tb = tb.tb_next
    return who


def fl(x):
    return None if x is None or x.m is None else float(x.m)


class Contract:
    def __init__(self, name, fn, call, params, post, npaths=24, draws=None, setup=None,
                 valid=None, numeric=True, numscale=1e-8, key=None, numvalid=None,
                 anyroot=False, hooks=None, retries=80, jit=False, need=2):
        self.name, self.fn, self.call, self.params, self.post = name, fn, call, params, post
        self.npaths, self.draws, self.valid = npaths, draws, valid
        self.numeric, self.numscale, self.key = numeric, numscale, key
        self.numvalid = numvalid
        self.anyroot = anyroot
        self.hooks = hooks
        self.retries = retries
        self.jit = jit
        self.need = need

    # -- points: a list of (value, pinned) here; Scenario has its own kind
    def examples(self):
        return [p.example(k) for k, p in enumerate(self.params)]

    def els(self, pts, witness=True):
        return [par.el(v, pin) for par, (v, pin) in zip(self.params, pts)]

    def vals(self, pts):
        return [v if isinstance(v, np.ndarray) else float(v) for v, _ in pts]

    def keyof(self, pts):
        return self.key

    def spec(self, pts, args, outs):
        return self.post(args, outs)

    # -- evaluation at one point
    def at(self, cj, pts, witness=False):
        its = ip.Interp(self.hooks)
        args = self.els(pts, witness)
        outs = its.run(cj, [a if isinstance(a, np.ndarray) else ip.scalar(a) for a in args])
        return args, outs, its.trace

    def point(self, rng):
        for _ in range(200):
            pts = [p.draw(rng) for p in self.params]
            if self.valid is None or self.valid(*[v for v, _ in pts]):
                return pts
        return pts

    def point_at(self, rng, k):
        """the k-th point"""
        return self.point(rng)

    def discharge(self, rep):
        fd.ANYROOT = self.anyroot
        try:
            self._discharge(rep)
        finally:
            fd.ANYROOT = False

    def _discharge(self, rep):
        t0 = time.time()
        rng = random.Random(f"{SEED}|{self.name}")
        draws = self.draws or (14 if TIER == "quick" else 60)
        need = self.need
        wit = False
        labels = {}
        bad = []
        und = None
        try:
            cj = ip.trace(self.call, self.examples())
        except Exception as e:  # the real function cannot be called at all
            rep.ob(self.name, self.fn, "undecided", "trace", time.time() - t0, repr(e)[:300])
            self.crash(rep, rng, e)
            return
        paths = {}
        k = 0
        while k < draws:
            pts = self.point(rng) if k == 0 else self.point_at(rng, k)
            k += 1
            for rnd in range(need):
                done = False
                seed = None
                for _ in range(self.retries):
                    if seed is None:
                        seed = rng.randrange(1 << 60)
                        if hasattr(pts, "salts"):
                            pts.salts.clear()
                    fd.set_ctx(fd.Ctx(fd.PRIMES[(k + rnd) % len(fd.PRIMES)], seed))
                    try:
                        args, outs, tr = self.at(cj, pts, wit)
                        obs = []
                        for o in self.spec(pts, args, outs):
                            lab, got, want, tol = (tuple(o) + (None, None))[:4]
                            obs.append((lab,) + self.compare(got, want, tol, tr))
                        done = True
                        break
                    except Resample as e:
                        why = str(e)
                        # an innovation variance without square root: redraw that noise only
                        if fd.CTX.badix is not None and hasattr(pts, "salts"):
                            i = fd.CTX.badix
                            o = pts.meta.get("order")
                            if o is not None and i < len(o):
                                i = o[i] if rng.random() < .8 else rng.choice(o)
                            pts.salts[i] = pts.salts.get(i, 0) + 1
                        else:
                            seed = None
                        continue
                    except Undecided as e:
                        if not wit and "witness" in str(e):
                            wit = True      # a branch on a value: evaluate the witness too
                            continue
                        und = str(e)
                        break
                    except RecursionError as e:
                        und = repr(e)
                        break
                if not done:
                    und = und or "resampling: " + why
                    break
                s = sig(tr)
                paths[s] = paths.get(s, 0) + 1
                for lab, ok, d in obs:
                    labels.setdefault(lab, [0, 0])
                    labels[lab][0 if ok else 1] += 1
                    if not ok:
                        bad.append((lab, pts, d, fd.CTX.inexact))
                if bad:
                    break
            if und:
                break
            if len(bad) > 3:
                break
        dt = (time.time() - t0) / max(len(labels), 1)
        if und:
            rep.ob(self.name, self.fn, "undecided", "Fp", dt, und)
            bad = []
        confirmed = {}
        for lab, pts, d, inex in bad:
            if lab in confirmed:
                continue
            w = self.confirm(lab, pts, d, inex)
            if w is not None:
                w['key'] = self.keyof(pts)
                confirmed[lab] = w
        for lab, (g, b) in labels.items():
            nm = f"{self.name}: {lab}"
            if b == 0 and not und:
                rep.ob(nm, self.fn, "bounded" if lab.startswith("[bounded]") else "proved",
                       "Fp-identity", dt,
                       dict(points=g, paths=len(paths)))
            elif lab in confirmed:
                rep.ob(nm, self.fn, "refuted", "Fp-identity", dt, confirmed[lab]["summary"])
                rep.violate(nm, confirmed[lab], key=confirmed[lab].pop('key', self.key),
                            nan=confirmed[lab]["nan"])
            elif b:
                rep.ob(nm, self.fn, "undecided", "Fp-identity", dt,
                       "field mismatch not confirmed on the real witness")
        if self.numeric:
            self.sweep(rep, rng, confirmed)

    def compare(self, got, want, tol, tr):
        got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
        if got.shape != want.shape:
            return False, ("shape", got.shape, want.shape)
        for ix in np.ndindex(got.shape):
            g, w = fd.Cx.of(got[ix]), fd.Cx.of(want[ix])
            for gg, ww in ((g.re, w.re), (g.im, w.im)):
                if ww.f is None:
                    if fd.CTX.poison:
                        raise Resample("cholesky")
                    raise Undecided("specification undefined here")
                if gg.f is None:
                    if fd.CTX.poison:
                        raise Resample("cholesky")
                    return False, ("undefined", ix, fl(gg), fl(ww))
                if gg.f != ww.f:
                    t = None
                    if tol is not None:
                        t = np.asarray(tol, dtype=object)
                        t = t[ix] if t.ndim else t[()]
                    if not tolerated(ww - gg, t, tr):
                        return False, ("value", ix, fl(gg), fl(ww))
        return True, None

    # -- confirmation and replay
    def spec_at(self, pts):
        """outputs and specification by the 50-digit witness"""
        cj = ip.trace(self.call, self.examples())
        last = None
        for k in range(80):
            fd.set_ctx(fd.Ctx(fd.PRIMES[k % 3], 1000 + k))
            try:
                args, outs, tr = self.at(cj, pts, True)
                return self.spec(pts, args, outs)
            except Resample as e:
                last = e
        raise Undecided(str(last))

    def real(self, vals):
        f = jax.jit(self.call) if self.jit else self.call
        outs = f(*[jnp.asarray(v) if np.asarray(v).dtype.kind in "iub" else
                           jnp.asarray(v, dtype=jnp.float64) for v in vals])
        return [np.asarray(o) for o in jax.tree_util.tree_leaves(outs)]

    def confirm(self, lab, pts, d, inexact):
        vals = self.vals(pts)
        if d[0] == "shape":
            return dict(summary=f"shape {d[1]} instead of {d[2]}", inputs=self.named(vals),
                        label=lab, nan=False)
        try:
            with mp.workdps(120):
                obs = self.spec_at(pts)
        except Undecided:
            return None
        for o in obs:
            l2, got, want, tol = (tuple(o) + (None, None))[:4]
            if l2 != lab:
                continue
            got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
            scale = max([mp.mpf("1e-300")] + [abs(w.m) for w in want.reshape(-1)
                                             if w.m is not None and mp.isfinite(w.m)])
            for ix in np.ndindex(want.shape):
                g, w = got[ix], want[ix]
                if w.m is None or g.m is None and g.f is not None:
                    continue
                t = mp.mpf(0)
                if tol is not None:
                    tt = np.asarray(tol, dtype=object)
                    t = abs((tt[ix] if tt.ndim else tt[()]).m)
                gm = g.m if g.m is not None else fd.NAN
                wm = w.m
                if isinstance(g, Cx) or isinstance(w, Cx):
                    dd = (Cx.of(g) - Cx.of(w)).m
                else:
                    dd = abs(gm - wm)
                lim = t * mp.mpf("1.000001") + scale * mp.mpf("1e-8" if inexact else "1e-13")
                if mp.isnan(gm) or mp.isnan(dd) or dd > lim:
                    real = None
                    try:
                        real = [r.tolist() for r in self.real(vals)]
                    except Exception as e:
                        real = repr(e)[:200]
                    return dict(
                        summary=f"at {self.named(vals)} entry {list(ix)} of {lab}: code "
                                f"{mp.nstr(gm, 12)}, required {mp.nstr(wm, 12)}",
                        inputs=self.named(vals), label=lab, entry=list(ix), nan=bool(mp.isnan(gm)),
                        code_exact_arithmetic=mp.nstr(gm, 20), required=mp.nstr(wm, 20),
                        real_float64_outputs=real, function=self.fn)
        return None

    def named(self, vals):
        return {p.name: v.tolist() if isinstance(v, np.ndarray) else v
                for p, v in zip(self.params, vals)}

    def crash(self, rep, rng, exc):
        vals = self.vals(self.point(rng))
        try:
            self.real(vals)
        except Exception as e:
            if not blame(e):
                rep.errors.append(f"{self.name}: the harness could not call the code: {e!r}"[:400])
                return
            rep.violate(f"{self.name}: callable",
                        dict(summary=f"raises {e!r}"[:400], inputs=self.named(vals),
                             function=self.fn), key=self.key)

    def sweep(self, rep, rng, confirmed):
        """bounded: the float64 outputs of the real function against the specification"""
        n = 6 if TIER == "quick" else 60
        for _ in range(3 * n):
            pts = self.point(rng)
            vals = self.vals(pts)
            if self.numvalid is not None and not self.numvalid(*vals):
                continue
            try:
                real = self.real(vals)
            except Exception as e:
                if not blame(e):
                    rep.errors.append(f"{self.name}: the harness could not call the code: {e!r}"[:400])
                    return
                rep.violate(f"{self.name}: callable", dict(
                    summary=f"raises {e!r}"[:400], inputs=self.named(vals), function=self.fn),
                    key=self.key)
                return
            try:
                fd.MONLY = True
                for k in range(3):
                    fd.set_ctx(fd.Ctx(fd.PRIMES[k % 3], 77 + k))
                    try:
                        args = self.els(pts, True)
                        obs = self.spec(pts, args, [ip.obj(r) if r.dtype.kind in "fc" else r
                                               for r in real])
                        break
                    except Resample:
                        continue
                else:
                    continue
            except Undecided:
                continue
            finally:
                fd.MONLY = False
            rep.count((self.name, str(vals)))
            rep.sample(dict(function=self.fn, inputs=self.named(vals)))
            for o in obs:
                lab, got, want, tol = (tuple(o) + (None, None))[:4]
                if lab in confirmed:
                    continue
                got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
                if got.shape != want.shape:
                    continue
                ms = [abs(w.m) for w in want.reshape(-1) if w.m is not None]
                scale = max([mp.mpf("1e-300")] + ms)
                for ix in np.ndindex(want.shape):
                    g, w = got[ix], want[ix]
                    if w.m is None or not mp.isfinite(w.m) or (g.m is None):
                        continue
                    sc = scale
                    if len(o) > 4:
                        tol = o[4]
                    if tol is not None:
                        tt = np.asarray(tol, dtype=object)
                        sc = abs((tt[ix] if tt.ndim else tt[()]).m) * mp.mpf(10) ** 14
                    dd = (Cx.of(g) - Cx.of(w)).m if isinstance(g, Cx) or isinstance(w, Cx) else abs(g.m - w.m)
                    if mp.isnan(dd) or dd > sc * mp.mpf(self.numscale):
                        rep.violate(f"{self.name}: {lab} (float64)", dict(
                            summary=f"at {self.named(vals)} entry {list(ix)} of {lab}: real "
                                    f"code {mp.nstr(g.m, 12)}, required {mp.nstr(w.m, 12)}",
                            inputs=self.named(vals), label=lab, entry=list(ix),
                            required=mp.nstr(w.m, 20), real_float64=mp.nstr(g.m, 20),
                            function=self.fn), key=self.keyof(pts), nan=bool(mp.isnan(dd)))
                        return
