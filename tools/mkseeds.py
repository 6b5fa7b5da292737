"""writes /verif/seeded/<id>/ from the table below (patches against /repo's HEAD)"""
import json
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/smolgp/"

LIB = '''import os, sys, warnings
os.environ["JAX_PLATFORMS"] = "cpu"
warnings.filterwarnings("ignore")
sys.path.insert(0, "src")
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import smolgp
from smolgp.kernels import base as K, integrated as I, dense as D
from smolgp.gp import GaussianProcess


def close(a, b, tol=1e-7, what=""):
    a, b = np.asarray(a, float), np.asarray(b, float)
    assert a.shape == b.shape, (what, a.shape, b.shape)
    s = max(np.max(np.abs(b)), 1e-300)
    assert np.all(np.isfinite(a)) and np.max(np.abs(a - b)) <= tol * s, (what, a, b)


def logprob(C, y):
    s, ld = np.linalg.slogdet(C)
    return -.5 * (y @ np.linalg.solve(C, y) + ld + len(y) * np.log(2 * np.pi))


def posterior(C, Ks, kss, y):
    """C = data covariance with noise, Ks[test, data], kss = prior variances"""
    return Ks @ np.linalg.solve(C, y), kss - np.einsum("ij,ji->i", Ks, np.linalg.solve(C, Ks.T))


def exp_k(sig, ell):
    return lambda d: sig**2 * np.exp(-np.abs(d) / ell)


def m32_k(sig, ell):
    def k(d):
        x = np.sqrt(3) * np.abs(d) / ell
        return sig**2 * (1 + x) * np.exp(-x)
    return k


def gram(k, a, b):
    return k(np.asarray(a)[:, None] - np.asarray(b)[None, :])


def exp_avg(sig, ell, a, b):
    """covariance of averages of an exponential process over exposures (lo, hi); lo == hi is a point"""
    def ker(x, y):      # double antiderivative of exp(-|u-v|/ell)
        return None
    (a0, a1), (b0, b1) = a, b
    n = 4000
    from numpy.polynomial.legendre import leggauss
    x, w = leggauss(40)

    def inner(u):       # average over v in b of exp(-|u-v|/ell), exact
        if b1 == b0:
            return np.exp(-np.abs(u - b0) / ell)
        lo = np.minimum(np.maximum(u, b0), b1)
        left = ell * (np.exp(-(u - lo) / ell) - np.exp(-(u - b0) / ell))
        right = ell * (np.exp(-(lo - u) / ell) - np.exp(-(b1 - u) / ell))
        return (left + right) / (b1 - b0)
    if a1 == a0:
        return sig**2 * inner(np.array(a0))
    cuts = sorted({a0, a1, *[c for c in (b0, b1) if a0 < c < a1]})
    r = 0.
    for c, d in zip(cuts, cuts[1:]):
        u = (d - c) / 2 * x + (c + d) / 2
        r += (d - c) / 2 * np.sum(w * np.array([inner(q) for q in u]))
    return sig**2 * r / (a1 - a0)


def exp_gram(sig, ell, A, B):
    return np.array([[exp_avg(sig, ell, a, b) for b in B] for a in A])


def spans(t, d):
    return [(a - b / 2, a + b / 2) for a, b in zip(t, d)]
'''

S = {}


def seed(id, prop, file, old, new, needs, breaks, demo, count=1):
    S[id] = dict(prop=prop, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo,
                 count=count)


exec(open(os.path.join(ROOT, "tools", "seeds_table.py")).read())


def main():
    want = sys.argv[1:]
    for id, s in S.items():
        if want and id not in want:
            continue
        p = "/repo/" + SRC + s["file"]
        txt = open(p).read()
        edits = s["old"] if isinstance(s["old"], list) else [(s["old"], s["new"])]
        out = txt
        for o, n in edits:
            assert out.count(o) >= 1, (id, o)
            if s["count"] == 1:
                assert out.count(o) == 1, (id, out.count(o), o)
            out = out.replace(o, n)
        d = os.path.join(ROOT, "seeded", id)
        os.makedirs(d, exist_ok=True)
        try:
            open(p, "w").write(out)
            diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "lib.py"), "w").write(LIB)
        open(os.path.join(d, "demo.py"), "w").write("from lib import *\n" + s["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)


main()
