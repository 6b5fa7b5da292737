"""Which contracts decide which property, and the parallel driver."""
import os
import sys
import time
import subprocess
import pickle
import tempfile


def contracts(prop):
    """the list of obligations generators of a property (objects with .name, .discharge(rep))"""
    import smolgp.kernels.base as K
    import smolgp.kernels.integrated as I
    import smolgp.kernels.dense as D
    import smolgp.helpers as H
    from . import kernels
    if prop in ("C08", "C09", "C14"):
        return getattr(kernels, prop.lower())(K, H)
    if prop in ("C10", "C11", "C13", "C17"):
        from . import composite, integrated, periodic, dense
        return {"C10": lambda: composite.c10(K, I), "C11": lambda: integrated.c11(K, I, H),
                "C13": lambda: periodic.c13(K), "C17": lambda: dense.c17(K, D, I)}[prop]()
    if prop in ("C01", "C02", "C03", "C06", "C12"):
        from . import solver, library
        return library.pipelines(prop) + getattr(solver, prop.lower())()
    if prop in ("C04", "C05", "C07"):
        from . import intsolver, library
        return library.pipelines(prop) + getattr(intsolver, prop.lower())()
    if prop == "C16":
        from . import shapes
        return shapes.c16()
    if prop == "C15":
        from . import names
        return names.c15()
    raise SystemExit(f"unknown property {prop}")


ASSUME = [
    "machine arithmetic treated as exact real arithmetic (float64 checked by bounded replays only)",
    "jax traces the real function faithfully: the jaxpr is what XLA executes",
    "branches: every control path reached by a witness is decided; a path no witness reaches is not",
    "float literals stand for the nearest short decimal, small rational, square root or multiple of pi",
]
TRUST = [
    "jax tracing (make_jaxpr) and the semantics of its primitives in vc/interp.py",
    "Schwartz-Zippel identity test over three 61-bit prime fields (error < 1e-12 per obligation)",
    "jax.scipy.linalg.expm, jnp.linalg.solve/inv: assumed to meet their mathematical contract",
]


def run(prop, rep, nproc=None):
    cs = contracts(prop)
    nproc = nproc or min(8, os.cpu_count() or 2, max(1, len(cs)))
    rep.assume(*ASSUME)
    rep.trust(*TRUST)
    if nproc <= 1:
        for c in cs:
            one(c, rep)
        return
    with tempfile.TemporaryDirectory() as tmp:
        ps = []
        for k in range(nproc):
            out = os.path.join(tmp, f"{k}.pkl")
            ps.append((out, subprocess.Popen(
                [sys.executable, os.path.join(os.path.dirname(os.path.dirname(__file__)), "run.py"),
                 prop, "--worker", str(k), str(nproc), out],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for out, p in ps:
            log = p.communicate()[0].decode(errors="replace")
            if not os.path.exists(out):
                rep.errors.append("worker died: " + log[-600:])
                rep.ob(f"{prop}.worker", None, "undecided", "driver", 0, log[-300:])
                continue
            with open(out, "rb") as f:
                rep.merge(pickle.load(f))


def take(d):
    """the next contract nobody has taken (the workers share the list)"""
    import fcntl
    with open(os.path.join(d, "next"), "a+") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.seek(0)
        j = int(f.read() or 0)
        f.truncate(0)
        f.write(str(j + 1))
    return j


def one(c, rep):
    try:
        c.discharge(rep)
    except Exception as e:  # the verifier failed: undecided, never a violation
        import traceback
        rep.errors.append(f"{c.name}: {traceback.format_exc()[-700:]}")
        rep.ob(c.name, getattr(c, "fn", None), "undecided", "driver", 0, repr(e)[:300])


def worker(prop, rep, k, n, out):
    cs = contracts(prop)
    while (j := take(os.path.dirname(out))) < len(cs):
        one(cs[j], rep)
    with open(out, "wb") as f:
        pickle.dump(rep.state(), f)
