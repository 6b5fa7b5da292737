"""Evaluate a jaxpr over the domain of field.py.

Float arrays are numpy object arrays of El (complex: Cx); int and bool arrays
are ordinary numpy arrays, computed by jax itself.  Pure data movement
(reshape, slice, gather, scatter, ...) is executed by applying the *real*
primitive to an array of indices, so its semantics are jax's own.
Comparisons are decided by the witness and recorded in CTX.trace.
"""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jcore
from . import field as fd
from . import linalg as la
from .field import El, Cx, EL0, EL1, Undecided, Resample

PRIMS_SEEN = {}
MEMO = {}       # (eqn, operand bytes) -> result of the real primitive


def _key(eqn, arrs):
    return (id(eqn),) + tuple((a.shape, a.tobytes()) for a in arrs)


def memo(eqn, arrs, compute):
    """the real primitive applied to concrete operands, remembered"""
    arrs = [np.asarray(a) for a in arrs]
    if sum(a.nbytes for a in arrs) > 4096:
        return compute()
    k = _key(eqn, arrs)
    r = MEMO.get(k)
    if r is None:
        if len(MEMO) > 200000:
            MEMO.clear()
        r = MEMO[k] = (compute(), eqn)
    return r[0]


def is_obj(x):
    return isinstance(x, np.ndarray) and x.dtype == object


def is_float_dtype(dt):
    return np.issubdtype(dt, np.floating) or np.issubdtype(dt, np.complexfloating)


def obj(x, aval=None):
    """as an object array of El"""
    if is_obj(x):
        return x
    x = np.asarray(x)
    r = np.empty(x.shape, dtype=object)
    rf, xf = r.reshape(-1), x.reshape(-1)
    for k in range(xf.size):
        rf[k] = fd.lift(xf[k].item())
    return r


def omap(fn, *arrs):
    arrs = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs]
    arrs = np.broadcast_arrays(*arrs) if len({a.shape for a in arrs}) > 1 else arrs
    r = np.empty(arrs[0].shape, dtype=object)
    rf = r.reshape(-1)
    fl = [a.reshape(-1) for a in arrs]
    for k in range(rf.size):
        rf[k] = fn(*(a[k] for a in fl))
    return r


def bmap(fn, *arrs):
    r = omap(fn, *arrs)
    return r.astype(bool)


def trace(call, examples):
    """the jaxpr of the real code, without equations no output depends on"""
    cj = jax.make_jaxpr(call)(*examples)
    try:
        from jax._src.interpreters import partial_eval as pe
        jp, used = pe.dce_jaxpr(cj.jaxpr, [True] * len(cj.jaxpr.outvars), instantiate=True)
        if [str(v.aval) for v in jp.constvars] != [str(v.aval) for v in cj.jaxpr.constvars]:
            return cj
        return jcore.ClosedJaxpr(jp, cj.consts)
    except Exception:
        return cj


def scalar(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


class Interp:
    def __init__(self, hooks=None):
        self.hooks = hooks or {}
        self.depth = 0
        self.trace = []       # (prim, eqn id, lhs, rhs, outcome)

    # ---- entry points
    def run(self, closed, args):
        return self.eval(closed.jaxpr, closed.consts, args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                x = np.asarray(v.val)
                return obj(x) if is_float_dtype(x.dtype) else x
            return env[v]

        def write(v, x):
            env[v] = x

        for v, c in zip(jaxpr.constvars, consts):
            if not is_obj(c):
                c = np.asarray(c)
                if is_float_dtype(c.dtype):
                    c = obj(c)
            write(v, c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            write(v, a)
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                if is_obj(o) and o.shape != tuple(v.aval.shape):
                    raise Undecided(f"shape {eqn.primitive.name} {o.shape} {v.aval.shape}")
                write(v, o)
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        PRIMS_SEEN[name] = PRIMS_SEEN.get(name, 0) + 1
        p = eqn.params
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, eqn, ins)
            if r is not None:
                return r
        m = getattr(self, "p_" + name, None)
        if m is not None:
            r = m(eqn, ins, p)
            return r if isinstance(r, (list, tuple)) else [r]
        if name in MOVE:
            return self.move(eqn, ins)
        if not any(is_obj(x) for x in ins):
            if name == "and" or name == "or" or name == "not":
                if all(np.asarray(x).dtype == bool for x in ins):
                    f = dict(zip(("and", "or", "not"),
                                 (np.logical_and, np.logical_or, np.logical_not)))[name]
                    return [np.asarray(f(*ins))]

            def go():
                outs = eqn.primitive.bind(*[jnp.asarray(x) for x in ins], **p)
                outs = outs if eqn.primitive.multiple_results else [outs]
                return [np.asarray(o) for o in outs]
            return [self.back(o) for o in memo(eqn, ins, go)]
        raise Undecided(f"primitive {name}")

    @staticmethod
    def back(x):
        return obj(x) if is_float_dtype(x.dtype) else x

    def call(self, cj, ins):
        return self.eval(cj.jaxpr, cj.consts, ins)

    # ---- data movement by index arrays
    def move(self, eqn, ins):
        name, p = eqn.primitive.name, dict(eqn.params)
        data_pos = MOVE[name](eqn, ins)
        if not any(is_obj(ins[i]) for i in data_pos):
            if name in NP_MOVE:
                return [self.back(NP_MOVE[name]([np.asarray(x) for x in ins], p))]
            return [self.back(memo(eqn, ins, lambda: np.asarray(
                eqn.primitive.bind(*[jnp.asarray(x) for x in ins], **p))))]
        pool, off, idx = [], 0, list(ins)
        for i in range(len(ins)):
            if i in data_pos:
                a = obj(ins[i])
                n = a.size
                idx[i] = a.shape
                pool.append(a.reshape(-1))
                off += n
        if name == "gather":
            p["fill_value"] = -1

        def go():
            if name in NP_MOVE:
                o, ops = 0, []
                for i in data_pos:
                    n = int(np.prod(idx[i], dtype=int))
                    ops.append(np.arange(o, o + n, dtype=np.int64).reshape(idx[i]))
                    o += n
                return NP_MOVE[name](ops, p)
            o, ops = 0, list(ins)
            for i in data_pos:
                n = int(np.prod(idx[i], dtype=int))
                ops[i] = np.arange(o, o + n, dtype=np.int64).reshape(idx[i])
                o += n
            return np.asarray(eqn.primitive.bind(*[jnp.asarray(x) for x in ops], **p))
        out = memo(eqn, [x for i, x in enumerate(ins) if i not in data_pos], go)
        pool = np.concatenate(pool) if pool else np.empty(0, dtype=object)
        r = np.empty(out.shape, dtype=object)
        rf, of = r.reshape(-1), out.reshape(-1)
        for k in range(of.size):
            j = int(of[k])
            rf[k] = pool[j] if 0 <= j < off else El(None, fd.NAN)
        return [r]

    # ---- calls
    def _pjit(self, eqn, ins, p):
        nm = p.get("name", "")
        h = self.hooks.get("call:" + nm)
        if h is not None:
            r = h(self, eqn, ins)
            if r is not None:
                return r
        if nm == "expm" and len(ins) == 1 and is_obj(ins[0]):
            a = ins[0]
            if a.ndim == 2:
                return [la.expm(a)]
            r = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(a.shape[:-2]):
                r[ix] = la.expm(a[ix])
            return [r]
        if nm in ("solve", "_solve") and len(ins) == 2 and eqn.outvars[0].aval.shape == eqn.invars[1].aval.shape \
                and eqn.invars[0].aval.ndim == 2:
            return [la.solve(obj(ins[0]), obj(ins[1]))]
        if nm == "inv" and len(ins) == 1 and ins[0].ndim == 2:
            return [la.inv(obj(ins[0]))]
        return self.call(p["jaxpr"], ins)

    p_pjit = _pjit
    p_jit = _pjit

    def p_closed_call(self, eqn, ins, p):
        return self.call(p["call_jaxpr"], ins)

    p_core_call = p_closed_call

    def p_remat(self, eqn, ins, p):
        return self.eval(p["jaxpr"], (), ins)

    p_checkpoint = p_remat

    def p_custom_jvp_call(self, eqn, ins, p):
        return self.call(p["call_jaxpr"], ins)

    def p_custom_vjp_call(self, eqn, ins, p):
        return self.call(p.get("call_jaxpr") or p["fun_jaxpr"], ins)

    p_custom_vjp_call_jaxpr = p_custom_vjp_call

    def p_cond(self, eqn, ins, p):
        i = int(np.asarray(ins[0]))
        br = p["branches"]
        i = max(0, min(i, len(br) - 1))
        self.trace.append(("cond", id(eqn), None, None, i))
        return self.call(br[i], ins[1:])

    def p_while(self, eqn, ins, p):
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, c = ins[:cn], ins[cn:cn + bn], ins[cn + bn:]
        n = 0
        while bool(np.asarray(self.call(p["cond_jaxpr"], cc + c)[0])):
            c = self.call(p["body_jaxpr"], bc + c)
            n += 1
            if n > 5000:
                raise Undecided("while")
        return c

    def p_scan(self, eqn, ins, p):
        nc, nk = p["num_consts"], p["num_carry"]
        consts, carry, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
        L = p["length"]
        ys = [[] for _ in eqn.outvars[nk:]]
        order = range(L - 1, -1, -1) if p["reverse"] else range(L)
        for k in order:
            x = [a[k] if is_obj(a[k:k + 1]) and a.ndim > 1 else
                 (scalar(a[k]) if is_obj(a) else a[k]) for a in xs]
            out = self.call(p["jaxpr"], consts + carry + x)
            carry = out[:nk]
            for l, y in zip(ys, out[nk:]):
                l.append(y)
        if p["reverse"]:
            ys = [l[::-1] for l in ys]
        res = []
        for l, v in zip(ys, eqn.outvars[nk:]):
            if not l:
                res.append(np.zeros(v.aval.shape, dtype=object if is_float_dtype(v.aval.dtype)
                                    else v.aval.dtype))
                continue
            if any(is_obj(y) for y in l):
                r = np.empty((len(l),) + np.shape(l[0]), dtype=object)
                for k, y in enumerate(l):
                    r[k] = y if np.ndim(y) else np.asarray(y, dtype=object)[()]
                res.append(r)
            else:
                res.append(np.stack([np.asarray(y) for y in l]))
        return list(carry) + res

    def p_custom_linear_solve(self, eqn, ins, p):
        """its contract: the x with matvec(x) = b (so factorizations need not be followed)"""
        cl = p["const_lengths"]
        js = p["jaxprs"]
        n_mv, n_vm, n_s, n_ts = cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve
        b = ins[n_mv + n_vm + n_s + n_ts:]
        if len(b) == 1 and obj(b[0]).size <= 160:
            mv = list(ins[:n_mv])
            b0 = obj(b[0])
            n = b0.size
            M = np.empty((n, n), dtype=object)
            e = np.empty(n, dtype=object)
            for k in range(n):
                e.fill(EL0)
                e[k] = EL1
                M[:, k] = obj(self.call(js.matvec, mv + [e.reshape(b0.shape)])[0]).reshape(-1)
            return [la.solve(M, b0.reshape(-1)).reshape(b0.shape)]
        o = n_mv + n_vm
        sc = ins[o:o + n_s]
        return self.call(js.solve, list(sc) + list(b))

    # ---- linear algebra
    def _batch(self, fn, nd, arrs, eqn):
        a0 = arrs[0]
        bs = a0.shape[:a0.ndim - nd]
        if 0 in bs:
            return tuple(np.zeros(v.aval.shape, dtype=object if is_float_dtype(v.aval.dtype)
                                  else v.aval.dtype) for v in eqn.outvars)
        if not bs:
            return fn(*arrs)
        outs = None
        for n, ix in enumerate(np.ndindex(bs)):
            try:
                r = fn(*(a[ix] for a in arrs))
            except Resample:
                fd.CTX.badix = n
                raise
            r = r if isinstance(r, tuple) else (r,)
            if outs is None:
                outs = [np.empty(bs + q.shape, dtype=q.dtype) for q in r]
            for o, q in zip(outs, r):
                o[ix] = q
        return tuple(outs)

    def p_lu(self, eqn, ins, p):
        r = self._batch(la.lu, 2, [obj(ins[0])], eqn)
        return list(r)

    def p_lu_pivots_to_permutation(self, eqn, ins, p):
        return self._native(eqn, ins)

    def p_cholesky(self, eqn, ins, p):
        try:
            r = self._batch(la.cholesky, 2, [obj(ins[0])], eqn)
        except Resample:
            # no square root in this field: undefined, and resampled if anything depends on it
            fd.CTX.poison = True
            r = np.empty(ins[0].shape, dtype=object)
            r.fill(El(None, fd.NAN))
        return [r[0] if isinstance(r, tuple) else r]

    def p_triangular_solve(self, eqn, ins, p):
        a, b = obj(ins[0]), obj(ins[1])

        def one(a, b):
            n = a.shape[0]
            t = la.zeros(n, n)
            for i in range(n):
                for j in range(n):
                    if (j <= i) if p["lower"] else (j >= i):
                        t[i, j] = a[i, j]
                if p["unit_diagonal"]:
                    t[i, i] = EL1
            if p.get("transpose_a"):
                t = t.T
            if p.get("conjugate_a"):
                t = omap(lambda x: x.conj(), t)
            if p["left_side"]:
                return la.solve(t, b)
            return la.solve(t.T, b.T).T
        r = self._batch(one, 2, [a, b], eqn)
        return [r[0] if isinstance(r, tuple) else r]

    # ---- arithmetic
    def _native(self, eqn, ins):
        fn = NP_INT.get(eqn.primitive.name)
        if fn is not None and all(np.asarray(x).dtype.kind in "ib" for x in ins):
            r = np.asarray(fn(*[np.asarray(x) for x in ins]))
            v = eqn.outvars[0].aval
            if r.shape == tuple(v.shape):
                return [r.astype(v.dtype)]
        return [self.back(memo(eqn, ins, lambda: np.asarray(
            eqn.primitive.bind(*[jnp.asarray(x) for x in ins], **eqn.params))))]

    def _ew(self, eqn, ins, fn):
        if not any(is_obj(x) for x in ins):
            return self._native(eqn, ins)
        return [omap(fn, *[obj(x) for x in ins])]

    def p_add(self, e, i, p): return self._ew(e, i, lambda a, b: a + b)
    def p_add_any(self, e, i, p): return self._ew(e, i, lambda a, b: a + b)
    def p_sub(self, e, i, p): return self._ew(e, i, lambda a, b: a - b)
    def p_mul(self, e, i, p): return self._ew(e, i, lambda a, b: a * b)
    def p_div(self, e, i, p): return self._ew(e, i, lambda a, b: a / b)
    def p_neg(self, e, i, p): return self._ew(e, i, lambda a: -a)
    def p_square(self, e, i, p): return self._ew(e, i, lambda a: a * a)
    def p_integer_pow(self, e, i, p): return self._ew(e, i, lambda a: a ** p["y"])
    def p_sqrt(self, e, i, p): return self._ew(e, i, fd.el_sqrt)
    def p_rsqrt(self, e, i, p): return self._ew(e, i, lambda a: EL1 / fd.el_sqrt(a))
    def p_exp(self, e, i, p): return self._ew(e, i, fd.el_exp)
    def p_exp2(self, e, i, p): return self._ew(e, i, lambda a: fd.el_exp(a * fd.el_log(fd.lift(2))))
    def p_expm1(self, e, i, p): return self._ew(e, i, fd.el_expm1)
    def p_log(self, e, i, p): return self._ew(e, i, fd.el_log)
    def p_log1p(self, e, i, p): return self._ew(e, i, fd.el_log1p)
    def p_sin(self, e, i, p): return self._ew(e, i, fd.el_sin)
    def p_cos(self, e, i, p): return self._ew(e, i, fd.el_cos)
    def p_tan(self, e, i, p): return self._ew(e, i, lambda a: fd.el_sin(a) / fd.el_cos(a))
    def p_sinh(self, e, i, p): return self._ew(e, i, fd.el_sinh)
    def p_cosh(self, e, i, p): return self._ew(e, i, fd.el_cosh)
    def p_tanh(self, e, i, p): return self._ew(e, i, fd.el_tanh)
    def p_logistic(self, e, i, p): return self._ew(e, i, lambda a: EL1 / (EL1 + fd.el_exp(-a)))
    def p_lgamma(self, e, i, p): return self._ew(e, i, fd.el_lgamma)
    def p_conj(self, e, i, p): return self._ew(e, i, lambda a: Cx.of(a).conj())
    def p_real(self, e, i, p): return self._ew(e, i, lambda a: Cx.of(a).re)
    def p_imag(self, e, i, p): return self._ew(e, i, lambda a: Cx.of(a).im)
    def p_complex(self, e, i, p): return self._ew(e, i, lambda a, b: Cx(a, b))
    def p_stop_gradient(self, e, i, p): return [i[0]]
    def p_copy(self, e, i, p): return [i[0]]
    def p_copy_p(self, e, i, p): return [i[0]]
    def p_optimization_barrier(self, e, i, p): return list(i)

    def p_pow(self, e, i, p):
        if not any(is_obj(x) for x in i):
            return self._native(e, i)
        if not is_obj(i[1]):
            return [omap(lambda a, b: a ** int(b), obj(i[0]), np.asarray(i[1]).astype(object))]
        return [omap(fd.el_pow, obj(i[0]), obj(i[1]))]

    def p_abs(self, e, i, p):
        def f(a):
            if isinstance(a, Cx):
                return fd.el_sqrt(a.re * a.re + a.im * a.im)
            neg = self.decide("lt", a, EL0, e)
            return -a if neg else a
        return self._ew(e, i, f)

    def p_sign(self, e, i, p):
        def f(a):
            if self.decide("lt", a, EL0, e):
                return -EL1
            return EL1 if self.decide("lt", EL0, a, e) else EL0
        return self._ew(e, i, f)

    def p_max(self, e, i, p):
        def f(a, b):
            if not a.defined() and (a.m is None or fd.mp.isnan(a.m)):
                return a
            if not b.defined() and (b.m is None or fd.mp.isnan(b.m)):
                return b
            return b if self.decide("lt", a, b, e) else a
        return self._ew(e, i, f)

    def p_min(self, e, i, p):
        return self._ew(e, i, lambda a, b: b if self.decide("lt", b, a, e) else a)

    def p_clamp(self, e, i, p):
        def f(lo, x, hi):
            x = lo if self.decide("lt", x, lo, e) else x
            return hi if self.decide("lt", hi, x, e) else x
        return self._ew(e, i, f)

    def p_floor(self, e, i, p):
        def f(a):
            if a.m is None:
                raise Undecided("floor")
            return fd.lift(int(fd.mp.floor(a.m)))
        return self._ew(e, i, f)

    def p_ceil(self, e, i, p):
        def f(a):
            if a.m is None:
                raise Undecided("ceil")
            return fd.lift(int(fd.mp.ceil(a.m)))
        return self._ew(e, i, f)

    def p_round(self, e, i, p):
        def f(a):
            if a.m is None:
                raise Undecided("round")
            return fd.lift(int(fd.mp.nint(a.m)))
        return self._ew(e, i, f)

    # ---- comparisons
    def decide(self, op, a, b, eqn):
        if op == "lt":
            r = fd.cmp_lt(a, b)
        else:
            r = fd.cmp_eq(a, b)
        self.trace.append((op, id(eqn), a, b, r))
        return r

    def _nan(self, a):
        return a.f is None and (a.m is None or fd.mp.isnan(a.m))

    def _cmp(self, e, ins, fn):
        if not any(is_obj(x) for x in ins):
            return self._native(e, ins)
        return [bmap(fn, obj(ins[0]), obj(ins[1]))]

    def p_eq(self, e, i, p):
        return self._cmp(e, i, lambda a, b: False if self._nan(a) or self._nan(b)
                         else self.decide("eq", a, b, e))

    def p_ne(self, e, i, p):
        return self._cmp(e, i, lambda a, b: True if self._nan(a) or self._nan(b)
                         else not self.decide("eq", a, b, e))

    def p_lt(self, e, i, p):
        return self._cmp(e, i, lambda a, b: False if self._nan(a) or self._nan(b)
                         else self.decide("lt", a, b, e))

    def p_gt(self, e, i, p):
        return self._cmp(e, i, lambda a, b: False if self._nan(a) or self._nan(b)
                         else self.decide("lt", b, a, e))

    def p_ge(self, e, i, p):
        return self._cmp(e, i, lambda a, b: False if self._nan(a) or self._nan(b)
                         else not self.decide("lt", a, b, e))

    def p_le(self, e, i, p):
        return self._cmp(e, i, lambda a, b: False if self._nan(a) or self._nan(b)
                         else not self.decide("lt", b, a, e))

    def _tot(self, x):
        return x

    def p_lt_to(self, e, i, p): return self.p_lt(e, i, p)
    def p_le_to(self, e, i, p): return self.p_le(e, i, p)

    def p_is_finite(self, e, i, p):
        if not is_obj(i[0]):
            return self._native(e, i)
        return [bmap(lambda a: a.defined(), i[0])]

    def p_select_n(self, e, i, p):
        which, cases = i[0], i[1:]
        if not any(is_obj(c) for c in cases):
            w = np.asarray(which)
            cs = [np.asarray(c) for c in cases]
            if len(cs) == 2 and w.ndim in (0, cs[0].ndim):
                return [np.where(w.astype(bool), cs[1], cs[0])]
            return self._native(e, i)
        cases = [obj(c) for c in cases]
        w = np.asarray(which)
        sh = cases[0].shape
        if w.ndim == 0:
            return [cases[int(w)]]
        r = np.empty(sh, dtype=object)
        rf, wf = r.reshape(-1), w.reshape(-1)
        cf = [c.reshape(-1) for c in cases]
        for k in range(rf.size):
            rf[k] = cf[int(wf[k])][k]
        return [r]

    # ---- conversions
    def p_convert_element_type(self, e, i, p):
        x, dt = i[0], p["new_dtype"]
        if is_obj(x):
            if np.issubdtype(dt, np.complexfloating):
                return [omap(Cx.of, x)]
            if np.issubdtype(dt, np.floating):
                return [omap(lambda a: Cx.of(a).re if isinstance(a, Cx) else a, x)]
            if dt == np.bool_:
                return [bmap(lambda a: not self.decide("eq", a, EL0, e), x)]

            def f(a):
                if a.m is None:
                    raise Undecided("float to int")
                return int(a.m)
            return [omap(f, x).astype(dt)]
        if is_float_dtype(dt):
            r = obj(np.asarray(x))
            return [omap(Cx.of, r) if np.issubdtype(dt, np.complexfloating) else r]
        return self._native(e, i)

    def p_iota(self, e, i, p):
        return self._native(e, i)

    def p_full(self, e, i, p):
        return self._native(e, i)

    # ---- reductions
    def _reduce(self, e, ins, p, fn, init):
        if not is_obj(ins[0]):
            return self._native(e, ins)
        x = ins[0]
        axes = tuple(p["axes"])
        keep = [k for k in range(x.ndim) if k not in axes]
        y = np.transpose(x, keep + list(axes)).reshape([x.shape[k] for k in keep] + [-1])
        r = np.empty(y.shape[:-1], dtype=object)
        for ix in np.ndindex(r.shape):
            acc = init
            for v in y[ix]:
                acc = v if acc is None else fn(acc, v)
            r[ix] = acc
        return [r]

    def p_reduce_sum(self, e, i, p): return self._reduce(e, i, p, lambda a, b: a + b, EL0)
    def p_reduce_prod(self, e, i, p): return self._reduce(e, i, p, lambda a, b: a * b, EL1)
    def p_reduce_max(self, e, i, p):
        return self._reduce(e, i, p, lambda a, b: b if self.decide("lt", a, b, e) else a, None)
    def p_reduce_min(self, e, i, p):
        return self._reduce(e, i, p, lambda a, b: b if self.decide("lt", b, a, e) else a, None)

    def _cum(self, e, ins, p, fn):
        if not is_obj(ins[0]):
            return self._native(e, ins)
        x = np.moveaxis(ins[0], p["axis"], 0)
        r = np.empty(x.shape, dtype=object)
        n = x.shape[0]
        order = range(n - 1, -1, -1) if p["reverse"] else range(n)
        acc = None
        for k in order:
            acc = x[k] if acc is None else omap(fn, np.asarray(acc, dtype=object), np.asarray(x[k], dtype=object))
            if is_obj(acc) and acc.ndim == 0 and x.ndim == 1:
                r[k] = acc[()]
            else:
                r[k] = acc
        return [np.moveaxis(r, 0, p["axis"])]

    def p_cumsum(self, e, i, p): return self._cum(e, i, p, lambda a, b: a + b)
    def p_cumprod(self, e, i, p): return self._cum(e, i, p, lambda a, b: a * b)
    def p_cummax(self, e, i, p): return self._cum(e, i, p, lambda a, b: b if self.decide("lt", a, b, e) else a)
    def p_cummin(self, e, i, p): return self._cum(e, i, p, lambda a, b: b if self.decide("lt", b, a, e) else a)

    def _arg(self, e, ins, p, better):
        if not is_obj(ins[0]):
            return self._native(e, ins)
        (ax,) = p["axes"]
        x = np.moveaxis(ins[0], ax, -1)
        r = np.zeros(x.shape[:-1], dtype=p["index_dtype"])
        for ix in np.ndindex(r.shape):
            b = 0
            for k in range(1, x.shape[-1]):
                if better(x[ix][k], x[ix][b]):
                    b = k
            r[ix] = b
        return [r]

    def p_argmax(self, e, i, p): return self._arg(e, i, p, lambda a, b: self.decide("lt", b, a, e))
    def p_argmin(self, e, i, p): return self._arg(e, i, p, lambda a, b: self.decide("lt", a, b, e))

    def p_sort(self, e, i, p):
        if not any(is_obj(x) for x in i):
            outs = e.primitive.bind(*[jnp.asarray(x) for x in i], **p)
            return [self.back(np.asarray(o)) for o in outs]
        d, nk = p["dimension"], p["num_keys"]
        arrs = [np.moveaxis(np.asarray(x), d, -1) for x in i]
        outs = [np.empty(a.shape, dtype=a.dtype) for a in arrs]
        n = arrs[0].shape[-1]
        import functools

        def lt(a, b):
            if isinstance(a, (El, Cx)):
                return self.decide("lt", a, b, e)
            return bool(a < b)

        for ix in np.ndindex(arrs[0].shape[:-1]):
            keys = [a[ix] for a in arrs[:nk]]

            def cmp(u, v):
                for k in keys:
                    if lt(k[u], k[v]):
                        return -1
                    if lt(k[v], k[u]):
                        return 1
                return -1 if u < v else (1 if u > v else 0)
            order = sorted(range(n), key=functools.cmp_to_key(cmp))
            for o, a in zip(outs, arrs):
                for k, s in enumerate(order):
                    o[ix + (k,)] = a[ix + (s,)]
        return [np.moveaxis(o, -1, d) for o in outs]

    # ---- dot
    def p_dot_general(self, e, ins, p):
        if not any(is_obj(x) for x in ins):
            return self._native(e, ins)
        a, b = obj(ins[0]), obj(ins[1])
        (ca, cb), (ba, bb) = p["dimension_numbers"]
        fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
        fb = [k for k in range(b.ndim) if k not in cb and k not in bb]
        B = [a.shape[k] for k in ba]
        M = [a.shape[k] for k in fa]
        N = [b.shape[k] for k in fb]
        K = int(np.prod([a.shape[k] for k in ca], dtype=int))
        nb, nm, nn = (int(np.prod(s, dtype=int)) for s in (B, M, N))
        A = np.transpose(a, list(ba) + fa + list(ca)).reshape(nb, nm, K)
        Bm = np.transpose(b, list(bb) + list(cb) + fb).reshape(nb, K, nn)
        r = np.empty((nb, nm, nn), dtype=object)
        for q in range(nb):
            for x in range(nm):
                row = A[q, x]
                for y in range(nn):
                    acc = None
                    for k in range(K):
                        u, v = row[k], Bm[q, k, y]
                        if (u is EL0 and v.f is not None) or (v is EL0 and u.f is not None):
                            continue
                        t = u * v
                        acc = t if acc is None else acc + t
                    r[q, x, y] = EL0 if acc is None else acc
        return [r.reshape(B + M + N)]

    def p_pad(self, e, ins, p):
        if not any(is_obj(x) for x in ins):
            return self._native(e, ins)
        a, v = obj(ins[0]), obj(ins[1])
        idx = jnp.arange(a.size).reshape(a.shape)
        out = np.asarray(e.primitive.bind(idx, jnp.asarray(-1, idx.dtype), **p))
        r = np.empty(out.shape, dtype=object)
        rf, of, af = r.reshape(-1), out.reshape(-1), a.reshape(-1)
        for k in range(of.size):
            rf[k] = af[of[k]] if of[k] >= 0 else v[()]
        return [r]

    def _scatter_red(self, e, ins, p, fn):
        if not (is_obj(ins[0]) or is_obj(ins[2])):
            return self._native(e, ins)
        op, idx, up = obj(ins[0]), jnp.asarray(ins[1]), obj(ins[2])
        r = np.array(op, dtype=object, copy=True)
        rf, uf = r.reshape(-1), up.reshape(-1)
        base = jnp.zeros(op.shape, dtype=jnp.int64)
        for k in range(uf.size):
            hot = np.zeros(uf.size, dtype=np.int64)
            hot[k] = 1
            q = {kk: vv for kk, vv in p.items()}
            out = np.asarray(jax.lax.scatter_add_p.bind(base, idx, jnp.asarray(hot.reshape(up.shape)), **q)).reshape(-1)
            for j in np.nonzero(out)[0]:
                rf[j] = fn(rf[j], uf[k])
        return [r]

    def _p_scatter_add(self, e, ins, p):
        return self._scatter_red(e, ins, p, lambda a, b: a + b)

    def _p_scatter_mul(self, e, ins, p):
        return self._scatter_red(e, ins, p, lambda a, b: a * b)


setattr(Interp, "p_scatter-add", Interp._p_scatter_add)
setattr(Interp, "p_scatter_add", Interp._p_scatter_add)
setattr(Interp, "p_scatter_mul", Interp._p_scatter_mul)


def _bcast(ops, p):
    a, sh = ops[0], p["shape"]
    t = [1] * len(sh)
    for k, d in enumerate(p["broadcast_dimensions"]):
        t[d] = a.shape[k]
    return np.broadcast_to(a.reshape(t), sh)


def _slice(ops, p):
    st = p["strides"] or (1,) * ops[0].ndim
    return ops[0][tuple(slice(a, b, c) for a, b, c in
                        zip(p["start_indices"], p["limit_indices"], st))]


NP_MOVE = {
    "reshape": lambda o, p: o[0].reshape(p["new_sizes"]),
    "squeeze": lambda o, p: np.squeeze(o[0], tuple(p["dimensions"])),
    "transpose": lambda o, p: np.transpose(o[0], p["permutation"]),
    "broadcast_in_dim": _bcast,
    "slice": _slice,
    "concatenate": lambda o, p: np.concatenate(o, p["dimension"]),
    "rev": lambda o, p: np.flip(o[0], p["dimensions"]),
    "expand_dims": lambda o, p: np.expand_dims(o[0], tuple(p["dimensions"])),
}
NP_INT = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "lt": np.less, "le": np.less_equal,
          "gt": np.greater, "ge": np.greater_equal, "eq": np.equal, "ne": np.not_equal,
          "neg": np.negative, "max": np.maximum, "min": np.minimum,
          "convert_element_type": lambda x: x}


def _first(eqn, ins):
    return [0]


MOVE = {
    "reshape": _first, "transpose": _first, "broadcast_in_dim": _first, "slice": _first,
    "squeeze": _first, "expand_dims": _first, "rev": _first, "dynamic_slice": _first,
    "gather": _first, "reduce_precision": _first, "split": _first,
    "concatenate": lambda e, i: list(range(len(i))),
    "dynamic_update_slice": lambda e, i: [0, 1],
    "scatter": lambda e, i: [0, 2],
}


def _p_split(self, e, ins, p):
    if not is_obj(ins[0]):
        outs = e.primitive.bind(jnp.asarray(ins[0]), **p)
        return [self.back(np.asarray(o)) for o in outs]
    return list(np.split(ins[0], np.cumsum(p["sizes"])[:-1], axis=p["axis"]))


Interp.p_split = _p_split
del MOVE["split"]


def _p_reduce_precision(self, e, ins, p):
    return [ins[0]]


Interp.p_reduce_precision = _p_reduce_precision
del MOVE["reduce_precision"]
