"""Exact linear algebra on object arrays of El/Cx."""
import numpy as np
from . import field as fd
from .field import El, Cx, EL0, EL1, Undecided, Resample


def mat(rows):
    r = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, row in enumerate(rows):
        for j, x in enumerate(row):
            r[i, j] = El.of(x)
    return r


def zeros(*shape):
    r = np.empty(shape, dtype=object)
    r.fill(EL0)
    return r


def eye(n):
    r = zeros(n, n)
    for i in range(n):
        r[i, i] = EL1
    return r


def to_el(a):
    a = np.asarray(a)
    if a.dtype == object:
        return a
    r = np.empty(a.shape, dtype=object)
    rf, af = r.reshape(-1), a.reshape(-1)
    for k in range(af.size):
        rf[k] = fd.lift(af[k].item())
    return r


def _pivot(a, c, n):
    best, bm = None, None
    for i in range(c, n):
        x = a[i, c]
        if fd.MONLY:
            if x.m is None or not fd.mp.isfinite(x.m):
                return None
            if x.m != 0 and (best is None or abs(x.m) > bm):
                best, bm = i, abs(x.m)
            continue
        if not x.defined():
            return None
        if not x.iszero():
            m = x.m
            if m is None:
                return i
            if best is None or abs(m) > bm:
                best, bm = i, abs(m)
    return best


def solve(a, b):
    """a x = b by Gaussian elimination; undefined (None) entries if a is singular"""
    a = np.array(to_el(a), dtype=object, copy=True)
    b = np.array(to_el(b), dtype=object, copy=True)
    n = a.shape[0]
    vec = b.ndim == 1
    if vec:
        b = b.reshape(n, 1)
    for c in range(n):
        pv = _pivot(a, c, n)
        if pv is None:
            r = np.empty(b.shape, dtype=object)
            r.fill(El(None, fd.NAN))
            return r.reshape(-1) if vec else r
        if pv != c:
            a[[c, pv]] = a[[pv, c]]
            b[[c, pv]] = b[[pv, c]]
        ip = EL1 / a[c, c]
        for i in range(n):
            if i == c or a[i, c].iszero():
                continue
            k = a[i, c] * ip
            for j in range(c + 1, n):
                if not a[c, j].iszero():
                    a[i, j] = a[i, j] - k * a[c, j]
            for j in range(b.shape[1]):
                b[i, j] = b[i, j] - k * b[c, j]
            a[i, c] = EL0
        for j in range(c + 1, n):
            a[c, j] = a[c, j] * ip
        for j in range(b.shape[1]):
            b[c, j] = b[c, j] * ip
        a[c, c] = EL1
    return b.reshape(-1) if vec else b


def inv(a):
    return solve(a, eye(a.shape[0]))


def lu(a):
    """packed LU with partial pivoting, pivots and permutation (as jax.lax.linalg.lu)"""
    a = np.array(to_el(a), dtype=object, copy=True)
    n, m = a.shape
    perm = list(range(n))
    piv = []
    for c in range(min(n, m)):
        pv = _pivot(a, c, n)
        if pv is None:
            a.fill(El(None, fd.NAN))
            piv += list(range(c, min(n, m)))
            break
        piv.append(pv)
        if pv != c:
            a[[c, pv]] = a[[pv, c]]
            perm[c], perm[pv] = perm[pv], perm[c]
        for i in range(c + 1, n):
            a[i, c] = a[i, c] / a[c, c]
            for j in range(c + 1, m):
                a[i, j] = a[i, j] - a[i, c] * a[c, j]
    return a, np.array(piv, dtype=np.int32), np.array(perm, dtype=np.int32)


def anysqrt(x):
    """some square root in F_p (Tonelli), for factors that only occur as L L^T"""
    c = fd.CTX
    p = c.p
    if x.f is None:
        return El(None, fd.NAN)
    a = x.f
    if a == 0:
        f = 0
    else:
        if pow(a, (p - 1) // 2, p) != 1:
            raise Resample("cholesky")
        q, s = p - 1, 0
        while q % 2 == 0:
            q //= 2
            s += 1
        z = 2
        while pow(z, (p - 1) // 2, p) != p - 1:
            z += 1
        m_, c_, t, f = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
        while t != 1:
            i, t2 = 0, t
            while t2 != 1:
                t2 = t2 * t2 % p
                i += 1
            b = pow(c_, 1 << (m_ - i - 1), p)
            m_, c_ = i, b * b % p
            t, f = t * c_ % p, f * b % p
    m = None if x.m is None else (fd.mp.sqrt(x.m) if x.m >= 0 else fd.NAN)
    return El(f, m)


def cholesky(a):
    n = a.shape[0]
    L = zeros(n, n)
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                L[i, i] = anysqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


# ---- matrix exponential ----------------------------------------------------

def _charpoly(a, p):
    """characteristic polynomial over F_p (ints), low degree first, by Hessenberg form"""
    n = len(a)
    a = [list(r) for r in a]
    for c in range(n - 2):
        pv = next((i for i in range(c + 1, n) if a[i][c]), None)
        if pv is None:
            continue
        if pv != c + 1:
            a[c + 1], a[pv] = a[pv], a[c + 1]
            for r in a:
                r[c + 1], r[pv] = r[pv], r[c + 1]
        iv = pow(a[c + 1][c], -1, p)
        for i in range(c + 2, n):
            if a[i][c]:
                k = a[i][c] * iv % p
                for j in range(n):
                    a[i][j] = (a[i][j] - k * a[c + 1][j]) % p
                for r in a:
                    r[c + 1] = (r[c + 1] + k * r[i]) % p
    polys = [[1]]
    for k in range(n):
        q = [0] + polys[k]
        pk = polys[k]
        for j in range(len(pk)):
            q[j] = (q[j] - a[k][k] * pk[j]) % p
        t = 1
        for i in range(1, k + 1):
            t = t * a[k - i + 1][k - i] % p
            cf = a[k - i][k] * t % p
            if cf:
                for j, v in enumerate(polys[k - i]):
                    q[j] = (q[j] - cf * v) % p
        polys.append(q)
    return polys[n]


def _trim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def _divmod(a, b, p):
    a = list(a)
    ib = pow(b[-1], -1, p)
    q = [0] * max(len(a) - len(b) + 1, 0)
    for k in range(len(a) - len(b), -1, -1):
        c = a[k + len(b) - 1] * ib % p
        q[k] = c
        if c:
            for j, v in enumerate(b):
                a[k + j] = (a[k + j] - c * v) % p
    return q, _trim(a[:len(b) - 1])


def _mulmod(a, b, f, p):
    r = [0] * (len(a) + len(b) - 1) if a and b else []
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] = (r[i + j] + x * y) % p
    return _divmod(_trim(r), f, p)[1]


def _powmod(base, e, f, p):
    r = [1]
    base = _divmod(base, f, p)[1]
    while e:
        if e & 1:
            r = _mulmod(r, base, f, p)
        base = _mulmod(base, base, f, p)
        e >>= 1
    return r


def _gcd(a, b, p):
    a, b = _trim(list(a)), _trim(list(b))
    while b:
        a, b = b, _divmod(a, b, p)[1]
    ia = pow(a[-1], -1, p)
    return [x * ia % p for x in a]


def _roots(f, p, rng):
    """distinct roots in F_p of f"""
    if len(f) <= 1:
        return []
    out = []
    if f[0] == 0:
        out.append(0)
        while f and f[0] == 0:
            f = f[1:]
        if len(f) <= 1:
            return out
    xp = _powmod([0, 1], p, f, p)
    g = list(xp) + [0] * max(0, 2 - len(xp))
    g[1] = (g[1] - 1) % p
    g = _gcd(f, _trim(g), p) if _trim(list(g)) else _gcd(f, f, p)

    def split(h):
        if len(h) == 2:
            out.append(-h[0] * pow(h[1], -1, p) % p)
            return
        if len(h) < 2:
            return
        while True:
            s = rng.randrange(p)
            t = _powmod([s, 1], (p - 1) // 2, h, p)
            t = list(t) + [0] * max(0, 1 - len(t))
            t[0] = (t[0] - 1) % p
            t = _trim(t)
            if not t:
                continue
            d = _gcd(h, t, p)
            if 1 < len(d) < len(h):
                split(d)
                split(_divmod(h, d, p)[0])
                return
    split(g)
    return out


def _blocks(a, n):
    """strongly connected components of the sparsity pattern (for block-triangular M)"""
    reach = [[bool(a[i][j]) or i == j for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if reach[i][k]:
                rk, ri = reach[k], reach[i]
                for j in range(n):
                    if rk[j]:
                        ri[j] = True
    seen, comps = set(), []
    for i in range(n):
        if i in seen:
            continue
        c = [j for j in range(n) if reach[i][j] and reach[j][i]]
        seen.update(c)
        comps.append(c)
    return comps


def eigs(a, p, rng):
    """eigenvalues with multiplicity of an int matrix over F_p; Resample if not in F_p"""
    n = len(a)
    mult = {}
    for c in _blocks(a, n):
        if len(c) == 1:
            r = a[c[0]][c[0]] % p
            mult[r] = mult.get(r, 0) + 1
            continue
        f = _charpoly([[a[i][j] for j in c] for i in c], p)
        tot = 0
        for r in _roots(f, p, rng):
            g = f
            while True:
                q, rem = _divmod(g, [-r % p, 1], p)
                if rem:
                    break
                g = q
                mult[r] = mult.get(r, 0) + 1
                tot += 1
        if tot != len(c):
            raise Resample("eigenvalues outside F_p")
    return mult


def expm(M):
    """exp of a square matrix of El, exactly: Hermite interpolation of E at the eigenvalues"""
    M = to_el(M)
    n = M.shape[0]
    c = fd.CTX
    p = c.p
    flat = M.reshape(-1)
    out = np.empty((n, n), dtype=object)
    mm = None
    if all(x.m is not None for x in flat):
        try:
            from mpmath import mp as _mp
            mm = _mp.expm(fd.mp.matrix([[M[i, j].m for j in range(n)] for i in range(n)]),
                          method="taylor")
        except Exception:
            mm = None
    if fd.MONLY or any(x.f is None for x in flat):
        for i in range(n):
            for j in range(n):
                out[i, j] = El(None, None if mm is None else mm[i, j])
        return out
    a = [[M[i, j].f for j in range(n)] for i in range(n)]
    key = tuple(x for r in a for x in r)
    cache = c.consts.setdefault("_expm", {})
    if key not in cache:
        mult = eigs(a, p, c.rng)
        # deterministic order helps the lattice of exponents: small multiplicity last
        nodes = []
        for r in sorted(mult, key=lambda r: (r != 0, min(r, p - r))):
            nodes += [r] * mult[r]
        # divided differences of E with repeated nodes
        k = len(nodes)
        Ev = {r: c.E(r) for r in mult}
        fact = [1]
        for i in range(1, k + 1):
            fact.append(fact[-1] * i % p)
        tab = [Ev[r] for r in nodes]
        coef = [tab[0]]
        for lvl in range(1, k):
            new = []
            for i in range(k - lvl):
                if nodes[i] == nodes[i + lvl]:
                    new.append(Ev[nodes[i]] * pow(fact[lvl], -1, p) % p)
                else:
                    new.append((tab[i + 1] - tab[i]) * pow(nodes[i + lvl] - nodes[i], -1, p) % p)
            tab = new
            coef.append(tab[0])
        R = [[coef[-1] if i == j else 0 for j in range(n)] for i in range(n)]
        for lvl in range(k - 2, -1, -1):
            N = [[(a[i][j] - (nodes[lvl] if i == j else 0)) % p for j in range(n)]
                 for i in range(n)]
            R = [[sum(R[i][l] * N[l][j] for l in range(n) if R[i][l] and N[l][j]) % p
                  for j in range(n)] for i in range(n)]
            for i in range(n):
                R[i][i] = (R[i][i] + coef[lvl]) % p
        cache[key] = R
    R = cache[key]
    for i in range(n):
        for j in range(n):
            out[i, j] = El(R[i][j], None if mm is None else mm[i, j])
    return out
