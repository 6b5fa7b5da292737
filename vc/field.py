"""The value domain of the verifier.

Every float of a traced program is evaluated, at once, in two domains:

  f : an element of a prime field F_p (p of 61 bits).  Independent random field
      elements stand for the free real variables, so that two terms of the
      theory (rational functions, square roots of positive terms, exponentials
      and circular functions) which are equal for all reals are equal in F_p,
      and two terms which are not are equal with probability <= degree/p
      (Schwartz-Zippel).  Positive reals are sampled in the subgroup of 8th
      powers, which has odd order, so that every positive element has exactly
      one positive square root.  exp is a homomorphism from the additive
      lattice spanned by the arguments that occur to that subgroup; sin, cos,
      sinh, cosh and tanh are defined from it with i = sqrt(-1) in F_p.
  m : a 60-digit real number (mpmath), a witness point of the same path; it
      decides the branches and makes counterexamples concrete.  May be None.

f is None: undefined (nan/inf), e.g. a division by zero in a branch not taken.
"""
import random
from fractions import Fraction
import math
import numpy as np
import mpmath as mp

mp.mp.dps = 50

PRIMES = [2084849776418507641, 1196372095784570329, 1516044069144003961]


class Resample(Exception):
    """The random point falls outside the canonical model (e.g. no square root)."""


class Undecided(Exception):
    """Outside the verifier's reach; says nothing about the code."""


D_EXP = 720720
ANYROOT = False
MONLY = False   # witness-only evaluation (float64 replays): f may be None


class Ctx:
    def __init__(self, prime, seed):
        self.p = prime
        self.seed = seed
        self.rng = random.Random(f"{seed}|{prime}")
        self.m = (prime - 1) // 8
        while True:
            g = self.rng.randrange(2, prime)
            r = pow(g, (prime - 1) // 4, prime)
            if r * r % prime == prime - 1:
                self.i = r
                break
        self.reset()

    def reset(self):
        self.gens = []          # (value, base) with E(c*value) = base^(c*D)
        self.cache = {0: 1}     # argument -> image of exp
        self.consts = {}
        self.logs = {}
        self.trace = []         # comparison log of the current run
        self.inexact = False
        self.poison = False
        self.badix = None       # which matrix of a batch had no square root
        self.pi = None

    def rand(self):
        return self.rng.randrange(1, self.p)

    def randpos(self):
        return pow(self.rng.randrange(2, self.p), 8, self.p)

    def inv(self, a):
        return pow(a, -1, self.p)

    def is_pos(self, a):
        return pow(a, self.m, self.p) == 1

    def sqrt(self, a):
        """canonical square root of a positive element"""
        a %= self.p
        if a == 0:
            return 0
        if not self.is_pos(a):
            raise Resample("sqrt")
        return pow(a, (self.m + 1) // 2, self.p)

    def const(self, key):
        """a transcendental constant: a fixed random positive element"""
        if key not in self.consts:
            self.consts[key] = self.randpos()
        return self.consts[key]

    # exp as a homomorphism on the lattice of arguments seen so far
    def ratrec(self, c, bound=4000):
        """c = a/b with small a, b, or None"""
        p = self.p
        r0, r1, s0, s1 = p, c % p, 0, 1
        while r1 > bound:
            q = r0 // r1
            r0, r1 = r1, r0 - q * r1
            s0, s1 = s1, s0 - q * s1
        if s1 == 0 or abs(s1) > 64:
            return None
        fr = Fraction(r1, s1)
        if D_EXP % fr.denominator:
            return None
        return fr

    def E(self, x):
        p = self.p
        x %= p
        if x in self.cache:
            return self.cache[x]
        r = self._lattice(x, self.gens)
        if r is None:
            g = self.randpos()
            self.gens.append((x, g, self.inv(x)))
            r = {len(self.gens) - 1: Fraction(1)}
        v = 1
        for k, c in r.items():
            e = c * D_EXP
            assert e.denominator == 1
            v = v * pow(self.gens[k][1], int(e), p) % p
        self.cache[x] = v
        self.cache[-x % p] = self.inv(v)
        return v

    def _lattice(self, x, gens):
        """small rational combination of the generators equal to x (LLL), or None"""
        for k in range(len(gens) - 1, -1, -1):
            fr = self.ratrec(x * gens[k][2])
            if fr is not None:
                return {k: fr}
        n = len(gens)
        if n < 2:
            return None
        if n > 8:
            gens, off = gens[-8:], n - 8
        else:
            off = 0
        n = len(gens)
        # b*x = sum a_k g_k (mod p): lattice of (b, a_1..a_n) with the congruence
        ix = self.inv(gens[0][0])
        rows = [[1] + [0] * (n - 1) + [x * ix % self.p]]
        # coordinates: (b, a_2..a_n, a_1)
        for k in range(1, n):
            r = [0] * (n + 1)
            r[k] = 1
            r[n] = -gens[k][0] * ix % self.p
            rows.append(r)
        rows.append([0] * n + [self.p])
        red = _lll(rows)
        bound = 40 if n <= 4 else 24
        for r in red:
            b = r[0]
            if b == 0 or max(abs(v) for v in r) > bound or abs(b) > 12:
                continue
            co = {0: Fraction(r[n], b)}
            for k in range(1, n):
                if r[k]:
                    co[k] = Fraction(r[k], b)
            if all(D_EXP % c.denominator == 0 for c in co.values()):
                return {k + off: c for k, c in co.items() if c}
        return None

    def register_exp(self, x, image):
        self.cache[x % self.p] = image % self.p
        self.cache[-x % self.p] = self.inv(image)


def _lll(B, delta=Fraction(3, 4)):
    """LLL reduction of integer rows (floating-point free, small dimension)"""
    B = [list(r) for r in B]
    n = len(B)

    def dot(u, v):
        return sum(a * b for a, b in zip(u, v))
    d = [1] + [0] * n          # integral LLL (Cohen 2.6.7)
    lam = [[0] * n for _ in range(n)]
    k, kmax = 1, 0
    d[1] = dot(B[0], B[0])

    def red(k, l):
        if 2 * abs(lam[k][l]) <= d[l + 1]:
            return
        q = (2 * lam[k][l] + d[l + 1]) // (2 * d[l + 1])
        B[k] = [a - q * b for a, b in zip(B[k], B[l])]
        lam[k][l] -= q * d[l + 1]
        for i in range(l):
            lam[k][i] -= q * lam[l][i]

    while k < n:
        if k > kmax:
            kmax = k
            for j in range(k + 1):
                u = dot(B[k], B[j])
                for i in range(j):
                    u = (d[i + 1] * u - lam[k][i] * lam[j][i]) // d[i]
                if j < k:
                    lam[k][j] = u
                else:
                    d[k + 1] = u
        red(k, k - 1)
        if 4 * (d[k + 1] * d[k - 1] + lam[k][k - 1] ** 2) < 3 * d[k] ** 2:
            B[k], B[k - 1] = B[k - 1], B[k]
            for j in range(k - 1):
                lam[k][j], lam[k - 1][j] = lam[k - 1][j], lam[k][j]
            la = lam[k][k - 1]
            b = (d[k - 1] * d[k + 1] + la * la) // d[k]
            for i in range(k + 1, kmax + 1):
                t = lam[i][k]
                lam[i][k] = (d[k + 1] * lam[i][k - 1] - la * t) // d[k]
                lam[i][k - 1] = (b * t + la * lam[i][k]) // d[k + 1]
            d[k] = b
            k = max(1, k - 1)
        else:
            for l in range(k - 2, -1, -1):
                red(k, l)
            k += 1
    return B


CTX = Ctx(PRIMES[0], 0)


def set_ctx(c):
    global CTX
    CTX = c


def _mp(v):
    return v if isinstance(v, mp.mpf) else (mp.mpf(v.numerator) / v.denominator
                                           if isinstance(v, Fraction) else mp.mpf(v))


INF = mp.inf
NAN = mp.nan


def _ms(fn):
    try:
        return fn()
    except ZeroDivisionError:
        return NAN
    except (ValueError, OverflowError):
        return NAN


class El:
    """A real value: field element f (None: undefined) and witness m (or None)."""
    __slots__ = ("f", "m", "lin")

    def __init__(self, f, m=None, lin=None):
        self.f = f
        self.m = m
        self.lin = lin

    # -- helpers
    @staticmethod
    def of(x):
        if isinstance(x, (El, Cx)):
            return x
        return lift(x)

    def __repr__(self):
        return f"El({self.f},{None if self.m is None else mp.nstr(self.m, 8)})"

    def __bool__(self):
        raise TypeError("truth value of El")

    def _bin(self, o):
        if isinstance(o, Cx):
            return None
        if not isinstance(o, El):
            o = lift(o)
        return o

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, EL0) + o
        if type(o) is not El:
            o = lift(o)
        a, b = self.f, o.f
        f = None if a is None or b is None else (a + b) % CTX.p
        m = None if self.m is None or o.m is None else self.m + o.m
        lin = None
        if self.lin is not None or o.lin is not None:
            lin = _lin_add(_lin_of(self), _lin_of(o), 1)
        return El(f, m, lin)

    __radd__ = __add__

    def __neg__(self):
        return El(None if self.f is None else -self.f % CTX.p,
                  None if self.m is None else -self.m,
                  None if self.lin is None else {k: -v for k, v in self.lin.items()})

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, EL0) - o
        if type(o) is not El:
            o = lift(o)
        a, b = self.f, o.f
        f = None if a is None or b is None else (a - b) % CTX.p
        m = None if self.m is None or o.m is None else self.m - o.m
        lin = None
        if self.lin is not None or o.lin is not None:
            lin = _lin_add(_lin_of(self), _lin_of(o), -1)
        return El(f, m, lin)

    def __rsub__(self, o):
        return El.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self * o.re, self * o.im)
        if type(o) is not El:
            o = lift(o)
        a, b = self.f, o.f
        f = None if a is None or b is None else a * b % CTX.p
        m = None if self.m is None or o.m is None else self.m * o.m
        lin = None
        if self.lin is not None and o.lin is None:
            lin = _lin_scale(self.lin, o)
        elif o.lin is not None and self.lin is None:
            lin = _lin_scale(o.lin, self)
        return El(f, m, lin)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, EL0) / o
        if type(o) is not El:
            o = lift(o)
        a, b = self.f, o.f
        if a is None or b is None or b == 0:
            f = None
            # x/inf = 0 (e.g. 1/inf in masked code)
            if b is None and o.m is not None and mp.isinf(o.m) and a is not None:
                f = 0
        else:
            f = a * pow(b, -1, CTX.p) % CTX.p
        if self.m is None or o.m is None:
            m = None
        elif o.m == 0:
            m = NAN if self.m == 0 or mp.isnan(self.m) else (INF if self.m > 0 else -INF)
        else:
            m = self.m / o.m
        lin = None
        if self.lin is not None and o.lin is None and b:
            lin = _lin_scale(self.lin, EL1 / o)
        return El(f, m, lin)

    def __rtruediv__(self, o):
        return El.of(o) / self

    def __pow__(self, n):
        if isinstance(n, int):
            if n < 0:
                return EL1 / (self ** (-n))
            return El(None if self.f is None else pow(self.f, n, CTX.p),
                      None if self.m is None else self.m ** n)
        return el_pow(self, n)

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return EL0

    def iszero(self):
        return self.f == 0

    def defined(self):
        return self.f is not None


def _lin_of(e):
    return e.lin if e.lin is not None else ({("v", e.f): Fraction(1)} if e.f else {})


def _lin_add(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r


def _lin_scale(lin, o):
    c = CTX.ratrec(o.f) if o.f is not None else None
    if c is None or o.m is None or abs(o.m - mp.mpf(c.numerator) / c.denominator) > mp.mpf("1e-40"):
        return None
    return {k: v * c for k, v in lin.items()} if c else None


class Cx:
    """A complex value: a pair of El."""
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, Cx):
            return x
        if isinstance(x, complex):
            return Cx(lift(x.real), lift(x.imag))
        return Cx(El.of(x), EL0)

    def __repr__(self):
        return f"Cx({self.re},{self.im})"

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, El):
            return Cx(self.re * o, self.im * o)
        o = Cx.of(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        n = o.re * o.re + o.im * o.im
        r = self * Cx(o.re, -o.im)
        return Cx(r.re / n, r.im / n)

    def __rtruediv__(self, o):
        return Cx.of(o) / self

    def __pow__(self, n):
        r = Cx(EL1, EL0)
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else Cx(EL1, EL0) / r

    def conj(self):
        return Cx(self.re, -self.im)

    conjugate = conj

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def f(self):
        return None if self.re.f is None or self.im.f is None else (self.re.f or self.im.f)

    @property
    def m(self):
        if self.re.m is None or self.im.m is None:
            return None
        return mp.sqrt(self.re.m ** 2 + self.im.m ** 2)

    def iszero(self):
        return self.re.f == 0 and self.im.f == 0

    def defined(self):
        return self.re.f is not None and self.im.f is not None


EL0 = El(0, mp.mpf(0))
EL1 = El(1, mp.mpf(1))


def frac(fr):
    fr = Fraction(fr)
    return El(fr.numerator * pow(fr.denominator, -1, CTX.p) % CTX.p,
              mp.mpf(fr.numerator) / fr.denominator)


def sqrt_frac(fr):
    """sqrt of a positive rational: only for products of small primes (8th powers in F_p)"""
    fr = Fraction(fr)
    f = fr.numerator * pow(fr.denominator, -1, CTX.p) % CTX.p
    return El(CTX.sqrt(f), mp.sqrt(mp.mpf(fr.numerator) / fr.denominator))


def pi_el():
    return El(CTX.const("pi"), +mp.pi)


_lift_cache = {}


def lift(x):
    """A float/int literal of the program as the real number it stands for."""
    if isinstance(x, (El, Cx)):
        return x
    if isinstance(x, complex):
        return Cx(lift(x.real), lift(x.imag))
    if isinstance(x, (bool,)):
        return EL1 if x else EL0
    if isinstance(x, Fraction):
        return frac(x)
    try:
        import numpy as np
        if isinstance(x, (np.integer,)):
            x = int(x)
        elif isinstance(x, np.bool_):
            x = int(x)
        elif isinstance(x, np.complexfloating):
            return lift(complex(x))
        elif isinstance(x, np.floating):
            x = float(x)
    except ImportError:
        pass
    if isinstance(x, int):
        return El(x % CTX.p, mp.mpf(x))
    if not isinstance(x, float):
        raise Undecided(f"cannot lift {type(x)}")
    if math.isnan(x):
        return El(None, NAN)
    if math.isinf(x):
        return El(None, INF if x > 0 else -INF)
    if x == int(x) and abs(x) < 2 ** 53:
        return El(int(x) % CTX.p, mp.mpf(int(x)))
    kind = _lift_cache.get(x)
    if kind is None:
        kind = _classify(x)
        _lift_cache[x] = kind
    if kind[0] == "q":
        return frac(kind[1])
    if kind[0] == "s":
        sgn, fr = kind[1]
        try:
            r = sqrt_frac(fr)
        except Resample:
            CTX.inexact = True
            return frac(Fraction(x))
        return r if sgn > 0 else -r
    if kind[0] == "p":
        fr, e = kind[1]
        r = frac(fr)
        pe = pi_el()
        for _ in range(abs(e)):
            r = r * pe if e > 0 else r / pe
        return r
    if kind[0] == "l":      # multiple of log n
        fr, n = kind[1]
        return el_log(lift(n)) * frac(fr)
    CTX.inexact = True
    return frac(kind[1])


def _smooth(n):
    for q in (2, 3, 5, 7, 11, 13):
        while n % q == 0:
            n //= q
    return n == 1


def _classify(x):
    digits = repr(abs(x)).replace(".", "").split("e")[0].strip("0")
    if len(digits) <= 13:
        return ("q", Fraction(repr(x)))
    fr = Fraction(x).limit_denominator(20000)
    if fr and abs(float(fr) - x) <= abs(x) * 2.3e-16 and abs(fr.numerator) < 2 ** 22:
        return ("q", fr)
    fr = Fraction(x * x).limit_denominator(2000)
    if fr and fr.numerator < 100000 and abs(math.sqrt(fr) - abs(x)) <= abs(x) * 4.6e-16 \
            and _smooth(fr.numerator) and _smooth(fr.denominator):
        return ("s", (1 if x > 0 else -1, fr))
    for e in (1, -1, 2, -2):
        y = x / math.pi ** e
        fr = Fraction(y).limit_denominator(2000)
        if fr and abs(float(fr) - y) <= abs(y) * 9e-16 and abs(fr.numerator) < 100000:
            return ("p", (fr, e))
    for n in (2, 3, 5):
        y = x / math.log(n)
        fr = Fraction(y).limit_denominator(64)
        if fr and abs(float(fr) - y) <= abs(y) * 9e-16:
            return ("l", (fr, n))
    return ("i", Fraction(x))


# ---- elementary functions -------------------------------------------------

def el_sqrt(x):
    x = El.of(x)
    if ANYROOT and not MONLY and x.f is not None and not CTX.is_pos(x.f):
        # an arbitrary but fixed root: sound for identities in one radicand at a time
        from .linalg import anysqrt
        return anysqrt(x)
    try:
        f = None if x.f is None else CTX.sqrt(x.f)
    except Resample:
        if not MONLY:
            raise
        f = None
    if x.m is not None and x.m < 0:
        return El(None, NAN)
    return El(f, None if x.m is None else (mp.sqrt(x.m) if not mp.isnan(x.m) else NAN))


def el_exp(x):
    if isinstance(x, Cx):
        e = el_exp(x.re)
        return Cx(e * el_cos(x.im), e * el_sin(x.im))
    x = El.of(x)
    m = None if x.m is None else mp.exp(x.m) if x.m < 1e6 else INF
    if x.f is None:
        if x.m is not None and x.m == -INF:
            return El(0, mp.mpf(0))
        return El(None, m)
    if x.lin is not None:
        # exp of a linear combination of logarithms (and opaque terms)
        v, rest = 1, 0
        for k, c in x.lin.items():
            if k[0] == "log":
                if c.denominator == 1:
                    v = v * pow(k[1], int(c), CTX.p) % CTX.p
                elif c.denominator == 2:
                    v = v * pow(CTX.sqrt(k[1]), int(2 * c), CTX.p) % CTX.p
                else:
                    raise Undecided("exp of fractional log")
            else:
                rest += c.numerator * pow(c.denominator, -1, CTX.p) * k[1]
        if rest % CTX.p:
            v = v * CTX.E(rest) % CTX.p
        return El(v, m)
    return El(CTX.E(x.f), m)


def el_log(x):
    x = El.of(x)
    if x.f is None:
        return El(None, NAN if x.m is None or mp.isnan(x.m) else x.m)
    m = None
    if x.m is not None:
        m = mp.log(x.m) if x.m > 0 else (-INF if x.m == 0 else NAN)
        if x.m <= 0:
            return El(None, m)
    if x.f == 1 and (x.m is None or x.m == 1):
        return EL0
    if x.f not in CTX.logs:
        CTX.logs[x.f] = CTX.rand()
    return El(CTX.logs[x.f], m, {("log", x.f): Fraction(1)})


def _isq(x):
    """exp(i x), exp(-i x) in F_p"""
    a = CTX.E(CTX.i * x % CTX.p)
    return a, CTX.inv(a)


def el_sin(x):
    x = El.of(x)
    f = None
    if x.f is not None:
        a, b = _isq(x.f)
        f = (a - b) * CTX.inv(2 * CTX.i) % CTX.p
    return El(f, None if x.m is None else mp.sin(x.m))


def el_cos(x):
    x = El.of(x)
    f = None
    if x.f is not None:
        a, b = _isq(x.f)
        f = (a + b) * CTX.inv(2) % CTX.p
    return El(f, None if x.m is None else mp.cos(x.m))


def el_sinh(x):
    e = el_exp(x)
    return (e - EL1 / e) / lift(2)


def el_cosh(x):
    e = el_exp(x)
    return (e + EL1 / e) / lift(2)


def el_tanh(x):
    return el_sinh(x) / el_cosh(x)


def el_expm1(x):
    return el_exp(x) - EL1


def el_log1p(x):
    return el_log(El.of(x) + EL1)


def el_lgamma(x):
    x = El.of(x)
    if x.m is None or x.m != int(x.m) or x.m <= 0 or x.f != int(x.m) % CTX.p:
        raise Undecided("lgamma of a non-integer")
    n = int(x.m)
    return el_log(lift(math.factorial(n - 1)))


def el_pow(x, y):
    x, y = El.of(x), El.of(y)
    c = CTX.ratrec(y.f) if y.f is not None else None
    if c is not None and y.m is not None and y.m == mp.mpf(c.numerator) / c.denominator:
        if c.denominator == 1:
            return x ** int(c)
        if c.denominator == 2:
            return el_sqrt(x) ** int(2 * c)
    return el_exp(y * el_log(x))


def cmp_eq(a, b):
    """Are the two reals equal, at this point of this path?"""
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return cmp_eq(a.re, b.re) and cmp_eq(a.im, b.im)
    if a.f is None or b.f is None:
        if a.m is not None and b.m is not None and not mp.isnan(a.m) and not mp.isnan(b.m):
            return a.m == b.m
        return False
    if a.f != b.f:
        if a.m is not None and b.m is not None:
            if a.m == b.m:
                if MONLY:
                    return True
                raise Resample("field and witness disagree on equality")
        return False
    if a.m is not None and b.m is not None:
        d = abs(a.m - b.m)
        if d > mp.mpf("1e-30") * (abs(a.m) + abs(b.m)) and d > mp.mpf("1e-40"):
            raise Resample("field and witness disagree on inequality")
    return True


def cmp_lt(a, b):
    if a.f is None or b.f is None:
        if a.m is None or b.m is None:
            if (a.f is None and a.m is None) or (b.f is None and b.m is None):
                return False
            raise Undecided("comparison without witness")
        return bool(a.m < b.m)
    if a.f == b.f:
        if a.m is not None and b.m is not None:
            cmp_eq(a, b)
        return False
    if a.m is None or b.m is None:
        raise Undecided("comparison without witness")
    return bool(a.m < b.m)
