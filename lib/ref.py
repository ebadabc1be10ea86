"""Independent reference model.  Nothing here imports the library under test.

A Ref describes the true lifetime distribution of [x]+s (integer or real s) and the
EPV helpers value benefits by first principles: sums over years (or 1/m years) of
amount x discount x probability, or Gauss-Legendre integrals against the density."""
import math
from functools import lru_cache
import numpy as np

_GX, _GW = np.polynomial.legendre.leggauss(16)
_GX = [(float(x) + 1) / 2 for x in _GX]
_GW = [float(w) / 2 for w in _GW]


def gl(fun, a, b):
    d = b - a
    return d * sum(w * fun(a + d * x) for x, w in zip(_GX, _GW))


class Ref:
    step = 1.0                     # length of the pieces on which the law is smooth

    def S(self, x, s, t):
        raise NotImplementedError

    def f(self, x, s, t):
        raise NotImplementedError

    def mu(self, x, s):
        raise NotImplementedError

    def end(self, x, s):
        """Time after which (numerically) nobody survives."""
        raise NotImplementedError

    # ---- discrete
    def tp(self, x, s, t):
        return self.S(x, s, t)

    def tq(self, x, s, t=1, u=0):
        return self.S(x, s, u) - self.S(x, s, u + t)

    def pieces(self, x, s, a, b):
        pts = [a]
        k = math.floor(a / self.step + 1e-12) * self.step + self.step
        while k < b - 1e-12:
            if k > a + 1e-12:
                pts.append(k)
            k += self.step
        pts.append(b)
        return pts

    def integrate(self, fun, x, s, a, b):
        b = min(b, self.end(x, s))
        if b <= a:
            return 0.
        pts = self.pieces(x, s, a, b)
        return sum(gl(fun, p, q) for p, q in zip(pts, pts[1:]))


class LawRef(Ref):
    """Continuous law of mortality at age y = x+s; with "sel": {g, h} a life selected s
    years ago carries the extra force g exp(-h s), so [x]+s and [x+s] differ."""
    def __init__(self, law):
        self.law = law
        k = law["law"]
        if k in ("makeham", "gompertz"):
            A, B, c = law.get("A", 0.), law["B"], law["c"]
            lc = math.log(c)
            self._H = lambda y, t: A * t + B * c**y * math.expm1(lc * t) / lc
            self._mu = lambda y: A + B * c**y
            self.omega = None
        elif k == "cf":
            m = law["mu"]
            self._H = lambda y, t: m * t
            self._mu = lambda y: m
            self.omega = None
        elif k == "weibull":
            K, n = law["k"], law["n"]
            self._H = lambda y, t: K / (n + 1) * ((y + t)**(n + 1) - y**(n + 1))
            self._mu = lambda y: K * y**n
            self.omega = None
        elif k == "beta":
            w, a = law["omega"], law["alpha"]
            self.omega = w
            self._S = lambda y, t: ((w - y - t) / (w - y))**a if y + t < w else 0.
            self._f = lambda y, t: (a / (w - y)) * ((w - y - t) / (w - y))**(a - 1) if y + t < w else 0.
            self._mu = lambda y: a / (w - y)
        elif k == "pow":                 # l = 1 - (y/omega)**p
            w, p = law["omega"], law["p"]
            self.omega = w
            self._l = lambda y: 1 - (y / w)**p if y < w else 0.
            self._S = lambda y, t: (self._l(y + t) / self._l(y)) if y < w else 0.
            self._f = lambda y, t: (p / w * ((y + t) / w)**(p - 1) / self._l(y)) if y + t < w else 0.
            self._mu = lambda y: (p / w * (y / w)**(p - 1)) / self._l(y)
        else:
            raise ValueError(k)
        if self.omega is None:
            self._S = lambda y, t: math.exp(-self._H(y, t))
            self._f = lambda y, t: math.exp(-self._H(y, t)) * self._mu(y + t)
        self.step = 2.0
        self._end = {}
        self.sel = law.get("sel")

    def extra(self, s):
        return self.sel["g"] * math.exp(-self.sel["h"] * s) if self.sel else 0.

    def Hsel(self, s, t):
        if not self.sel:
            return 0.
        return -self.extra(s) * math.expm1(-self.sel["h"] * t) / self.sel["h"]

    def S(self, x, s, t):
        return self._S(x + s, t) * math.exp(-self.Hsel(s, t))

    def f(self, x, s, t):
        out = self._f(x + s, t)
        if self.sel:
            out = (out + self._S(x + s, t) * self.extra(s + t)) * math.exp(-self.Hsel(s, t))
        return out

    def mu(self, x, s):
        return self._mu(x + s) + self.extra(s)

    def end(self, x, s):
        y = x + s
        if self.omega is not None:
            return max(0., self.omega - y)
        if y not in self._end:
            lo, hi = 0., 1.
            while self._H(y, hi) < 40 and hi < 1e5:
                hi *= 2
            for _ in range(60):
                mid = (lo + hi) / 2
                if self._H(y, mid) < 40:
                    lo = mid
                else:
                    hi = mid
            self._end[y] = math.ceil(hi)
        return self._end[y]

    def pieces(self, x, s, a, b):
        pts = super().pieces(x, s, a, b)
        if self.omega is not None and self.law["law"] == "beta" and abs(b - (self.omega - x - s)) < 1e-9:
            # (omega-y)**alpha is not analytic at omega: geometric refinement there
            last = pts[-2]
            w = b - last
            extra = [b - w / 4**j for j in range(1, 24)]
            pts = pts[:-1] + extra + [b]
        return pts


class TableRef(Ref):
    """One-year mortality rates by attained age, UDD or constant force between ages.
    q: dict age -> q; ages beyond the last have nobody alive."""
    def __init__(self, q, udd=True):
        self.q = {int(k): float(v) for k, v in q.items()}
        self.udd = udd
        self.last = max(self.q)
        self._tp = {}

    def q1(self, x, s):
        return self.q.get(x + s, 1.)

    def tp_int(self, x, s, k):
        key = (x, s, k)
        if key not in self._tp:
            p = 1.
            for j in range(k):
                p *= 1 - self.q1(x, s + j)
                if p == 0:
                    break
            self._tp[key] = p
        return self._tp[key]

    def S(self, x, s, t):
        si = math.floor(s + 1e-12)
        r = s - si
        if r > 1e-12:                       # start at a fractional age
            d = self._S0(x, si, r)
            return self._S0(x, si, r + t) / d if d > 0 else 0.
        return self._S0(x, si, t)

    def _S0(self, x, s, t):
        k = math.floor(t + 1e-12)
        r = t - k
        p = self.tp_int(x, s, k)
        if p == 0 or r <= 1e-12:
            return p
        q = self.q1(x, s + k)
        return p * ((1 - r * q) if self.udd else (1 - q)**r)

    def f(self, x, s, t):
        si = math.floor(s + 1e-12)
        r0 = s - si
        if r0 > 1e-12:
            return self.f(x, si, r0 + t) / self._S0(x, si, r0)
        k = math.floor(t + 1e-12)
        r = t - k
        p = self.tp_int(x, si, k)
        q = self.q1(x, si + k)
        if p == 0:
            return 0.
        if self.udd:
            return p * q
        return p * (1 - q)**r * (-math.log(1 - q))

    def mu(self, x, s):
        k = math.floor(s + 1e-12)
        r = s - k
        q = self.q1(x, k)
        return q / (1 - r * q) if self.udd else -math.log(1 - q)

    def end(self, x, s):
        return max(0., self.last + 1 - x - s)

    def pieces(self, x, s, a, b):
        off = s - math.floor(s + 1e-12)
        pts = [a]
        k = math.floor(a + off + 1e-12) + 1 - off
        while k < b - 1e-12:
            pts.append(k)
            k += 1
        pts.append(b)
        return pts


class SelectRef(TableRef):
    """rows: {age selected: [q_[x], q_[x]+1, ..., q_[x]+n]}; ultimate for s >= n."""
    def __init__(self, rows, udd=True):
        self.rows = {int(k): [float(z) for z in v] for k, v in rows.items()}
        self.n = len(next(iter(self.rows.values()))) - 1
        self.udd = udd
        self.last = max(self.rows) + self.n
        self._tp = {}

    def q1(self, x, s):
        if s > self.n:
            x, s = x + s - self.n, self.n
        return self.rows[x][s] if x in self.rows else 1.


# ------------------------------------------------------------------ EPVs
def _term(R, x, s, u, t):
    """last integer duration to sum to (exclusive)"""
    e = math.ceil(R.end(x, s) - 1e-9)
    return e if t is None else min(e, u + t)


def ins(R, v, x, s=0, t=None, u=0, b=None, moment=1, discrete=True, end=0.):
    """EPV of death benefit b(k) (k = year of payment, or exact time) in (u, u+t], plus
    `end` paid on survival to u+t."""
    b = b or (lambda k: 1.)
    if discrete:
        n = _term(R, x, s, u, t)
        tot, S = 0., R.S(x, s, u)
        for k in range(u, n):
            S1 = R.S(x, s, k + 1)
            tot += (b(k + 1) * v**(k + 1))**moment * (S - S1)
            S = S1
    else:
        hi = R.end(x, s) if t is None else min(R.end(x, s), u + t)
        tot = R.integrate(lambda z: (b(z) * v**z)**moment * R.f(x, s, z), x, s, u, hi)
    if end and t is not None:
        tot += (end * v**(u + t))**moment * R.S(x, s, u + t)
    return tot


def ann(R, v, x, s=0, t=None, u=0, b=None, discrete=True):
    b = b or (lambda k: 1.)
    if discrete:
        n = _term(R, x, s, u, t)
        return math.fsum(b(k) * v**k * R.S(x, s, k) for k in range(u, n))
    hi = R.end(x, s) if t is None else min(R.end(x, s), u + t)
    return R.integrate(lambda z: b(z) * v**z * R.S(x, s, z), x, s, u, hi)


def annsum(v, n, discrete=True, m=1):
    """annuity-certain-due of n payments / continuous over n years"""
    if discrete:
        return math.fsum(v**(k / m) / m for k in range(n))
    if v == 1:
        return n
    return -math.expm1(n * math.log(v)) / -math.log(v)


def ann_moments(R, v, x, s=0, t=None, discrete=True):
    """mean and variance of the PV of a (temporary) annuity, from the law of the PV itself"""
    if discrete:
        n = _term(R, x, s, 0, t)
        pv, m1, m2 = 0., 0., 0.
        for k in range(n):
            pv += v**k
            pr = R.S(x, s, k) - R.S(x, s, k + 1) if k < n - 1 else R.S(x, s, k)
            m1 += pr * pv
            m2 += pr * pv * pv
        return m1, m2 - m1 * m1
    hi = R.end(x, s) if t is None else min(R.end(x, s), t)
    m1 = R.integrate(lambda z: v**z * R.S(x, s, z), x, s, 0, hi)
    # E[Y^2] = int 2 Y(z) v^z S(z) dz
    m2 = R.integrate(lambda z: 2 * annsum(v, z, False) * v**z * R.S(x, s, z), x, s, 0, hi)
    return m1, m2 - m1 * m1


def expect(R, x, s=0, t=None, curtate=True, moment=1):
    """moments of min(K,t) / min(T,t)"""
    if curtate:
        n = _term(R, x, s, 0, t)
        m1 = math.fsum(R.S(x, s, k) for k in range(1, n + 1))
        m2 = math.fsum((2 * k - 1) * R.S(x, s, k) for k in range(1, n + 1))
    else:
        hi = R.end(x, s) if t is None else min(R.end(x, s), t)
        m1 = R.integrate(lambda z: R.S(x, s, z), x, s, 0, hi)
        m2 = R.integrate(lambda z: 2 * z * R.S(x, s, z), x, s, 0, hi)
    return {1: m1, 2: m2, -2: m2 - m1 * m1}[moment]


# m-thly
def ins_m(R, v, x, s=0, t=None, u=0, m=1, moment=1, b=1., end=0.):
    e = R.end(x, s)
    n = math.ceil(e * m - 1e-9) if t is None else min(math.ceil(e * m - 1e-9), (u + t) * m)
    tot = 0.
    for j in range(u * m, n):
        tot += (b * v**((j + 1) / m))**moment * (R.S(x, s, j / m) - R.S(x, s, (j + 1) / m))
    if end and t is not None:
        tot += (end * v**(u + t))**moment * R.S(x, s, u + t)
    return tot


def ann_m(R, v, x, s=0, t=None, u=0, m=1, b=1.):
    e = R.end(x, s)
    n = math.ceil(e * m - 1e-9) if t is None else min(math.ceil(e * m - 1e-9), (u + t) * m)
    return math.fsum(b / m * v**(j / m) * R.S(x, s, j / m) for j in range(u * m, n))


class FracRef(TableRef):
    """Annual rates of another model, interpolated by UDD or constant force."""
    def __init__(self, R, udd):
        self.R, self.udd, self._tp = R, udd, {}
        self.last = None

    def q1(self, x, s):
        d = self.R.S(x, s, 0)
        if self.R.end(x, s) <= 0:
            return 1.
        return 1 - self.R.S(x, s, 1)

    def end(self, x, s):
        return math.ceil(self.R.end(x, s) - 1e-9)
