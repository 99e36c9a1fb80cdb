"""Exact rational oracles for polynomials.  Floats are converted without rounding."""
from fractions import Fraction as F

import numpy as np

EPS = 2.0 ** -52


def fr(x):
    return [F(float(i)) for i in np.asarray(x, dtype=float).ravel()]


def mul(a, b):
    """Product of polynomials given by ascending coefficients."""
    r = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def val(p, x):
    s = F(0)
    for c in reversed(p):
        s = s * x + c
    return s


def der(p):
    return [c * k for k, c in enumerate(p)][1:] or [F(0)]


def integ(p):
    return [F(0)] + [c / (k + 1) for k, c in enumerate(p)]


class Lagrange(object):
    """Lagrange basis of the given nodes, exactly."""
    def __init__(self, nodes):
        self.x = fr(nodes)
        self.n = n = len(self.x)
        self.w = []
        for j in range(n):
            d = F(1)
            for r in range(n):
                if r != j:
                    d *= self.x[j] - self.x[r]
            self.w.append(1 / d)
        self._coef = None

    @property
    def coef(self):
        if self._coef is None:
            self._coef = []
            for j in range(self.n):
                p = [self.w[j]]
                for r in range(self.n):
                    if r != j:
                        p = mul(p, [-self.x[r], F(1)])
                self._coef.append(p)
        return self._coef

    def row(self, t):
        """Values of all basis polynomials at t (a Fraction)."""
        out = []
        for j in range(self.n):
            v = self.w[j]
            for r in range(self.n):
                if r != j:
                    v *= t - self.x[r]
            out.append(v)
        return out

    def absrow(self, t):
        """Upper bound of the intermediate magnitudes when the monomial form is evaluated at |t|."""
        out = []
        for j in range(self.n):
            v = abs(self.w[j])
            for r in range(self.n):
                if r != j:
                    v *= abs(t) + abs(self.x[r])
            out.append(v)
        return out

    def D(self):
        """D[j][k] = derivative of basis polynomial k at node j."""
        n, x, w = self.n, self.x, self.w
        M = [[F(0)] * n for _ in range(n)]
        for j in range(n):
            for k in range(n):
                if j != k:
                    M[j][k] = w[k] / w[j] / (x[j] - x[k])
            M[j][j] = -sum(M[j][k] for k in range(n) if k != j)
        return M


def fl(x):
    return np.array([float(i) for i in x])


def flm(x):
    return np.array([[float(i) for i in r] for r in x]) if len(x) else np.zeros((0, 0))


def legendre(n):
    """Shifted Legendre polynomial on [0, 1], ascending coefficients."""
    a, b = [F(1)], [F(-1), F(2)]
    if n == 0:
        return a
    for k in range(1, n):
        t = [F(2 * k + 1, k + 1) * c for c in mul([F(-1), F(2)], b)]
        for i, c in enumerate(a):
            t[i] -= F(k, k + 1) * c
        a, b = b, t
    return b


def radau(n):
    """Polynomial whose roots are the right Radau points on [0, 1]."""
    p, q = legendre(n), legendre(n - 1)
    return [c - (q[i] if i < len(q) else 0) for i, c in enumerate(p)]


def is_root(p, x, delta=F(1, 10 ** 12)):
    """A root of p within delta of x (decided by the sign change; p(x) == 0 also counts)."""
    x = F(float(x))
    if val(p, x) == 0:
        return True
    return (val(p, x - delta) < 0) != (val(p, x + delta) < 0)
