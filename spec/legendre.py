"""Specification: semi-normalised associated Legendre functions
P_n^m(x) = (-1)^m sqrt((n-m)!/(n+m)!) (1-x^2)^{m/2} d^m/dx^m P_n(x)."""
from fractions import Fraction
from math import factorial
from dv import terms as t


def pderiv(c):
    return [i * c[i] for i in range(1, len(c))]


_l = {}


def legendre(n):
    if n in _l:
        return _l[n]
    a, b = [Fraction(1)], [Fraction(0), Fraction(1)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [Fraction(0)] * (k + 2)
        for i, v in enumerate(b):
            c[i + 1] += Fraction(2 * k + 1, k + 1) * v
        for i, v in enumerate(a):
            c[i] -= Fraction(k, k + 1) * v
        a, b = b, c
    _l[n] = b
    return b


def poly_term(c, x):
    r = t.R(0)
    for i, v in enumerate(c):
        r = t.add(r, t.scale(v, t.powi(x, i)) if i else t.R(v))
    return r


def spec(models, n, m, x, d=0, s=None):
    """value (d=0) or x-derivative (d=1); s stands for sqrt(1-x^2)."""
    if s is None:
        s = models.sqrt(t.sub(t.R(1), t.mul(x, x)))
    c = legendre(n)
    for _ in range(m):
        c = pderiv(c)
    nrm = t.scale((-1) ** m, models.sqrt(t.R(Fraction(factorial(n - m), factorial(n + m)))))
    if not d:
        return t.mul(nrm, t.mul(poly_term(c, x), t.powi(s, m)) if m else poly_term(c, x))
    a = t.mul(poly_term(pderiv(c), x), t.powi(s, m)) if m else poly_term(pderiv(c), x)
    if m:
        b = t.mul(t.scale(-m, x), poly_term(c, x))
        b = t.mul(b, t.powi(s, m - 2)) if m >= 2 else t.div(b, s)
        a = t.add(a, b)
    return t.mul(nrm, a)
