"""Shared setup and specification for the multipole / local expansions."""
from fractions import Fraction
Frac = Fraction
from math import factorial
from dv import terms as t
from dv.exec import St
from dv.vals import *

ALF = 'AssLegFunction'
ME, LE = 'MultipoleExpansion', 'LocalExpansion'
PMAX = 10


def pnm(n, m, x):
    return t.app('Pnm', (t.I(n), t.I(m), x), 'R')


def dpnm(n, m, x):
    return t.app('dPnm', (t.I(n), t.I(m), x), 'R')


def contracts(ctx, ex):
    """Callee contracts: the Legendre functions (established by P01)."""
    def get(d):
        def h(ex, st, this, args, node):
            n, m, x = [ex.rv(st, a) for a in args]
            if n.op != 'c' or m.op != 'c':
                raise Unsupported('symbolic Legendre index')
            if not (0 <= m.val <= n.val <= 20):
                from dv.exec import Violated
                raise Violated('precondition', 'Legendre function requested for degree %s order %s (tabulated: 0 <= order <= degree <= 20)' % (n.val, m.val))
            return (dpnm if d else pnm)(int(n.val), int(m.val), t.toR(x))
        return h
    ex.contracts[(ALF, 'GetAssLegFunSph')] = get(0)
    ex.contracts[(ALF, 'GetAssLegFunSphDeriv')] = get(1)
    ctx.notes.append('callee contract: AssLegFunction::GetAssLegFunSph / GetAssLegFunSphDeriv (proved under P01)')


def fresh(ex, st, name, cls, p, center, coeffs=None, is_zero=None):
    """An expansion built by the real constructor, then filled through SetCoeff."""
    alf = ('alf',)
    st.store.setdefault(alf, Struct(ALF, {}, lambda k: ex.mk_sym(ex.field_type(ALF, k), 'alf.' + k)))
    lv = LV((name,))
    ex.write(st, lv, ex.construct_repo(st, cls, 'void (const unsigned int, const Point<3> &, const AssLegFunction *)',
                                       [t.I(p), ex.tmp(st, center), Ptr(alf)], None))
    if coeffs is not None:
        for (n, m), c in coeffs.items():
            if n <= p:
                ex.call(st, ex.prog.one(cls, 'SetCoeff'), lv, [t.I(n), t.I(m), ex.tmp(st, c)])
    if is_zero is not None:
        ex.write(st, LV((name,), ('is_zero',)), is_zero)
    return lv


def coeff(ex, st, lv, cls, n, m):
    return ex.rv(st, ex.call(st, ex.prog.one(cls, 'GetCoeff'), lv, [t.I(n), t.I(m)]))


def syms(name, p):
    # object invariant: the order-zero coefficients are real
    return {(n, m): Cx(t.var('%s%d_%d.re' % (name, n, m), 'R'), t.var('%s%d_%d.im' % (name, n, m), 'R') if m else t.R(0))
            for n in range(p + 1) for m in range(n + 1)}


def invariant(ctx, ex, st, lv, cls, p, what):
    for n in range(p + 1):
        ctx.eq('%s: invariant: coefficient %d,0 is real' % (what, n), st.pc, coeff(ex, st, lv, cls, n, 0).im, t.R(0))


def point(name):
    return Tup([t.var(name + c, 'R') for c in 'xyz'])


class Geo:
    """Relative position in spherical coordinates."""

    def __init__(self, ex, q, c):
        M = ex.models
        self.d = [t.sub(a, b) for a, b in zip(q.items, c.items)]
        self.r2 = M.dot(Tup(self.d), Tup(self.d))
        self.rho = M.sqrt(self.r2)
        self.cos = t.div(self.d[2], self.rho)
        self.beta = t.app('atan2', (self.d[1], self.d[0]), 'R')
        self.M = M

    def e(self, m):
        """exp(i m beta)"""
        if m == 0:
            return Cx(t.R(1), t.R(0))
        a = t.scale(abs(m), self.beta)
        s = t.app('sin', (a,), 'R')
        return Cx(t.app('cos', (a,), 'R'), s if m > 0 else t.neg(s))

    def pw(self, k):
        return self.M.pow(self.rho, t.I(k))


def A(M, n, m):
    """(-1)^n / sqrt((n-m)!(n+m)!)"""
    return t.div(t.R((-1) ** n), M.sqrt(t.R(factorial(n - abs(m)) * factorial(n + abs(m)))))


def ipow(k):
    """real part of i^k; the exponents in the translation theorems are even"""
    assert k % 2 == 0
    return 1 if k % 4 == 0 else -1


def cadd(a, b):
    return Cx(t.add(a.re, b.re), t.add(a.im, b.im))


def csc(a, r):
    return Cx(t.mul(a.re, r), t.mul(a.im, r))


def conj(a):
    return Cx(a.re, t.neg(a.im))


def sgn(co, n, m):
    """coefficient of order m from the stored non-negative orders"""
    return co[n, m] if m >= 0 else conj(co[n, -m])


ZERO = None


def czero():
    return Cx(t.R(0), t.R(0))


def csum(xs):
    re = t.R(0)
    im = t.R(0)
    rs, is_ = [], []
    r = czero()
    for x in xs:
        r = cadd(r, x)
    return r


def m2m(M, co, g, n, m):
    xs = []
    for nn in range(n + 1):
        for mm in range(-nn, nn + 1):
            if abs(m - mm) > n - nn:
                continue
            f = t.mul(t.mul(A(M, nn, mm), A(M, n - nn, m - mm)), t.scale(ipow(abs(m) - abs(mm) - abs(m - mm)), t.div(t.R(1), A(M, n, m))))
            f = t.mul(f, t.mul(g.pw(nn), pnm(nn, abs(mm), g.cos)))
            xs.append(csc(M.cxmul(sgn(co, n - nn, m - mm), g.e(-mm)), f))
    return csum(xs)


def m2l(M, co, p, g, n, m):
    xs = []
    for nn in range(p + 1):
        for mm in range(-nn, nn + 1):
            f = t.mul(t.mul(A(M, nn, mm), A(M, n, m)), t.scale(ipow(abs(m - mm) - abs(m) - abs(mm)) * (-1) ** nn, t.div(t.R(1), A(M, n + nn, m - mm))))
            f = t.mul(f, t.mul(t.div(t.R(1), g.pw(n + nn + 1)), pnm(n + nn, abs(mm - m), g.cos)))
            xs.append(csc(M.cxmul(sgn(co, nn, mm), g.e(mm - m)), f))
    return csum(xs)


def l2l(M, co, p, g, n, m):
    xs = []
    for nn in range(n, p + 1):
        for mm in range(-nn, nn + 1):
            if abs(mm - m) > nn - n:
                continue
            f = t.mul(t.mul(A(M, nn - n, mm - m), A(M, n, m)), t.scale(ipow(abs(mm) - abs(mm - m) - abs(m)) * (-1) ** (nn + n), t.div(t.R(1), A(M, nn, mm))))
            f = t.mul(f, t.mul(g.pw(nn - n), pnm(nn - n, abs(mm - m), g.cos)))
            xs.append(csc(M.cxmul(sgn(co, nn, mm), g.e(mm - m)), f))
    return csum(xs)


def evaluate(M, co, p, g, outer):
    """Re sum_{n,m} c_n^m P_n^|m| e^{i m beta} rho^{n or -n-1}"""
    r = t.R(0)
    for n in range(p + 1):
        w = t.div(t.R(1), g.pw(n + 1)) if outer else g.pw(n)
        for m in range(n + 1):
            v = M.cxmul(co[n, m], g.e(m)).re
            r = t.add(r, t.mul(t.scale(1 if m == 0 else 2, v), t.mul(w, pnm(n, m, g.cos))))
    return r
