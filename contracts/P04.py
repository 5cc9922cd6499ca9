"""Translations: multipole to multipole, multipole to local, local to local,
and evaluation of local expansions."""
from dv import terms as t, poly
from dv.exec import St
from dv.vals import *
from dv.access import vget
from dv.check import Harness
from spec.expansions import *
from spec import solid

HARNESSES = [Harness('translations', ['source/ass_leg_function.cc', 'source/multipole_expansion.cc', 'source/local_expansion.cc', 'source/local_expansion_coeff.cc'],
                     what='random expansions of order <= 10: translated coefficients against the translation theorems and against directly formed expansions')]


def verify(ctx):
    P = ctx.load([('source/multipole_expansion.cc', ME), ('source/local_expansion.cc', LE), ('source/local_expansion.cc', ALF),
                  ('source/local_expansion_coeff.cc', LE + 'Coeff')])
    ex = ctx.exec()
    contracts(ctx, ex)
    M = ex.models
    a, b, q = point('a'), point('b'), point('q')
    g = Geo(ex, b, a)           # position of the other centre relative to this one
    d2 = Geo(ex, a, b).r2
    far = (t.gt(g.rho, t.R(Frac(1, 10 ** 7))), t.gt(M.sqrt(d2), t.R(Frac(1, 10 ** 7))), t.gt(g.r2, t.R(0)))
    pmax = PMAX
    cm, cl, cn = syms('M', 2 * PMAX), syms('L', PMAX), syms('N', PMAX)

    # ---- coefficient tables, built once by the static initialisers
    st0 = St()
    with ctx.fn(ME + '::A_n_m_Matrix'):
        st = St()
        v = ex.rv(st, ex.call(st, P.one(ME, 'A_n_m_Matrix'), None, [t.I(20)]))
        for n in range(21):
            for m in range(n + 1):
                ctx.eq('entry %d,%d' % (n, m), (), vget(v, ('a', (t.I(n), t.I(m)))), A(M, n, m))
    with ctx.fn(LE + '::A_n_m_Matrix'):
        st = St()
        v = ex.rv(st, ex.call(st, P.one(LE, 'A_n_m_Matrix'), None, [t.I(20)]))
        for n in range(21):
            for m in range(n + 1):
                ctx.eq('entry %d,%d' % (n, m), (), vget(v, ('a', (t.I(n), t.I(m)))), A(M, n, m))

    ps = list(range(0, pmax + 1))
    G = {}

    def state(pc=()):
        return St(dict(G), pc)

    def frame(st, what):
        # the static coefficient tables: built once, never changed afterwards
        for k, v in list(st.store.items()):
            if k[0] == 'G':
                if k in G:
                    ctx.record('%s: table %s unchanged' % (what, k[2]), v is G[k], 'identity')
                else:
                    G[k] = v
                for x in (v.f.values() if isinstance(v, Struct) else ()):
                    if isinstance(x, Ptr) and x.cell in st.store:
                        y = st.store[x.cell]
                        if x.cell in G:
                            ctx.record('%s: entries of table %s unchanged' % (what, k[2]), y is G[x.cell], 'identity')
                        G.setdefault(x.cell, y)
    with ctx.fn(ME + '::Add(expansion) [multipole to multipole]'):
        f = P.one(ME, 'Add', contains='(const MultipoleExpansion &)')
        want = {}
        for n in range(pmax + 1):
            for m in range(n + 1):
                want[n, m] = m2m(M, cm, g, n, m)
        for p in ps:
            st = state(far)
            lv = fresh(ex, st, 'this', ME, p, a, cn, t.TRUE if p % 2 else t.FALSE)
            lo = fresh(ex, st, 'other', ME, p, b, cm, t.FALSE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d moment %d,%d translated' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), cadd(cn[n, m], want[n, m]), control=(n == m == 1 and p == 2))
                    ctx.eq('p=%d source moment %d,%d unchanged' % (p, n, m), st.pc, coeff(ex, st, lo, ME, n, m), cm[n, m])
            invariant(ctx, ex, st, lv, ME, p, 'p=%d' % p)
            ctx.eq('p=%d not zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.FALSE)
            st = state()
            lv = fresh(ex, st, 'this', ME, p, a, cn, t.FALSE)
            lo = fresh(ex, st, 'other', ME, p, a, cm, t.FALSE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d same centre: moment %d,%d added' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), cadd(cn[n, m], cm[n, m]))
            st = state()
            lv = fresh(ex, st, 'this', ME, p, a, cn, t.var('z', 'B'))
            lo = fresh(ex, st, 'other', ME, p, b, cm, t.TRUE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d a zero expansion adds nothing to %d,%d' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), cn[n, m])
            ctx.eq('p=%d zero flag kept' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.var('z', 'B'))
    with ctx.fn(LE + '::Add(multipole) [multipole to local]'):
        f = P.one(LE, 'Add', contains='(const MultipoleExpansion &)')
        for p in ps:
            st = state(far)
            lv = fresh(ex, st, 'this', LE, p, a, cl, t.TRUE if p % 2 else t.FALSE)
            lo = fresh(ex, st, 'other', ME, p, b, cm, t.FALSE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d local coefficient %d,%d' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), cadd(cl[n, m], m2l(M, cm, p, g, n, m)), control=(n == m == 1 and p == 2))
            invariant(ctx, ex, st, lv, LE, p, 'p=%d' % p)
            ctx.eq('p=%d not zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.FALSE)
            st = state(far)
            lv = fresh(ex, st, 'this', LE, p, a, cl, t.var('z', 'B'))
            lo = fresh(ex, st, 'other', ME, p, b, cm, t.TRUE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d a zero multipole adds nothing to %d,%d' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), cl[n, m])
            ctx.eq('p=%d zero flag kept' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.var('z', 'B'))
    with ctx.fn(LE + '::Add(local) [local to local]'):
        f = P.one(LE, 'Add', contains='(const LocalExpansion &)')
        for p in ps:
            st = state(far)
            lv = fresh(ex, st, 'this', LE, p, a, cn, t.TRUE if p % 2 else t.FALSE)
            lo = fresh(ex, st, 'other', LE, p, b, cl, t.FALSE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d local coefficient %d,%d translated' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), cadd(cn[n, m], l2l(M, cl, p, g, n, m)), control=(n == m == 1 and p == 2))
            invariant(ctx, ex, st, lv, LE, p, 'p=%d' % p)
            ctx.eq('p=%d not zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.FALSE)
            st = state()
            lv = fresh(ex, st, 'this', LE, p, a, cn, t.FALSE)
            lo = fresh(ex, st, 'other', LE, p, a, cl, t.FALSE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d same centre: coefficient %d,%d added' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), cadd(cn[n, m], cl[n, m]))
            st = state()
            lv = fresh(ex, st, 'this', LE, p, a, cn, t.var('z', 'B'))
            lo = fresh(ex, st, 'other', LE, p, b, cl, t.TRUE)
            ex.call(st, f, lv, [lo])
            frame(st, 'p=%d' % p)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d a zero expansion adds nothing to %d,%d' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), cn[n, m])
            ctx.eq('p=%d zero flag kept' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.var('z', 'B'))
    with ctx.fn(LE + '::Evaluate'):
        f = P.one(LE, 'Evaluate')
        h = Geo(ex, q, a)
        for p in ps:
            st = St(pc=(t.gt(h.r2, t.R(0)),))
            lv = fresh(ex, st, 'this', LE, p, a, cl, t.FALSE)
            ctx.eq('p=%d value is the truncated inner series' % p, st.pc, ex.call(st, f, lv, [ex.tmp(st, q)]), evaluate(M, cl, p, h, False), control=True)
            st = state()
            lv = fresh(ex, st, 'this', LE, p, a, cl, t.TRUE)
            ctx.eq('p=%d a zero expansion evaluates to zero' % p, st.pc, ex.call(st, f, lv, [ex.tmp(st, q)]), t.R(0))
    with ctx.fn(LE + '::LocalExpansion(order, centre, functions)'):
        for p in ps:
            st = state()
            lv = fresh(ex, st, 'this', LE, p, a)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d coefficient %d,%d starts at zero' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), czero())
            ctx.eq('p=%d flagged zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.TRUE)
            ctx.eq('p=%d centre' % p, st.pc, ex.rv(st, ex.call(st, P.one(LE, 'GetCenter'), lv, [])), a)
    ctx.discharge(ex)
    solid.lemmas(ctx, ex)
