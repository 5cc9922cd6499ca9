"""Multipole expansions: moments of monopole and dipole sources, linearity and
the evaluated far field."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.check import Harness
from spec.expansions import *

HARNESSES = [Harness('multipole', ['source/ass_leg_function.cc', 'source/multipole_expansion.cc'], always=True, what='random sources against the exact 1/r potential and its normal derivative, p <= 10')]


def verify(ctx):
    P = ctx.load([('source/multipole_expansion.cc', ME), ('source/multipole_expansion.cc', ALF)])
    ex = ctx.exec()
    contracts(ctx, ex)
    M = ex.models
    c, q, nrm = point('c'), point('q'), point('n')
    s = t.var('s', 'R')
    g = Geo(ex, q, c)
    pmax = 20
    co = syms('M', pmax)
    f_src = P.one(ME, 'Add', contains='(const double, const')
    f_dip = P.one(ME, 'AddNormDer')
    f_scl = P.one(ME, 'Add', contains='const double)')
    f_ev = P.one(ME, 'Evaluate')
    for p in list(range(0, PMAX + 1)) + ([20] if ctx.tier == 'thorough' else []):
        pcs = (t.gt(g.r2, t.R(0)), t.not_(t.eq(s, t.R(0))))
        with ctx.fn(ME + '::Add(strength, point)'):
            st = St(pc=pcs)
            lv = fresh(ex, st, 'this', ME, p, c, co, t.FALSE if p % 2 else t.TRUE)
            ex.call(st, f_src, lv, [s, ex.tmp(st, q)])
            for n in range(p + 1):
                for m in range(n + 1):
                    want = cadd(co[n, m], csc(g.e(-m), t.mul(s, t.mul(g.pw(n), pnm(n, m, g.cos)))))
                    ctx.eq('p=%d moment %d,%d increases by the solid harmonic of the source' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), want, control=(n == m == 1 and p == 2))
            invariant(ctx, ex, st, lv, ME, p, 'p=%d' % p)
            ctx.eq('p=%d expansion becomes non-zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.FALSE)
            st = St(pc=(t.gt(g.r2, t.R(0)),))
            lv = fresh(ex, st, 'this', ME, p, c, co, t.var('z', 'B'))
            ex.call(st, f_src, lv, [t.R(0), ex.tmp(st, q)])
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d moment %d,%d unchanged by a zero source' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), co[n, m])
            ctx.eq('p=%d zero flag unchanged by a zero source' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.var('z', 'B'))
        with ctx.fn(ME + '::AddNormDer'):
            x, y, z = g.d
            xy = t.add(t.mul(x, x), t.mul(y, y))
            n2 = M.dot(nrm, nrm)
            pc2 = (t.gt(xy, t.R(0)), t.gt(g.r2, t.R(0)), t.gt(n2, t.R(0)), t.not_(t.eq(s, t.R(0))))
            st = St(pc=pc2)
            lv = fresh(ex, st, 'this', ME, p, c, co, t.TRUE)
            ex.call(st, f_dip, lv, [s, ex.tmp(st, q), ex.tmp(st, nrm)])
            nv = [t.div(v, M.sqrt(n2)) for v in nrm.items]
            cb, sb = t.app('cos', (g.beta,), 'R'), t.app('sin', (g.beta,), 'R')
            sa = M.sqrt(t.sub(t.R(1), t.mul(g.cos, g.cos)))
            dr = t.div(M.dot(Tup(g.d), Tup(nv)), g.rho)
            db = t.div(t.sub(t.mul(x, nv[1]), t.mul(y, nv[0])), xy)
            da = t.div(t.add(t.mul(g.cos, t.add(t.mul(cb, nv[0]), t.mul(sb, nv[1]))), t.neg(t.mul(sa, nv[2]))), g.rho)
            for n in range(p + 1):
                for m in range(n + 1):
                    # directional derivative of rho^n P_n^m(cos a) e^{-i m b}
                    re = t.sub(t.mul(t.scale(n, t.mul(g.pw(n - 1) if n else t.R(0), pnm(n, m, g.cos))), dr),
                               t.mul(t.mul(g.pw(n), t.mul(dpnm(n, m, g.cos), sa)), da))
                    im = t.neg(t.mul(t.scale(m, t.mul(g.pw(n), pnm(n, m, g.cos))), db))
                    want = cadd(co[n, m], csc(M.cxmul(g.e(-m), Cx(re, im)), s))
                    ctx.eq('p=%d moment %d,%d increases by the normal derivative of the solid harmonic' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), want, control=(n == m == 1 and p == 2))
            invariant(ctx, ex, st, lv, ME, p, 'p=%d' % p)
            ctx.eq('p=%d expansion becomes non-zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.FALSE)
            st = St(pc=pc2[:3])
            lv = fresh(ex, st, 'this', ME, p, c, co, t.var('z', 'B'))
            ex.call(st, f_dip, lv, [t.R(0), ex.tmp(st, q), ex.tmp(st, nrm)])
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d moment %d,%d unchanged by a zero dipole' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), co[n, m])
        with ctx.fn(ME + '::Add(expansion, factor)'):
            co2 = syms('N', p)
            for iz in (t.FALSE, t.TRUE):
                st = St(pc=(t.not_(t.eq(s, t.R(0))),))
                lv = fresh(ex, st, 'this', ME, p, c, co, t.var('z', 'B'))
                lo = fresh(ex, st, 'other', ME, p, c, co2, iz)
                ex.call(st, f_scl, lv, [lo, s])
                for n in range(p + 1):
                    for m in range(n + 1):
                        ctx.eq('p=%d moment %d,%d axpy (other zero: %s)' % (p, n, m, iz.val), st.pc, coeff(ex, st, lv, ME, n, m), co[n, m] if iz.val else cadd(co[n, m], csc(co2[n, m], s)))
                        ctx.eq('p=%d other %d,%d unchanged' % (p, n, m), st.pc, coeff(ex, st, lo, ME, n, m), co2[n, m])
                ctx.eq('p=%d zero flag (other zero: %s)' % (p, iz.val), st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.var('z', 'B') if iz.val else t.FALSE)
            st = St()
            lv = fresh(ex, st, 'this', ME, p, c, co, t.var('z', 'B'))
            lo = fresh(ex, st, 'other', ME, p, c, co2, t.FALSE)
            ex.call(st, f_scl, lv, [lo, t.R(0)])
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d moment %d,%d unchanged by a zero factor' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), co[n, m])
            ctx.eq('p=%d zero flag unchanged by a zero factor' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.var('z', 'B'))
        with ctx.fn(ME + '::Evaluate'):
            st = St(pc=(t.gt(g.r2, t.R(0)),))
            lv = fresh(ex, st, 'this', ME, p, c, co, t.FALSE)
            v = ex.call(st, f_ev, lv, [ex.tmp(st, q)])
            ctx.eq('p=%d value is the truncated outer series' % p, st.pc, v, evaluate(M, co, p, g, True), control=True)
            st = St(pc=(t.gt(g.r2, t.R(0)),))
            lv = fresh(ex, st, 'this', ME, p, c, co, t.TRUE)
            ctx.eq('p=%d a zero expansion evaluates to zero' % p, st.pc, ex.call(st, f_ev, lv, [ex.tmp(st, q)]), t.R(0))
        with ctx.fn(ME + '::MultipoleExpansion(order, centre, functions)'):
            st = St()
            lv = fresh(ex, st, 'this', ME, p, c)
            for n in range(p + 1):
                for m in range(n + 1):
                    ctx.eq('p=%d moment %d,%d starts at zero' % (p, n, m), st.pc, coeff(ex, st, lv, ME, n, m), czero())
            ctx.eq('p=%d flagged zero' % p, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), t.TRUE)
            ctx.eq('p=%d centre' % p, st.pc, ex.rv(st, ex.call(st, P.one(ME, 'GetCenter'), lv, [])), c)
    ctx.discharge(ex)
