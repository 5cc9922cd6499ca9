"""Operator, right-hand side and free term realise the boundary integral equation."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.check import Harness
from spec.bem import *

SRC = ['source/bem_problem.cc']
from spec.worlds import world
HARNESSES = [world('p10', (), 'the real operator, right-hand side and free term against the matrices on generated 2D and 3D problems')]


def fma_contract(ctx, ex, log, tag=''):
    """Contract of the fast multipole product (P08): the integrals are linear
    operators NF, DF; the product uses the expansions generated last."""
    def gen(ex, st, lv, args, nd):
        log['gen'] = (ex.rv(st, args[0]), ex.rv(st, args[1]))
        return VOID

    def prod(ex, st, lv, args, nd):
        p, d = ex.rv(st, args[0]), ex.rv(st, args[1])
        g = log.pop('gen', None)
        ctx.record('the expansions are generated for the densities of the product', g is not None, 'symbolic execution')
        if g is not None:
            i = t.var('k', 'I')
            ctx.eq('expansions of the same potential density', st.pc, vget(g[0], ((i,),)), vget(p, ((i,),)))
            ctx.eq('expansions of the same flux density', st.pc, vget(g[1], ((i,),)), vget(d, ((i,),)))
        ex.write(st, args[2], Vec('double', p.size, Arr('double', lambda kk: dot(lambda j: t.mul(a('N' + tag, kk[0], j), vget(p, ((j,),))), p.size))))
        ex.write(st, args[3], Vec('double', p.size, Arr('double', lambda kk: dot(lambda j: t.mul(a('D' + tag, kk[0], j), vget(d, ((j,),))), p.size))))
        return VOID
    ex.models.ext_methods[('BEMFMA', 'generate_multipole_expansions')] = gen
    ex.models.ext_methods[('BEMFMA', 'multipole_matr_vect_products')] = prod


def empty_static(ex, st, d, fr):
    from dv.exec import ptype, strip
    return ex.default_value(d.type, st, d.a.get('name'))


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem'), ('source/bem_problem.cc', 'vector_shift')])
    for dim in (3, 2):
        B = 'BEMProblem<%d>' % dim
        for method in ('Direct', 'FMA') if dim == 3 else ('Direct',):
            def setup(dirichlet=True):
                ex = ctx.exec()
                st = St()
                owned_all(ex)
                this = problem(ex, st, dim)
                log = {}
                fma_contract(ctx, ex, log)
                s = st.store[this.cell]
                s.f['solution_method'] = t.const(method, 'S')
                s.f['have_dirichlet_bc'] = t.TRUE if dirichlet else t.FALSE
                ex.static_init['*'] = empty_static
                for c in (t.le(t.I(1), n),) + RNG:
                    st.assume(c)
                return ex, st, this
            nn, dn = (lambda i: a('neumann_nodes', i)), (lambda i: a('dirichlet_nodes', i))
            al = a('alpha')
            with ctx.fn('%s::vmult (%s)' % (B, method)):
                ex, st, this = setup()
                dst, src = vec(ex, st, 'dst'), vec(ex, st, 'u')
                ex.call(st, P.one(B, 'vmult'), this, [dst, src])
                u = lambda i: a('u', i)
                spec = t.sub(t.add(t.mul(al, t.mul(nn(k), u(k))), dot(lambda j: t.mul(a('N', k, j), t.mul(nn(j), u(j))))),
                             dot(lambda j: t.mul(a('D', k, j), t.mul(dn(j), u(j)))))
                ctx.eq('operator(u) = (alpha + N) u_N - D u_D', st.pc, at(ex, st, dst), spec, control=True)
                ctx.eq('the argument is unchanged', st.pc, at(ex, st, src), u(k))
                ctx.discharge(ex)
            with ctx.fn('%s::compute_rhs (%s)' % (B, method)):
                ex, st, this = setup()
                dst, src = vec(ex, st, 'dst'), vec(ex, st, 'g')
                ex.call(st, P.one(B, 'compute_rhs'), this, [dst, src])
                g = lambda i: a('g', i)
                spec = t.sub(dot(lambda j: t.mul(a('D', k, j), t.mul(nn(j), g(j)))),
                             t.add(t.mul(al, t.mul(dn(k), g(k))), dot(lambda j: t.mul(a('N', k, j), t.mul(dn(j), g(j))))))
                ctx.eq('rhs(g) = D g_N - (alpha + N) g_D', st.pc, at(ex, st, dst), spec, control=True)
                ctx.eq('the argument is unchanged', st.pc, at(ex, st, src), g(k))
                ctx.discharge(ex)
            with ctx.fn('%s::compute_alpha (%s)' % (B, method)):
                ex, st, this = setup()
                ex.call(st, P.one(B, 'compute_alpha'), this, [])
                out = at(ex, st, LV(this.cell, ('alpha',)))
                ctx.eq('alpha = -N 1 (first call)', st.pc, out, t.neg(dot(lambda j: a('N', k, j))), control=True)
                # second call on a problem of any other size, with the statics left behind
                n2 = t.var('n2', 'I')
                st2 = St({c: v for c, v in st.store.items() if c[0] == 'S'}, (t.le(t.I(1), n), t.le(t.I(1), n2), t.le(t.I(0), k), t.lt(k, n2)))
                this2 = problem(ex, st2, dim, n2, '2')
                fma_contract(ctx, ex, {}, '2')
                st2.store[this2.cell].f['solution_method'] = t.const(method, 'S')
                ex.call(st2, P.one(B, 'compute_alpha'), this2, [])
                out = at(ex, st2, LV(this2.cell, ('alpha',)))
                ctx.eq('alpha = -N 1 (after an earlier problem of any size)', st2.pc, out, t.neg(dot(lambda j: a('N2', k, j), n2)), control=True)
                ctx.discharge(ex)
