"""Recovered normals and gradients are the projections of the geometry and solution."""
from dv import terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world
from spec.assembly import Assembly, flags
from contracts.P13 import support

HARNESSES = [world('fields', ('P20',), 'real recovered fields against dense mass-matrix projections')]
c, i, j, q = (t.var(x, 'I') for x in 'cijq')


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem'), ('source/bem_problem.cc', 'vector_shift'), ('source/bem_problem.cc', 'ComputationalDomain')])
    for dim in (3, 2):
        for f in ('compute_normals', 'compute_surface_gradients', 'compute_gradients'):
            projection(ctx, P, dim, f)


def projection(ctx, P, dim, fn):
    B = 'BEMProblem<%d>' % dim
    with ctx.fn('%s::%s' % (B, fn)):
        ex = ctx.exec()
        st = St()
        mine = some_owned(ex)
        this = problem(ex, st, dim, owned=mine)
        one_process(ex)
        geometry(ex, dim)
        ng = t.scale(dim, n)
        sizes(ex, st, this, {'dh': n, 'gradient_dh': ng})
        ex.models.ext_funcs['map_dofs_to_support_points'] = support
        M = ex.models.ext_methods
        asm = Assembly(ex, ctx, LV(this.cell, ('vector_constraints',)), ng)
        dpc = vget(field(ex, st, this, 'fe'), ('dofs_per_cell',))

        scalar = field(ex, st, this, 'dh').term
        at = lambda u, c, m: vget(u, ((t.app('%s.dof' % scalar, (c, m), 'I'),),))
        shape = {'value': lambda fe, m, q, d: t.app('FEValuesBase.shape_value', (fe, m, q), 'R'), 'gradient': lambda fe, m, q, d: t.app('FEValuesBase.shape_grad.%d' % d, (fe, m, q), 'R')}

        def interpolated(what, fe, u, q, d=None):
            """the finite element function u or its gradient at a quadrature point"""
            cell = fe.args[1]
            return dot(lambda m: t.mul(at(u, cell, m), shape[what](fe, m, q, d)), dpc)

        def interpolate(what):
            def f(ex, st, lv, a, nd):
                fe = ex.read(st, lv).term
                u, old = ex.rv(st, a[0]), ex.read(st, a[1])
                ex.oblige('the interpolated field lives in the scalar space', st, t.TRUE if same_space(fe) else t.FALSE)
                ex.oblige('one value per quadrature point', st, t.eq(vget(old, ('#size',)), t.app('Quadrature.size', (fe.args[0].args[2],), 'I')))
                g = lambda kk: interpolated(what, fe, u, kk[0]) if what == 'value' else Tup([interpolated(what, fe, u, kk[0], d) for d in range(dim)])
                ex.write(st, a[1], Vec(old.et, vget(old, ('#size',)), Arr(old.et, g)))
                return VOID
            return f

        def same_space(fe):
            return str(fe.args[0].args[1]) == 'bem.fe*'
        M[(None, 'get_function_gradients')] = interpolate('gradient')
        M[(None, 'get_function_values')] = interpolate('value')
        for x in (t.le(t.I(1), n), t.le(t.I(0), fem.NCELLS)) + RNG:
            st.assume(x)
        args = {'compute_normals': [], 'compute_surface_gradients': [vec(ex, st, 'phi')], 'compute_gradients': [vec(ex, st, 'phi'), vec(ex, st, 'flux')]}[fn]
        ex.call(st, P.one(B, fn), this, args)
        result = field(ex, st, this, {'compute_normals': 'vector_normals_solution', 'compute_surface_gradients': 'vector_surface_gradients_solution', 'compute_gradients': 'vector_gradients_solution'}[fn])
        bases = asm.bases()
        grad, scal = bases.get('bem.gradient_fe*', set()), bases.get('bem.fe*', set())
        need = fn != 'compute_normals'
        if not ctx.record('one object evaluates each space', len(grad) == 1 and len(scal) == (1 if need else 0) and set(bases) <= {'bem.gradient_fe*', 'bem.fe*'}, 'symbolic execution', str(bases)[:500]):
            ctx.discharge(ex)
            return
        grad = min(grad, key=lambda x: x.id)
        want = {'update_values', 'update_JxW_values'} | ({'update_normal_vectors'} if fn != 'compute_surface_gradients' else set())
        ctx.record('the vector space is evaluated at the quadrature points of the problem, on its mapping', str(grad.args[0]) == 'bem.mapping*' and str(grad.args[2]) == 'bem.quadrature*' and want <= flags(ex, grad), 'symbolic execution', str(grad))
        vfe = lambda c: t.app('FEValues.at', (grad, c), grad.sort)
        if need:
            scal = min(scal, key=lambda x: x.id)
            want = {'update_gradients'} | ({'update_values'} if fn == 'compute_gradients' else set())
            ctx.record('the scalar space is evaluated at the same points', str(scal.args[0]) == 'bem.mapping*' and scal.args[2] is grad.args[2] and want <= flags(ex, scal), 'symbolic execution', str(scal))
            sfe = lambda c: t.app('FEValues.at', (scal, c), scal.sort)
        N = lambda c, m, q: t.app('FEValuesBase.shape_value', (vfe(c), m, q), 'R')
        JxW = lambda c, q: t.app('FEValuesBase.JxW', (vfe(c), q), 'R')
        comp = lambda m: t.app('FiniteElement.system_to_component_index.0', (grad.args[1], m), 'I')
        nq = t.app('Quadrature.size', (grad.args[2],), 'I')
        normal = lambda c, q, d: t.app('FEValuesBase.get_normal_vectors[].%d' % d, (vfe(c), q), 'R')
        phi, flux = mkvec('phi'), mkvec('flux')

        def value(c, q, d):
            if fn == 'compute_normals':
                return normal(c, q, d)
            g = interpolated('gradient', sfe(c), phi, q, d)
            return g if fn == 'compute_surface_gradients' else t.add(g, t.mul(interpolated('value', sfe(c), flux, q), normal(c, q, d)))

        def component(f, m):
            r = f(dim - 1)
            for d in range(dim - 1):
                r = t.ite(t.eq(comp(m), t.I(d)), f(d), r)
            return r
        me = field(ex, st, this, 'this_mpi_process')
        asm.check(st, result, 'bem.gradient_dh', 'bem.vector_sparsity_pattern', vget(field(ex, st, this, 'gradient_fe'), ('dofs_per_cell',)),
                  lambda c: t.eq(t.app('cell.subdomain_id', (c,), 'I'), me),
                  lambda c, i, j: dot(lambda q: t.ite(t.eq(comp(i), comp(j)), t.mul(N(c, i, q), t.mul(N(c, j, q), JxW(c, q))), t.R(0)), nq),
                  lambda c, i: dot(lambda q: t.mul(N(c, i, q), t.mul(component(lambda d: value(c, q, d), i), JxW(c, q))), nq))
        ctx.discharge(ex)
