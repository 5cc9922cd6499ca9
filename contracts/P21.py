"""Reported errors measure the distance to the prescribed exact fields."""
from dv import terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world
from contracts.P13 import support
from contracts.P14 import conditions, x_of

HARNESSES = [world('fields', ('P21',), 'the real error report against norms computed from their definition')]
LABELS = {'Phi Nodes error L_inf norm: ': ('phi', 'nodes'), 'Phi Cells error L_2 norm: ': ('phi', 'cells'),
          'dPhidN Nodes error L_inf norm: ': ('flux', 'nodes'), 'dPhidN Nodes error L_2 norm: ': ('flux', 'cells'),
          'Phi Nodes Gradient error L_inf norm: ': ('gradient', 'nodes'), 'Phi Cells Gradient  error L_2 norm: ': ('gradient', 'cells')}


def verify(ctx):
    P = ctx.load([('source/boundary_conditions.cc', 'BoundaryConditions'), ('source/boundary_conditions.cc', 'BEMProblem'), ('source/boundary_conditions.cc', 'vector_shift'), ('source/boundary_conditions.cc', 'ComputationalDomain')])
    for dim in (3, 2):
        errors(ctx, P, dim)


def errors(ctx, P, dim):
    B = 'BoundaryConditions<%d>' % dim
    with ctx.fn(B + '::compute_errors'):
        ex = ctx.exec()
        st = St()
        this, bem = conditions(ex, st, dim)
        one_process(ex)
        geometry(ex, dim)
        ng = t.scale(dim, n)
        sizes(ex, st, this, {'dh': n, 'gradient_dh': ng}, 'bem')
        ex.models.ext_funcs['map_dofs_to_support_points'] = support
        perm, vperm = renumbering(ex, st, bem, dim)
        s = st.store[bem.cell]
        st.store[bem.cell] = Struct(s.cls, dict(s.f, vector_normals_solution=mkvec('normal', ng), vector_gradients_solution=mkvec('stale', ng)), s.lazy)
        s = st.store[this.cell]
        st.store[this.cell] = Struct(s.cls, dict(s.f, phi=mkvec('phi'), dphi_dn=mkvec('flux'), this_mpi_process=t.I(0)), s.lazy)

        def gradients(ex, st, th, args, nd):
            ctx.eq('the gradient is that of the reported potential', st.pc, vget(ex.rv(st, args[0]), ((k,),)), a('phi'))
            ctx.eq('the gradient is that of the reported flux', st.pc, vget(ex.rv(st, args[1]), ((k,),)), a('flux'))
            s = st.store[bem.cell]
            st.store[bem.cell] = Struct(s.cls, dict(s.f, vector_gradients_solution=mkvec('gradient', ng)), s.lazy)
            return VOID
        ex.contracts[('BEMProblem<%d>' % dim, 'compute_gradients')] = gradients
        norms, said, cells = {}, [], {}

        def points(ex, st, a, nd, f):
            xs, old = ex.rv(st, a[0]), ex.read(st, a[1])
            ctx.eq('one value per node is asked for', st.pc, vget(xs, ('#size',)), vget(old, ('#size',)))
            ex.write(st, a[1], Vec(old.et, vget(old, ('#size',)), Arr(old.et, lambda kk: f(vget(xs, ((kk[0],),))))))
            return VOID

        def wind_at(x):
            return Vec('double', t.I(dim), Arr('double', lambda kk: t.app('wind', x_of(x) + (kk[0],), 'R')))
        M = ex.models.ext_methods
        M[(None, 'value_list')] = lambda ex, st, lv, a, nd: points(ex, st, a, nd, lambda x: t.app('potential', x_of(x), 'R'))
        M[(None, 'vector_value_list')] = lambda ex, st, lv, a, nd: points(ex, st, a, nd, wind_at)
        M[(None, 'c_str')] = lambda ex, st, lv, a, nd: ex.read(st, lv)
        for x in ('attach_dof_handler', 'add_data_vector', 'build_patches', 'write_vtu'):
            M[(None, x)] = lambda ex, st, lv, a, nd: VOID

        def integrate(ex, st, a, nd):
            """VectorTools::integrate_difference: norm of (finite element function - given function) on every cell"""
            v = [ex.rv(st, x) for x in a]
            nm = t.fresh('cellerr', 'I').val
            cells[nm] = dict(pc=st.pc, dh=v[1], u=v[2], f=v[3], rule=v[5], norm=v[6])
            ex.write(st, a[4], Vec('double', fem.NCELLS, Arr('double', lambda kk: t.app(nm, kk, 'R'))))
            return VOID
        ex.models.ext_funcs['integrate_difference'] = integrate

        def norm(ex, st, v, name):
            x = t.fresh(name, 'R')
            norms[x] = (name, v, st.pc)
            return x
        ex.hooks['vecnorm'] = norm
        ex.hooks['op<<'] = lambda ex, st, args, nd: said.append((tuple(st.pc), ex.rv(st, args[1])))
        for c in (t.le(t.I(1), n), t.le(t.I(0), fem.NCELLS)) + RNG:
            st.assume(c)
        ex.call(st, P.one(B, 'compute_errors'), this, [])
        dh = str(field(ex, st, this, 'bem', 'dh').term)

        def x_at(i):
            return tuple(t.app('%s.x%d' % (dh, d), (i,), 'R') for d in range(dim))
        # the error vectors at an arbitrary entry
        pk = perm(k)
        flux = t.R(0)
        for d in range(dim):
            flux = t.add(flux, t.mul(a('normal', vperm(t.add(k, t.scale(d, n)))), t.app('wind', x_at(pk) + (t.I(d),), 'R')))
        ax = tuple(perm.axioms(k))
        entries = {'phi': [(k, t.sub(a('phi'), t.app('potential', x_at(k), 'R')))],
                   'flux': [(pk, t.sub(a('flux', pk), flux))],
                   'gradient': [(vperm(t.add(k, t.scale(d, n))), t.sub(a('gradient', vperm(t.add(k, t.scale(d, n)))), t.app('wind', x_at(pk) + (t.I(d),), 'R'))) for d in range(dim)]}
        size = {'phi': n, 'flux': n, 'gradient': ng}

        def difference(what, v, name, pc, exact=None):
            ctx.eq(name + ': one entry per degree of freedom', pc, vget(v, ('#size',)), size[what])
            for i, e in entries[what]:
                g = vget(v, ((i,),))
                pci = pc + ax + sum((tuple(vperm.axioms(t.add(k, t.scale(d, n)))) for d in range(dim)), ())
                if exact is not None:
                    ctx.eq(name + ': the computed field', pci, g, exact(i), control=True)
                else:
                    ctx.eq(name + ': computed minus prescribed, up to its sign', pci, t.mul(g, g), t.mul(e, e), control=True)
        said = [x[1] for x in said if not (isinstance(x[1], Fn))]
        for lab, (what, kind) in LABELS.items():
            vals = [y for x, y in zip(said, said[1:]) if isinstance(x, T) and x.sort == 'S' and str(x).strip(' :') == lab.strip(' :')]
            y = vals[0] if len(vals) == 1 else None
            if not ctx.record('%s reported once, as a norm' % lab.strip(' :'), y in norms, 'symbolic execution', str(vals)):
                continue
            name, v, pc = norms[y]
            if kind == 'nodes':
                ctx.record(lab + 'largest entry', name == 'linfty_norm', 'symbolic execution', name)
                difference(what, v, lab.strip(' :'), pc)
                continue
            ctx.record(lab + 'square root of the sum of squares over the cells', name == 'l2_norm', 'symbolic execution', name)
            g = vget(v, ((k,),))
            c = cells.get(g.val) if g.op == 'app' and g.args == (k,) else None
            if not ctx.record(lab + 'norms over the cells', c is not None, 'symbolic execution', str(g)):
                continue
            ctx.eq(lab + 'one norm per cell', pc, vget(v, ('#size',)), fem.NCELLS)
            ctx.record(lab + 'of the finite element field', str(c['dh'].term) == ('bem.gradient_dh' if what == 'gradient' else 'bem.dh'), 'symbolic execution', str(c['dh']))
            ctx.record(lab + 'in the mean square', enum(ex, c['norm']) == 'L2_norm', 'symbolic execution')
            ctx.record(lab + 'by Gauss quadrature', str(c['rule'].term.val) == 'new:QGauss', 'symbolic execution')
            deg = vget(field(ex, st, this, 'bem', 'fe'), ('degree',))
            ctx.true(lab + 'exact for squares of the finite element fields', c['pc'] + (t.le(t.I(0), deg),), t.le(t.add(deg, t.I(1)), c['rule'].term.args[0]))
            f = str(c['f'].term)
            if what == 'flux':
                ctx.record(lab + 'against zero', f.startswith('new:') and 'ZeroFunction' in f, 'symbolic execution', f)
                difference(what, c['u'], lab.strip(' :'), c['pc'])
            else:
                nm = {'phi': 'potential', 'gradient': 'wind'}[what]
                ctx.record(lab + 'against the prescribed field', f == 'bc.' + nm, 'symbolic execution', f)
                difference(what, c['u'], lab.strip(' :'), c['pc'], lambda i: a(what, i))
        ctx.discharge(ex)


def enum(ex, v):
    return next((nm for nm, x in ex.models.enumvals.items() if v.op == 'c' and x == v.val), None)
