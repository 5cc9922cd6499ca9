"""Boundary data are imposed where and as prescribed."""
from dv import terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world
from contracts.P13 import support

HARNESSES = [world('bvp', ('P14',), 'real boundary data on generated surfaces, ids and functions')]


def conditions(ex, st, dim, owned=None):
    """A BoundaryConditions<dim> with its problem and domain."""
    bem = problem(ex, st, dim, owned=owned)
    this = LV(('bc',))
    s = ex.mk_sym('BoundaryConditions<%d>' % dim, 'bc')
    f = dict(s.f)
    f['bem'] = Ptr(bem.cell)
    for v in ('phi', 'dphi_dn', 'tmp_rhs'):
        f[v] = mkvec('old.' + v)
    f['this_cpu_set'] = st.store[bem.cell].f['this_cpu_set']
    st.store[this.cell] = Struct(s.cls, f, s.lazy)
    return this, bem


def verify(ctx):
    P = ctx.load([('source/boundary_conditions.cc', 'BoundaryConditions'), ('source/boundary_conditions.cc', 'BEMProblem'), ('source/boundary_conditions.cc', 'vector_shift'), ('source/boundary_conditions.cc', 'ComputationalDomain')])
    for dim in (3, 2):
        B = 'BoundaryConditions<%d>' % dim
        with ctx.fn(B + '::prepare_bem_vectors'):
            ex = ctx.exec()
            st = St()
            mine = some_owned(ex)
            this, bem = conditions(ex, st, dim, owned=mine)
            own = vget(mine, ((k,),))
            one_process(ex)
            geometry(ex, dim)
            ex.models.ext_funcs['map_dofs_to_support_points'] = support

            def wind(ex, st, lv, a, nd):
                x = ex.rv(st, a[0])
                old = ex.read(st, a[1])
                ex.write(st, a[1], Vec(old.et, vget(old, ('#size',)), Arr(old.et, lambda kk: t.app('wind', x_of(x) + (kk[0],), 'R'))))
                return VOID
            ex.models.ext_methods[(None, 'vector_value')] = wind
            sizes(ex, st, this, {'dh': n, 'gradient_dh': t.mul(t.I(dim), n)}, 'bem')
            ex.models.ext_methods[(None, 'value')] = lambda ex, st, lv, a, nd: t.app('potential', x_of(ex.rv(st, a[0])), 'R')
            for c in (t.le(t.I(1), n), t.le(t.I(0), fem.NCELLS)) + RNG:
                st.assume(c)
            ex.call(st, P.one(B, 'prepare_bem_vectors'), this, [])
            D = Disc(ex, st, this, dom=('comp_dom',), bem=('bem',))
            onD, onN, other = D.some_cell(k, D.dirichlet), D.some_cell(k, lambda c: t.and_(t.not_(D.dirichlet(c)), D.neumann(c))), \
                D.some_cell(k, lambda c: t.and_(t.not_(D.dirichlet(c)), t.not_(D.neumann(c))))
            # the classification of P13
            isD = t.eq(a('dirichlet_nodes'), t.R(0))
            base = st.pc + (own, t.eq(isD, t.not_(onD)), t.or_(onD, onN, other))
            x = tuple(t.app('%s.x%d' % (D.dh, d), (k,), 'R') for d in range(dim))
            pot = t.app('potential', x, 'R')
            nrm = field(ex, st, this, 'bem', 'vector_normals_solution')
            o = vget(field(ex, st, this, 'bem', 'sub_wise_to_original'), ((k,),))
            v2s = field(ex, st, this, 'bem', 'vec_original_to_sub_wise')
            flux = t.R(0)
            for d in range(dim):
                flux = t.add(flux, t.mul(t.app('wind', x + (t.I(d),), 'R'), vget(nrm, ((vget(v2s, ((t.add(t.mul(t.I(d), n), o),),)),),))))
            phi, dphi, rhs = (vget(field(ex, st, this, v), ((k,),)) for v in ('phi', 'dphi_dn', 'tmp_rhs'))
            for nm, cond, p, q, r in (('node of a Dirichlet panel: the potential at its position', onD, pot, t.R(0), pot),
                                      ('node of Neumann panels: wind dot nodal normal', t.and_(t.not_(onD), onN, t.not_(other)), t.R(0), flux, flux),
                                      ('node of panels with neither id: zero flux', t.and_(t.not_(onD), t.not_(onN)), t.R(0), t.R(0), t.R(0))):
                ctx.reach(nm, base + (cond,))
                ctx.eq(nm + ' (potential)', base + (cond,), phi, p, control=True)
                ctx.eq(nm + ' (flux)', base + (cond,), dphi, q, control=True)
                ctx.eq(nm + ' (data of the right-hand side)', base + (cond,), rhs, r, control=True)
            # nothing else is touched
            for nm, v, old in (('tmp_rhs', rhs, a('old.tmp_rhs')),):
                ctx.eq('entries of other processes keep their value: ' + nm, st.pc + (t.not_(own),), v, old)
            ctx.discharge(ex)

        with ctx.fn(B + '::solve_problem'):
            for dirichlet in (True, False):
                ex = ctx.exec()
                st = St()
                mine = some_owned(ex)
                this, bem = conditions(ex, st, dim, owned=mine)
                own = vget(mine, ((k,),))
                ex.models.ext_funcs['map_dofs_to_support_points'] = support
                ex.models.ext_methods[(None, 'value')] = lambda ex, st, lv, a, nd: t.app('potential', x_of(ex.rv(st, a[0])), 'R')
                ex.models.ext_funcs['get_subdomain_association'] = lambda ex, st, a, nd: VOID
                ex.models.ext_methods[(None, 'set_time')] = lambda ex, st, lv, a, nd: VOID
                me = field(ex, st, this, 'this_mpi_process')
                steps = []

                def bcast(ex, st, a, nd):
                    lv = ex.lv_of_ptr(st, ex.rv(st, a[0]))
                    v = ex.read(st, lv)
                    sent.append((tuple(st.pc), v))
                    ctx.eq('one shift for all processes: that of the first', st.pc, ex.rv(st, a[3]), t.I(0))
                    ex.write(st, lv, t.var('shift', 'R'))
                    return t.I(0)
                sent = []
                one_process(ex)
                ex.models.ext_funcs['MPI_Bcast'] = bcast

                def log(name, fn=None):
                    def f(ex, st, *a):
                        steps.append(name)
                        return fn(ex, st, *a) if fn else VOID
                    return f

                def prep(ex, st, th, a, nd):
                    for v in ('phi', 'dphi_dn', 'tmp_rhs'):
                        ex.write(st, LV(this.cell, (v,)), mkvec('data.' + v))
                    return VOID

                def solve(ex, st, lv, a, nd):
                    for x, v in zip(a, ('phi', 'dphi_dn', 'tmp_rhs')):
                        ctx.eq('the problem is solved with the prepared data: ' + v, st.pc, vget(ex.rv(st, x), ((k,),)), a_('data.' + v))
                    ex.write(st, a[0], mkvec('P'))
                    ex.write(st, a[1], mkvec('F'))
                    ex.write(st, LV(bem.cell, ('have_dirichlet_bc',)), t.TRUE if dirichlet else t.FALSE)
                    return VOID
                a_ = a
                ex.contracts[(B, 'prepare_bem_vectors')] = log('data', prep)
                ex.contracts[('BEMProblem<%d>' % dim, 'compute_normals')] = log('normals')
                ex.contracts[('BEMProblem<%d>' % dim, 'solve')] = log('solve', solve)
                for c in (t.le(t.I(1), n),) + RNG:
                    st.assume(c)
                ex.call(st, P.one(B, 'solve_problem'), this, [])
                ctx.record('normals, then data, then the solution', steps == ['normals', 'data', 'solve'], 'symbolic execution', str(steps))
                phi, dphi = (vget(field(ex, st, this, v), ((k,),)) for v in ('phi', 'dphi_dn'))
                h = field(ex, st, this, 'have_dirichlet_bc')
                ctx.eq('the computed flux is kept', st.pc + (own,), dphi, a('F'))
                if dirichlet:
                    ctx.eq('with a Dirichlet part the potential is not shifted', st.pc + (own,), phi, a('P'), control=True)
                else:
                    ctx.eq('the potential is shifted by one constant', st.pc + (own,), phi, t.add(a('P'), t.var('shift', 'R')), control=True)
                    ctx.record('one shift is agreed on', len(sent) == 1, 'symbolic execution')
                    pc, v = sent[0]
                    first = ex.models.set_first(st, mine)
                    dh = str(field(ex, st, this, 'bem', 'dh').term)
                    x = tuple(t.app('%s.x%d' % (dh, d), (first,), 'R') for d in range(dim))
                    ctx.eq('the shift matches the reference potential at one node', pc + (t.eq(me, t.I(0)), vget(mine, ((first,),))), v, t.sub(t.app('potential', x, 'R'), a('P', first)), control=True)
                ctx.discharge(ex)


def x_of(v):
    return tuple(v.items) if isinstance(v, Tup) else (v,)
