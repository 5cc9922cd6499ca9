"""A solve returns fields that satisfy data and equation."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world

A = a
HARNESSES = [world('bvp', ('P15',), 'real solves (both methods, repeated, mixed data) against the assembled boundary integral equation')]


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem'), ('source/bem_problem.cc', 'ConstrainedOperator'), ('source/bem_problem.cc', 'vector_shift')])
    for dim in (3, 2):
        B = 'BEMProblem<%d>' % dim
        for method in ('Direct', 'FMA') if dim == 3 else ('Direct',):
            with ctx.fn('%s::solve_system (%s)' % (B, method)):
                ex = ctx.exec()
                st = St()
                mine = some_owned(ex)
                this = problem(ex, st, dim, owned=mine)
                own = vget(mine, ((k,),))
                st.store[this.cell].f['solution_method'] = t.const(method, 'S')
                for c in (t.le(t.I(1), n),) + RNG:
                    st.assume(c)
                one_process(ex)
                steps = []
                phi, dphi, g = vec(ex, st, 'phi'), vec(ex, st, 'dphi_dn'), vec(ex, st, 'g')

                def con(name, fn=None):
                    def f(ex, st, th, a, nd):
                        steps.append(name)
                        if fn:
                            return fn(ex, st, th, a, nd) or VOID
                        return VOID
                    ex.contracts[(B, name)] = f
                con('compute_alpha', lambda ex, st, th, a, nd: ex.write(st, LV(this.cell, ('alpha',)), mkvec('free_term')))
                con('compute_hypersingular_free_coeffs')

                def rhs(ex, st, th, a, nd):
                    ctx.eq('the right-hand side is formed from the data', st.pc, vget(ex.rv(st, a[1]), ((k,),)), A('g'))
                    ctx.record('the free term is computed before the right-hand side', 'compute_alpha' in steps, 'symbolic execution')
                    ex.write(st, a[0], mkvec('rhs_of_data'))
                con('compute_rhs', rhs)

                def cons(ex, st, th, a, nd):
                    ctx.eq('the constraints are made for the data', st.pc, vget(ex.rv(st, a[2]), ((k,),)), A('g'))
                    ex.write(st, a[1], Obj('AffineConstraints', t.const('made', 'Obj:AffineConstraints')))
                con('compute_constraints', cons)
                con('assemble_preconditioner')

                def fmap(ex, st, lv, a, nd):
                    steps.append('FMA_preconditioner')
                    ctx.eq('the preconditioner uses the current free term', st.pc, vget(ex.rv(st, a[0]), ((k,),)), A('free_term'))
                    return ex.mk_sym('TrilinosWrappers::PreconditionILU', 'ilu')
                ex.models.ext_methods[('BEMFMA', 'FMA_preconditioner')] = fmap
                isc = t.app('AffineConstraints.is_constrained', (t.const('made', 'Obj:AffineConstraints'), k), 'B')
                inh = t.app('AffineConstraints.get_inhomogeneity', (t.const('made', 'Obj:AffineConstraints'), k), 'R')

                def solve(ex, st, lv, a, nd):
                    steps.append('solve')
                    op = ex.rv(st, a[0])
                    ctx.eq('the system solved has the constrained right-hand side', st.pc + (own,), vget(ex.rv(st, a[2]), ((k,),)),
                           t.ite(isc, inh, A('rhs_of_data')), control=True)
                    refs = [deref(ex, st, v) for v in op.f.values()]
                    ctx.record('the operator is the one of this problem', any(v is st.store[this.cell] for v in refs), 'symbolic execution')
                    ctx.record('the operator carries the constraints made for the data', any(isinstance(v, Obj) and str(v.term) == str(t.const('made', 'Obj:AffineConstraints')) for v in refs), 'symbolic execution')
                    x0 = vget(ex.rv(st, a[1]), ((k,),))
                    ctx.eq('the iteration starts from the same vector every time', st.pc, x0, t.R(0))
                    ctx.eq('the free term in use is the one of this discretisation', st.pc, vget(field(ex, st, this, 'alpha'), ((k,),)), A('free_term'))
                    ex.write(st, a[1], mkvec('u'))
                    return VOID
                ex.models.ext_methods[('SolverGMRES', 'solve')] = solve
                ex.call(st, P.one(B, 'solve_system'), this, [phi, dphi, g])
                ctx.record('the system is solved once', steps.count('solve') == 1, 'symbolic execution', str(steps))
                isN = t.eq(a('dirichlet_nodes'), t.R(0))
                p, q = at(ex, st, phi), at(ex, st, dphi)
                u = a('u')
                base = st.pc + (own,)
                ctx.eq('Neumann node: the unknown is the potential', base + (isN,), p, u, control=True)
                ctx.eq('Neumann node: the flux stays the data', base + (isN,), q, a('dphi_dn'), control=True)
                ctx.eq('Dirichlet node: the potential stays the data', base + (t.not_(isN),), p, a('phi'), control=True)
                ctx.eq('Dirichlet node: the unknown is the flux', base + (t.not_(isN),), q, u, control=True)
                ctx.eq('the data are unchanged', st.pc, at(ex, st, g), a('g'))
                ctx.discharge(ex)

            with ctx.fn('%s::solve (%s)' % (B, method)):
                ex = ctx.exec()
                st = St()
                this = problem(ex, st, dim)
                st.store[this.cell].f['solution_method'] = t.const(method, 'S')
                phi, dphi, g = vec(ex, st, 'phi'), vec(ex, st, 'dphi_dn'), vec(ex, st, 'g')
                for c in (t.le(t.I(1), n),) + RNG:
                    st.assume(c)
                one_process(ex)
                steps = []

                def step(name):
                    def f(ex, st, th, a, nd):
                        steps.append(name)
                        return VOID
                    return f
                ex.contracts[(B, 'assemble_system')] = step('assemble_system')
                for x in ('generate_octree_blocking', 'direct_integrals', 'multipole_integrals'):
                    ex.models.ext_methods[('BEMFMA', x)] = step(x)

                def sys(ex, st, th, a, nd):
                    steps.append('solve_system')
                    for x, v in zip(a, ('phi', 'dphi_dn', 'g')):
                        ctx.eq('the system is solved for the given fields: ' + v, st.pc, vget(ex.rv(st, x), ((k,),)), A(v))
                    ex.write(st, a[0], mkvec('phi1'))
                    ex.write(st, a[1], mkvec('dphi1'))
                    return VOID
                ex.contracts[(B, 'solve_system')] = sys
                ex.call(st, P.one(B, 'solve'), this, [phi, dphi, g])
                need = ['assemble_system'] if method == 'Direct' else ['generate_octree_blocking', 'direct_integrals', 'multipole_integrals']
                ok = steps.count('solve_system') == 1 and steps[-1] == 'solve_system' and [x for x in steps if x in need] == need
                ctx.record('the operators of this discretisation are set up, then the system is solved', ok, 'symbolic execution', str(steps))
                ctx.eq('the potential returned is the one computed', st.pc, at(ex, st, phi), A('phi1'))
                ctx.eq('the flux returned is the one computed', st.pc, at(ex, st, dphi), A('dphi1'))
                ctx.discharge(ex)



def deref(ex, st, v):
    return ex.read(st, LV(v.cell, v.path)) if isinstance(v, (Ptr, LV)) else v
