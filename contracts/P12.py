"""Constrained rows of the operator are the constraint equations."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.check import Harness
from dv.access import vget

from spec.worlds import world
HARNESSES = [world('bvp', ('P12',), 'the real constrained operator on generated problems with hanging and coincident nodes')]


def vec(ex, st, name, n):
    lv = LV((name,))
    st.store[lv.cell] = Vec('double', n, Arr('double', lambda k: t.app(name + '[]', k, 'R'), {}, name))
    return lv


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'ConstrainedOperator')])
    n = t.var('n', 'I')
    for dim in (2, 3):
        CO = 'ConstrainedOperator<TrilinosWrappers::MPI::Vector, BEMProblem<%d>>' % dim

        def setup():
            ex = ctx.exec()
            st = St()
            this = LV(('op',))
            st.store[this.cell] = ex.mk_sym(CO, 'op')
            owned = ex.mk_sym('IndexSet', 'owned')
            ex.hooks['owned'] = lambda ex, st, lv, v: owned

            def matvec(ex, st, lv, args, n):
                src = ex.rv(st, args[1])
                # the unconstrained operator: any function of the argument; it overwrites dst
                j = t.fresh('j', 'I')
                s0 = st.store[('src',)]
                ctx.record('vmult applies the operator to the argument', src is s0 or src.data is s0.data, 'symbolic execution')
                ex.write(st, args[0], Vec('double', src.size, Arr('double', lambda k: t.app('Mv', k, 'R'))))
                return VOID
            ex.models.ext_methods[('BEMProblem', 'vmult')] = matvec
            st.assume(t.le(t.I(0), n))
            return ex, st, this, owned
        k = t.var('k', 'I')
        rng = (t.le(t.I(0), k), t.lt(k, n))
        own = t.app('owned.has', (k,), 'B')
        with ctx.fn('ConstrainedOperator<%d>::vmult' % dim):
            ex, st, this, owned = setup()
            src, dst = vec(ex, st, 'src', n), vec(ex, st, 'dst', n)
            cons = ex.load_cell(st, this.cell).get('constraints')
            ex.call(st, P.one(CO, 'vmult'), this, [dst, src])
            isc = t.app('AffineConstraints.is_constrained', (cons.term, k), 'B')
            x = lambda i: t.app('src[]', (i,), 'R')
            out = vget(ex.read(st, dst), ((k,),))
            m = t.var('m', 'I')
            ent = 'AffineConstraints.get_constraint_entries*'
            size = t.app(ent + '.size', (cons.term, k), 'I')
            tied = t.sum_(m, t.and_(t.le(t.I(0), m), t.lt(m, size)),
                          t.mul(t.app(ent + '[].1', (cons.term, k, m), 'R'), x(t.app(ent + '[].0', (cons.term, k, m), 'I'))))
            st.assume(rng[0])
            st.assume(rng[1])
            ctx.reach('a constrained row exists', st.pc + (isc, own))
            ctx.eq('constrained owned row: value minus the weighted values it is tied to', st.pc + (isc, own), out, t.sub(x(k), tied), control=True)
            ctx.eq('unconstrained row: the unconstrained operator', st.pc + (t.not_(isc),), out, t.app('Mv', (k,), 'R'), control=True)
            ctx.eq('row of another process: left to its owner', st.pc + (isc, t.not_(own)), out, t.app('Mv', (k,), 'R'))
            ctx.eq('the argument is unchanged', st.pc, vget(ex.read(st, src), ((k,),)), x(k))
            ctx.discharge(ex)
        with ctx.fn('ConstrainedOperator<%d>::distribute_rhs' % dim):
            ex, st, this, owned = setup()
            ex.hooks['owned'] = lambda ex, st, lv, v: owned
            rhs = vec(ex, st, 'b', n)
            cons = ex.load_cell(st, this.cell).get('constraints')
            ex.call(st, P.one(CO, 'distribute_rhs'), this, [rhs])
            isc = t.app('AffineConstraints.is_constrained', (cons.term, k), 'B')
            out = vget(ex.read(st, rhs), ((k,),))
            st.assume(rng[0])
            st.assume(rng[1])
            b = t.app('b[]', (k,), 'R')
            inh = t.app('AffineConstraints.get_inhomogeneity', (cons.term, k), 'R')
            ctx.eq('constrained owned row: the inhomogeneity', st.pc + (isc, own), out, inh, control=True)
            ctx.eq('unconstrained row: untouched', st.pc + (t.not_(isc),), out, b, control=True)
            ctx.eq('row of another process: left to its owner', st.pc + (isc, t.not_(own)), out, b)
            ctx.discharge(ex)
