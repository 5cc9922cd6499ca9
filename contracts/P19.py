"""The preconditioners take the entries of the true system."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world

HARNESSES = [world('bvp', ('P19',), 'the real preconditioning matrices against the constrained operator')]
j = t.var('j', 'I')


def constrained(i, c='bem.constraints'):
    return t.app('AffineConstraints.is_constrained', (t.const(c, 'S') if isinstance(c, str) else c, i), 'B')


def verify(ctx):
    fma_preconditioner(ctx)
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem')])
    for dim in (3, 2):
        B = 'BEMProblem<%d>' % dim
        with ctx.fn(B + '::assemble_preconditioner'):
            ex = ctx.exec()
            st = St()
            mine = some_owned(ex)
            this = problem(ex, st, dim, owned=mine)
            one_process(ex)
            own = vget(mine, ((k,),))
            st.store[this.cell].f['is_preconditioner_initialized'] = t.FALSE
            pp = field(ex, st, this, 'preconditioner_sparsity_pattern')
            st.store[this.cell].f['preconditioner_sparsity_pattern'] = Struct(pp.cls, {'m': n, 'n': n, 'a': Arr('bool', lambda kk: t.FALSE)})
            ex.models.ext_methods[(None, 'initialize')] = lambda ex, st, lv, a, nd: VOID
            for c in (t.le(t.I(1), n),) + RNG + (inr(j, n), own):
                st.assume(c)
            band = field(ex, st, this, 'preconditioner_band')
            st.assume(t.le(t.I(2), band))
            cons = field(ex, st, this, 'constraints').term

            def check(when, tag=''):
                M = field(ex, st, this, 'band_system')
                pat = field(ex, st, this, 'preconditioner_sparsity_pattern')
                e = vget(M.get('a'), ((k, j),))
                inpat = vget(pat.get('a'), ((k, j),))
                isc = constrained(k, cons)
                isN = t.eq(a('dirichlet_nodes' + tag, j), t.R(0))
                diag = t.eq(k, j)
                pc = st.pc + (inpat,)
                ctx.reach('an entry off the diagonal is in the pattern', pc + (t.not_(diag),))
                ctx.eq('the diagonal is in the pattern' + when, st.pc, t.implies(diag, inpat), t.TRUE)
                ctx.eq('Neumann column: double layer, free term on the diagonal' + when, pc + (t.not_(isc), isN), e, t.add(a('N' + tag, k, j), t.ite(diag, a('alpha' + tag), t.R(0))), control=True)
                ctx.eq('Dirichlet column: minus the single layer' + when, pc + (t.not_(isc), t.not_(isN)), e, t.neg(a('D' + tag, k, j)), control=True)
                ctx.eq('constrained row: its diagonal' + when, pc + (isc,), e, t.ite(diag, t.R(1), t.R(0)), control=True)
                ctx.eq('no entry outside the pattern' + when, st.pc + (t.not_(inpat),), e, t.R(0))
            ex.call(st, P.one(B, 'assemble_preconditioner'), this, [])
            check('')
            # again for other operators on the same discretisation
            s = st.store[this.cell]
            f = dict(s.f)
            f.update(alpha=mkvec('alpha2'), dirichlet_nodes=mkvec('dirichlet_nodes2'), neumann_matrix=mkmat('N2'), dirichlet_matrix=mkmat('D2'))
            st.store[this.cell] = Struct(s.cls, f, s.lazy)
            ex.call(st, P.one(B, 'assemble_preconditioner'), this, [])
            check(' (assembled again)', '2')
            ctx.discharge(ex)


def fma_preconditioner(ctx):
    P = ctx.load([('source/bem_fma.cc', 'BEMFMA')])
    F = 'BEMFMA<3>'
    with ctx.fn(F + '::FMA_preconditioner'):
        ex = ctx.exec()
        st = St()
        this = LV(('fma',))
        s = ex.mk_sym(F, 'fma')
        f = dict(s.f)
        mine = some_owned(ex)
        f['this_cpu_set'] = mine
        own = vget(mine, ((k,),))
        f['init_preconditioner'] = mkmat('A0')
        st.store[this.cell] = Struct(s.cls, f, s.lazy)
        ex.models.ext_methods[('DoFHandler', 'n_dofs')] = lambda ex, st, lv, a, nd: n
        ex.models.ext_methods[(None, 'initialize')] = lambda ex, st, lv, a, nd: VOID
        al = vec(ex, st, 'al')
        c = LV(('constraints',))
        st.store[c.cell] = Obj('AffineConstraints', t.const('made', 'Obj:AffineConstraints'))
        made = st.store[c.cell].term
        size, col, coef = entries(made, k)
        for x in (t.le(t.I(1), n),) + RNG + (inr(j, n), own):
            st.assume(x)
        # the near-field pattern holds the diagonal
        P0 = Arr('bool', lambda kk: t.or_(t.eq(kk[0], kk[1]), t.app('near', tuple(kk), 'B')))
        pp = field(ex, st, this, 'init_prec_sparsity_pattern')
        s = st.store[this.cell]
        st.store[this.cell] = Struct(s.cls, dict(s.f, init_prec_sparsity_pattern=Struct(pp.cls, dict(pp.f, a=P0))), s.lazy)
        D = vget(field(ex, st, this, 'dirichlet_nodes'), ((k,),))
        ex.call(st, P.one(F, 'FMA_preconditioner'), this, [al, c])
        M = field(ex, st, this, 'final_preconditioner')
        pat = field(ex, st, this, 'final_prec_sparsity_pattern')
        e = vget(M.get('a'), ((k, j),))
        inpat = vget(pat.get('a'), ((k, j),))
        isc = constrained(k, made)
        m = t.var('m', 'I')
        valid = inr(m, size)
        pos = col.position(made, k, j)
        inj = col.axiom(made, k, m)
        # AffineConstraints holds no diagonal entries
        pre = st.pc + (inj, t.le(t.I(0), size), t.implies(inr(pos, size), t.not_(t.eq(col(made, k, pos), k))),
                       t.implies(valid, t.and_(t.not_(t.eq(col(made, k, m), k)), inr(col(made, k, m), n))))
        entry = t.and_(inr(pos, size), t.eq(col(made, k, pos), j))
        free = pre + (t.not_(isc),)
        diag = t.eq(k, j)
        A0 = t.ite(vget(P0, ((k, j),)), a('A0', k, j), t.R(0))
        ctx.reach('an entry off the diagonal is set', free + (t.not_(diag), vget(P0, ((k, j),))))
        ctx.eq('unconstrained row: near-field operator, free term on Neumann diagonals', free, e,
               t.add(A0, t.ite(t.and_(diag, t.eq(D, t.R(0))), a('al'), t.R(0))), control=True)
        ctx.eq('unconstrained row: the pattern is the near-field pattern', free, inpat, vget(P0, ((k, j),)))
        ctx.eq('constrained row: one on the diagonal', pre + (isc, diag), e, t.R(1), control=True)
        ctx.eq('constrained row: no other entries', pre + (isc, t.not_(diag), t.not_(entry)), e, t.R(0))
        cm = col(made, k, m)
        ctx.eq('constrained row: minus the coefficients', pre + (isc, valid), vget(M.get('a'), ((k, cm),)), t.neg(coef(m)), control=True)
        ctx.discharge(ex)
