"""Nodes are classified and coincident nodes identified exactly."""
from dv import terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget, pieces_size
from spec.bem import *
from spec.worlds import world

HARNESSES = [world('bvp', ('P13',), 'real classification, coincident sets and renumbering on generated surfaces'),
             world('bvp', ('P13',), 'real classification, coincident sets and renumbering on generated surfaces', np=3)]


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem'), ('source/bem_problem.cc', 'vector_shift'), ('source/bem_problem.cc', 'ComputationalDomain')])
    for dim in (3, 2):
        B = 'BEMProblem<%d>' % dim
        with ctx.fn(B + '::compute_dirichlet_and_neumann_dofs_vectors'):
            ex = ctx.exec()
            st = St()
            mine = some_owned(ex)
            this = problem(ex, st, dim, owned=mine)
            own = vget(mine, ((k,),))
            one_process(ex)
            for c in (t.le(t.I(1), n), t.le(t.I(0), fem.NCELLS)) + RNG:
                st.assume(c)
            ex.call(st, P.one(B, 'compute_dirichlet_and_neumann_dofs_vectors'), this, [])
            d = vget(ex.read(st, LV(this.cell, ('dirichlet_nodes',))), ((k,),))
            m = vget(ex.read(st, LV(this.cell, ('neumann_nodes',))), ((k,),))
            D = Disc(ex, st, this)
            onD = D.some_cell(k, D.dirichlet)
            ctx.reach('some node is Dirichlet', st.pc + (onD,))
            ctx.eq('Dirichlet exactly if some panel containing the node carries a Dirichlet id', st.pc + (own,), d, t.ite(onD, t.R(1), t.R(0)), control=True)
            ctx.eq('Neumann otherwise', st.pc + (own,), m, t.ite(onD, t.R(0), t.R(1)), control=True)
            h = ex.read(st, LV(this.cell, ('have_dirichlet_bc',)))
            c = t.fresh('c', 'I')
            anyD = t.exists(c, t.and_(inr(c, fem.NCELLS), D.dirichlet(c)))
            ctx.eq('the problem has a Dirichlet part exactly if some panel carries a Dirichlet id', st.pc, h, anyD)
            ctx.discharge(ex)
        with ctx.fn(B + '::compute_reordering_vectors'):
            ex = ctx.exec()
            st = St()
            this = problem(ex, st, dim)
            N = t.mul(t.I(dim), n)
            dhs = {field(ex, st, this, x).term: (x, sz) for x, sz in (('dh', n), ('gradient_dh', N))}
            ex.models.ext_methods[('DoFHandler', 'n_dofs')] = lambda ex, st, lv, a, nd: dhs[ex.read(st, lv).term][1]

            def subwise(ex, st, a, nd):
                x, sz = dhs[ex.rv(st, a[1]).term]
                old = ex.read(st, a[0])
                ctx.eq('the renumbering of %s is asked for in a vector of its size' % x, st.pc, vget(old, ('#size',)), sz)
                p = Bijection('perm.' + x, sz)
                ex.write(st, a[0], Vec(old.et, sz, Arr(old.et, lambda kk: p(kk[0]))))
                return VOID
            ex.models.ext_funcs['compute_subdomain_wise'] = subwise
            st.assume(t.le(t.I(1), n))
            ex.call(st, P.one(B, 'compute_reordering_vectors'), this, [])
            for fwd, bwd, x, sz in (('original_to_sub_wise', 'sub_wise_to_original', 'dh', n), ('vec_original_to_sub_wise', 'vec_sub_wise_to_original', 'gradient_dh', N)):
                f, g = field(ex, st, this, fwd), field(ex, st, this, bwd)
                p = Bijection('perm.' + x, sz)
                pc = st.pc + (inr(k, sz),) + tuple(p.axioms(k)) + sum((tuple(p.axioms(t.I(i))) for i in range(4)), ())
                ctx.eq(fwd + ' is the renumbering', pc, vget(f, ((k,),)), p(k))
                ctx.eq('%s undoes %s' % (bwd, fwd), pc + tuple(p.axioms(p(k))), vget(g, ((vget(f, ((k,),)),),)), k)
                gk = vget(g, ((k,),))
                ctx.true('%s is a renumbering of the same range' % bwd, pc, inr(gk, sz))
                ctx.eq('%s undoes %s' % (fwd, bwd), pc, t.app(p.name, (gk,), 'I'), k)
            ctx.discharge(ex)
        with ctx.fn(B + '::compute_double_nodes_set'):
            ex = ctx.exec()
            st = St()
            this = problem(ex, st, dim)
            geometry(ex, dim)
            ex.models.ext_funcs['map_dofs_to_support_points'] = support
            for c in (t.le(t.I(1), n), t.le(t.I(0), fem.NCELLS)) + RNG:
                st.assume(c)
            ex.call(st, P.one(B, 'compute_double_nodes_set'), this, [])
            S = field(ex, st, this, 'double_nodes_set')
            ctx.eq('there is one set per node', st.pc, vget(S, ('#size',)), n)
            j = t.var('j', 'I')
            dh = Disc(ex, st, this).dh

            def edge(i):
                c, f, l = t.fresh('c', 'I'), t.fresh('f', 'I'), t.fresh('l', 'I')
                per = vget(field(ex, st, this, 'fe'), ('dofs_per_face',))
                return t.exists(c, t.exists(f, t.exists(l, t.and_(inr(c, fem.NCELLS), inr(f, t.I(2 * (dim - 1))), inr(l, per), t.app('face.at_boundary', (c, f), 'B'),
                                                                  t.eq(t.app(dh + '.facedof', (c, f, l), 'I'), i)))))
            dist2 = None
            for d in range(dim):
                x = t.sub(t.app('%s.x%d' % (dh, d), (k,), 'R'), t.app('%s.x%d' % (dh, d), (j,), 'R'))
                dist2 = t.mul(x, x) if dist2 is None else t.add(dist2, t.mul(x, x))
            from fractions import Fraction
            near = t.lt(t.app('sqrt', (dist2,), 'R'), t.R(Fraction(1, 10**10)))
            jn = st.pc + (inr(j, n),)
            mem = vget(vget(S, ((k,),)), ((j,),))
            want = t.or_(t.eq(j, k), t.and_(edge(k), edge(j), near))
            ctx.reach('two nodes coincide', jn + (edge(k), edge(j), near, t.not_(t.eq(j, k))))
            ctx.eq('the set of a node holds it and exactly the edge nodes at its position', jn, mem, want, control=True)
            ctx.discharge(ex)


def support(ex, st, a, nd):
    """DoFTools::map_dofs_to_support_points: the position of every node."""
    dh = str(ex.rv(st, a[1]).term)
    old = ex.read(st, a[2])
    dim = 3 if '3' in old.et else 2
    ex.write(st, a[2], Vec(old.et, vget(old, ('#size',)), Arr(old.et, lambda kk: Tup([t.app('%s.x%d' % (dh, d), (kk[0],), 'R') for d in range(dim)]))))
    return VOID
