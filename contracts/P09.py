"""Assembled matrices hold the collocation integrals."""
from dv import access, terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.assembly import flags
from spec.worlds import world
from contracts.P13 import support

HARNESSES = [world('fields', ('P09',), 'real matrices against dense collocation sums')]
l, c = t.var('l', 'I'), t.var('c', 'I')


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem'), ('source/bem_problem.cc', 'vector_shift'), ('source/bem_problem.cc', 'ComputationalDomain'), ('source/bem_problem.cc', 'LaplaceKernel')])
    for dim in (3, 2):
        rules(ctx, P, dim)
        assemble(ctx, P, dim)




def rules(ctx, P, dim):
    """get_singular_quadrature, for any earlier cache content satisfying the invariant"""
    B = 'BEMProblem<%d>' % dim
    with ctx.fn(B + '::get_singular_quadrature'):
        split = lambda order, x: t.app('new:QSplit', (t.app('new:QDuffy', (order, t.R(1)), 'Obj:QDuffy'),) + x, 'Obj:QSplit') if dim == 3 else t.app('new:QTelles', (order,) + x, 'Obj:QTelles')
        for state in ('no entry yet', 'an empty entry', 'a filled entry'):
            ex = ctx.exec()
            st = St()
            this = problem(ex, st, dim, owned=some_owned(ex))
            fe = field(ex, st, this, 'fe')
            order = field(ex, st, this, 'singular_quadrature_order')
            i = t.var('index', 'I')
            dpc = vget(fe, ('dofs_per_cell',))
            name0 = t.app('FiniteElement.get_name', (fe.term,), 'S')

            def canon(K):
                """the entry of an element and an order, however the key is arranged"""
                s = [x.sort for x in K]
                return (K[s.index('S')], K[s.index('I')]) if sorted(s) == ['I', 'S'] else tuple(K)
            here = lambda K: t.and_(*[t.eq(x, y) for x, y in zip(canon(K), (name0, order))]) if len(K) == 2 else t.TRUE
            rule = lambda K, i: Obj('Quadrature<%d>' % (dim - 1), t.app('cached.rule', canon(K) + (i,), 'Obj:Quadrature'))
            got = {}

            def cache(ex, st, d, fr):
                """each entry is empty or holds the rules of its element and order"""
                m = ex.mk_sym(d.type, 'cache')
                size = lambda K: t.ite(here(K), dpc if state == 'a filled entry' else t.I(0), t.ite(t.app('cached', canon(K), 'B'), t.app('cached.dpc', canon(K), 'I'), t.I(0)))
                data = Arr(m.vt, lambda K: Vec('Quadrature<%d>' % (dim - 1), size(K), Arr('Quadrature<%d>' % (dim - 1), lambda i: rule(K, i[0]))))
                v = MapV(m.kt, m.vt, data, Arr('bool', lambda K: t.ite(here(K), t.const(state != 'no entry yet', 'B'), t.app('has', canon(K), 'B'))))
                got['cell'] = ('S', fr.fn.cls, fr.fn.name, d.a.get('name'))
                got['before'] = v
                return v
            ex.static_init['*'] = cache
            st.assume(inr(i, dpc))
            f = [x for x in P.find('BEMProblem<%d>' % dim, 'get_singular_quadrature') if 'Quadrature<%d>' % (dim - 1) in x.sig]
            v = ex.rv(st, ex.call(st, f[0], this, [i]))
            point = lambda i: tuple(t.app('FiniteElement.get_unit_support_points[].%d' % d, (fe.term, i), 'R') for d in range(dim - 1))
            want = lambda i: split(order, point(i)) if state != 'a filled entry' else t.app('cached.rule', (name0, order, i), 'Obj:Quadrature')
            ctx.true('%s: the rule of the order in force, centred at the given support point' % state, st.pc, t.eq(v.term, want(i)))
            # the invariant of the cache
            after, before = ex.load_cell(st, LV(got['cell']).cell), got['before']
            K = tuple(t.var('key%d' % a, s) for a, s in enumerate(sorts(before.kt)))
            K0 = tuple(name0 if x.sort == 'S' else order for x in K)
            ctx.eq('%s: the entry holds one rule for each support point' % state, st.pc, vget(after.data, (K0, '#size')), t.sum_(i, inr(i, dpc), t.I(1)) if state != 'a filled entry' else dpc)
            ctx.true('%s: rule of every support point' % state, st.pc, t.eq(vget(after.data, (K0, (i,))).term, want(i)))
            other = st.pc + (t.not_(here(K)),)
            with access.under(other):
                ctx.eq('%s: entries of other elements and orders keep their size' % state, other, vget(after.data, (K, '#size')), vget(before.data, (K, '#size')))
                ctx.true('%s: entries of other elements and orders keep their rules' % state, other, t.eq(vget(after.data, (K, (i,))).term, vget(before.data, (K, (i,))).term))
                ctx.true('%s: no other entry appears' % state, other, t.eq(vget(after.dom, (K,)), vget(before.dom, (K,))))
            ctx.discharge(ex)


def sorts(kt):
    """the sorts of the parts of a key type"""
    kt = str(kt)
    a = kt[kt.index('<') + 1:kt.rindex('>')].split(', ') if 'pair<' in kt else [kt]
    return ['S' if 'string' in x else 'I' for x in a]


def kernel(dim):
    """the kernels of P02 as functions of the distance vector"""
    def f(ex, st, a, nd):
        r = ex.rv(st, a[0])
        R = tuple(r.items)
        ex.write(st, a[1], Tup([t.app('K.grad%d' % d, R, 'R') for d in range(dim)]))
        ex.write(st, a[2], t.app('K.value', R, 'R'))
        return VOID
    return f


def assemble(ctx, P, dim):
    B = 'BEMProblem<%d>' % dim
    with ctx.fn(B + '::assemble_system'):
        ex = ctx.exec()
        st = St()
        mine = some_owned(ex)
        this = problem(ex, st, dim, owned=mine)
        one_process(ex)
        geometry(ex, dim)
        ex.models.ext_funcs['map_dofs_to_support_points'] = support
        ex.contracts[(B, 'get_singular_quadrature')] = ex.contracts[('BEMProblem', 'get_singular_quadrature')] = lambda ex, st, th, a, nd: ex.tmp(st, Obj('Quadrature<%d>' % (dim - 1), t.app('singular.rule', (a[0],), 'Obj:Quadrature')))
        ex.contracts[(None, 'kernels')] = lambda ex, st, th, a, nd: kernel(dim)(ex, st, a, nd)
        for x in (t.le(t.I(1), n), t.le(t.I(0), fem.NCELLS), inr(l, n)) + RNG:
            st.assume(x)
        ex.call(st, P.one(B, 'assemble_system'), this, [])
        out = {x: vget(field(ex, st, this, x), ('a', (k, l))) for x in ('neumann_matrix', 'dirichlet_matrix')}
        regular, special, rules = set(), set(), set()
        for v in out.values():
            for x in t.subterms(v):
                if x.op == 'app' and x.val == 'FEValues.at':
                    base, cell = x.args
                    if str(base.args[2]) == 'bem.quadrature*':
                        regular.add(base)
                    elif base.args[2].op == 'app' and base.args[2].val == 'singular.rule':
                        rule = base.args[2].args[0]
                        row = [y for y in t.free_vars(rule) if y is not cell and y.sort == 'I' and y not in (n, k, l, fem.NCELLS)]
                        m = dict([(cell, c)] + [(y, k) for y in row[:1]])
                        special.add(t.subst(base, m))
                        rules.add(t.subst(rule, m))
                    else:
                        special.add(base)
        if not ctx.record('one regular and one singular rule', len(regular) == 1 and len(special) == 1 and len(rules) == 1, 'symbolic execution', str(regular) + str(special)[:800]):
            ctx.discharge(ex)
            return
        reg, spc, rule = regular.pop(), special.pop(), rules.pop()
        for x, what in ((reg, 'regular'), (spc, 'singular')):
            ctx.record('the %s rule is used on the mapped panel' % what, str(x.args[0]) == 'bem.mapping*' and str(x.args[1]) == 'bem.fe*' and {'update_values', 'update_normal_vectors', 'update_quadrature_points'} <= flags(ex, x), 'symbolic execution', str(x)[:500])
        dpc = vget(field(ex, st, this, 'fe'), ('dofs_per_cell',))
        dh = str(field(ex, st, this, 'dh').term)
        dof = lambda c, m: t.app(dh + '.dof', (c, m), 'I')
        twin = lambda x, y: vget(vget(field(ex, st, this, 'double_nodes_set'), ((x,),)), ((y,),))
        e = t.var('e', 'I')
        near = lambda c: t.exists(e, t.and_(inr(e, dpc), twin(k, dof(c, e))))
        cell = st.pc + (vget(mine, ((k,),)), inr(c, fem.NCELLS), near(c))
        ctx.reach('some panel contains the node', cell)
        ctx.true('the singular rule is centred at a node of the panel that coincides with the collocation node', cell, t.and_(inr(rule, dpc), twin(k, dof(c, rule))))

        def integral(base, c, j, what):
            fe = t.app('FEValues.at', (base, c), base.sort)

            def at(q):
                R = tuple(t.sub(t.app('FEValuesBase.get_quadrature_points[].%d' % d, (fe, q), 'R'), t.app('%s.x%d' % (dh, d), (k,), 'R')) for d in range(dim))
                if what == 'dirichlet_matrix':
                    v = t.app('K.value', R, 'R')
                else:
                    v = t.R(0)
                    for d in range(dim):
                        v = t.add(v, t.mul(t.app('K.grad%d' % d, R, 'R'), t.app('FEValuesBase.get_normal_vectors[].%d' % d, (fe, q), 'R')))
                return t.mul(v, t.mul(t.app('FEValuesBase.shape_value', (fe, j, q), 'R'), t.app('FEValuesBase.JxW', (fe, q), 'R')))
            return dot(at, t.app('Quadrature.size', (base.args[2],), 'I'))
        j = t.fresh('j', 'I')
        for what, v in out.items():
            spec = t.sum_(c, inr(c, fem.NCELLS), t.sum_(j, t.and_(inr(j, dpc), t.eq(dof(c, j), l)), t.ite(near(c), integral(spc, c, j, what), integral(reg, c, j, what))))
            ctx.eq('%s: rows of owned nodes' % what, st.pc + (vget(mine, ((k,),)),), v, spec, control=True)
            ctx.eq('%s: other rows stay zero' % what, st.pc + (t.not_(vget(mine, ((k,),))),), v, t.R(0))
        ctx.discharge(ex)
