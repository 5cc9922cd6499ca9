"""Every node-panel interaction is accounted exactly once."""
import functools
from dv import terms as t, fem, smt
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec import statement as sm
from spec.worlds import world
from contracts.P13 import support
from contracts.P06 import scene, size, elements

HARNESSES = [world('fma', ('P07',), 'interaction lists and direct integrals of random meshes, every pair checked')]
I = t.I
HEAP = ('*', 'fma.blocks[]')


def verify(ctx):
    P = ctx.load([('source/bem_fma.cc', 'BEMFMA'), ('source/octree_block.cc', 'OctreeBlock'), ('source/bem_fma.cc', 'LaplaceKernel')])
    lemmas(ctx)
    for dim in (3, 2):
        neighbours(ctx, P, dim)
        lists(ctx, P, dim)
        direct(ctx, P, dim)


def has(s, x):
    return vget(s, ((x,),))


class Lists:
    """The lists of a block and the children of the blocks, as seen by a contract."""

    def __init__(self, h, jj):
        self.h, self.b = h, vget(h, ((jj,),))

    def near(self, s, x):
        return has(has(self.b.get('nearNeigh'), s), x)

    def int_(self, s, x):
        return has(has(self.b.get('intList'), s), x)

    def non(self, s, x):
        return has(has(self.b.get('nonIntList'), s), x)

    def sizes(self):
        return [self.b.get(x).size for x in ('nearNeigh', 'intList', 'nonIntList')]


def children(h, e):
    return vget(h, ((e,), 'numChildren'))


def child(h, e, i):
    return vget(h, ((e,), 'childrenId', (i,)))


def passed_down(h, above, x):
    """x comes from the blocks of `above` one level up: the leaves among them and the children of the others."""
    e, i = t.fresh('e', 'I'), t.fresh('i', 'I')
    kids = children(h, e)
    return t.or_(t.and_(above(x), t.eq(children(h, x), I(0))),
                 t.exists(e, t.exists(i, t.and_(above(e), t.not_(t.eq(kids, I(0))), inr(i, kids), t.eq(child(h, e, i), x)))))


def box(h, b):
    p, d = vget(h, ((b,), 'pMin')), vget(h, ((b,), 'delta'))
    return p.items, [t.add(x, d) for x in p.items]


def touch(b1, b2, tol):
    """two cubes have a common face in one direction and overlap in the others, up to the tolerance"""
    (l1, u1), (l2, u2) = b1, b2
    near = lambda x, y: t.and_(t.le(t.sub(x, y), tol), t.le(t.sub(y, x), tol))
    flush = [t.or_(near(a, d), near(b, c)) for a, b, c, d in zip(l1, u1, l2, u2)]
    over = [t.and_(t.le(t.sub(a, tol), d), t.le(c, t.add(b, tol))) for a, b, c, d in zip(l1, u1, l2, u2)]
    return t.or_(*[t.and_(flush[i], *[over[j] for j in range(len(l1)) if j != i]) for i in range(len(l1))])


def second(fn):
    """the loops of the neighbour search: over the blocks of a level, and over the finer levels for a leaf"""
    outer = [l for l in sm.loops(fn.body) if sm.calls(l, 'AddNearNeigh') and sm.calls(l, 'SetNearNeighSize')]
    over_blocks = [l for l in outer if not any(m is not l and m in outer for m in sm.loops(l))][0]
    sub = [l for l in sm.loops(over_blocks) if l is not over_blocks and sm.calls(l, 'AddNearNeigh') and sm.calls(l, 'GetNearNeighs')]
    return over_blocks, sub[0]


def neighbours(ctx, P, dim):
    F = 'BEMFMA<%d>' % dim
    with ctx.fn(F + '::generate_octree_blocking (neighbours)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        s.get('blocks').data.base((I(0),))
        h0 = ex.load_cell(st, HEAP)
        loop, sub = second(fn)
        kk, L = (t.app(x, (), 'I') for x in ('kk', 'level'))
        old = Lists(h0, kk)
        par = old.b.get('parentId')
        st.assume(t.lt(par, kk))
        n0, n1, n2 = old.sizes()
        st.assume(t.and_(t.eq(n0, I(1)), t.eq(n1, I(1)), t.eq(n2, I(1))))
        NL = s.get('num_octree_levels')
        st.assume(t.and_(t.le(I(2), L), t.le(L, NL)))
        a = sm.At(ex, st, fn, sm.without(sm.body(loop), lambda c: c is sub), this, {sm.counter(loop): kk, sm.counter(sm.around(fn, loop)[-1]): L})
        st = a.normal()
        h = ex.load_cell(st, HEAP)
        new = Lists(h, kk)
        x = t.fresh('x', 'I')
        pre = 'fma.blocks[]*.'
        b, k = t.fresh('b', 'I'), t.fresh('k', 'I')
        nn = lambda *v: t.app(pre + 'nearNeigh[].has', v, 'B')
        smt.define(pre + 'nearNeigh[].has', [b, k, x], t.implies(t.eq(b, kk), t.not_(nn(b, k, x))))
        up = Lists(h0, par)
        pc = tuple(st.pc)
        near = new.near(I(0), x)
        ctx.eq('a leaf has lists for all finer levels', pc, new.sizes()[0], t.ite(t.eq(children(h0, kk), I(0)), t.add(t.sub(NL, L), I(1)), I(1)), control=True)
        for i in (1, 2):
            ctx.eq('as many direct and expansion lists as neighbour lists', pc, new.sizes()[i], new.sizes()[0])
        search(ctx, pc, h0, kk, near, lambda z: up.near(I(0), z), x, I(0), True)
        l2 = t.fresh('s', 'I')
        ctx.true('no neighbours on finer levels yet', pc + (inr(l2, new.sizes()[0]), t.lt(I(0), l2)), t.not_(new.near(l2, x)))
        for nm in ('intList', 'nonIntList'):
            v = has(has(new.b.get(nm), l2), x)
            ctx.true('the other lists are still empty', pc + (inr(l2, new.sizes()[0]), t.not_(has(has(old.b.get(nm), I(0)), x))), t.not_(v))
        ctx.discharge(ex)
    with ctx.fn(F + '::generate_octree_blocking (neighbours on finer levels)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        s.get('blocks').data.base((I(0),))
        h0 = ex.load_cell(st, HEAP)
        loop, sub = second(fn)
        kk, S, L = (t.app(x, (), 'I') for x in ('kk', 'subLevel', 'level'))
        given = {sm.counter(loop): kk, sm.counter(sm.around(fn, loop)[-1]): L, sm.counter(sub): S}
        # what the locals of the enclosing statements hold
        before = sm.At(ex, st.fork(), fn, sm.part(sm.body(loop), lambda c: not sm.calls(c, 'AddNearNeigh')), this, given)
        end = before.normal()
        for x, lv in before.fr.env.items():
            if x not in given and lv.cell in end.store:
                given[x] = ex.read(end, lv)
        old = Lists(h0, kk)
        n0 = old.sizes()[0]
        st.assume(t.and_(t.le(I(1), S), t.lt(S, n0)))
        x, l2 = t.fresh('x', 'I'), t.fresh('s', 'I')
        b, k = t.fresh('b', 'I'), t.fresh('k', 'I')
        pre = 'fma.blocks[]*.nearNeigh[].has'
        smt.define(pre, [b, k, x], t.implies(t.and_(t.eq(b, kk), t.eq(k, S)), t.not_(t.app(pre, (b, k, x), 'B'))))
        a = sm.At(ex, st, fn, sm.body(sub), this, given)
        st = a.normal()
        h = ex.load_cell(st, HEAP)
        new = Lists(h, kk)
        pc = tuple(st.pc)
        search(ctx, pc, h0, kk, new.near(S, x), lambda z: old.near(t.sub(S, I(1)), z), x, S, False)
        ctx.eq('the other levels keep their neighbours', pc + (inr(l2, n0), t.not_(t.eq(l2, S))), new.near(l2, x), old.near(l2, x), control=True)
        ctx.discharge(ex)
    for what, member in (('neighbours', 'AddNearNeigh'), ('direct lists', 'AddBlockToIntList')):
        with ctx.fn(F + '::generate_octree_blocking (%s on level 1)' % what):
            fn, ex, st, this, s = scene(ctx, P, dim)
            s.get('blocks').data.base((I(0),))
            h0 = ex.load_cell(st, HEAP)
            loop = [l for l in sm.loops(fn.body) if sm.calls(l, member) and not sm.calls(l, 'GetNearNeighs')][0]
            first, last = (vget(s.get(v), ((I(1),),)) for v in ('startLevel', 'endLevel'))
            a = sm.At(ex, st, fn, loop, this, {})
            st = a.normal()
            h = ex.load_cell(st, HEAP)
            jj, x = t.fresh('b', 'I'), t.fresh('x', 'I')
            on = lambda v: t.and_(t.le(first, v), t.le(v, last))
            old, new = Lists(h0, jj), Lists(h, jj)
            pc = tuple(st.pc) + (t.lt(I(0), old.sizes()[0]), t.lt(I(0), old.sizes()[1]))
            get = (lambda v: v.near(I(0), x)) if member == 'AddNearNeigh' else (lambda v: v.int_(I(0), x))
            ctx.eq('all blocks of level 1', pc, get(new), t.or_(get(old), t.and_(on(jj), on(x))), control=True)
            ctx.discharge(ex)


def lemmas(ctx):
    """What the contracts on the lists add up to."""
    with ctx.fn('lemma: one list for every block on a path'):
        A = lambda nm, *v: t.app(nm, v, 'B')
        N = lambda nm, *v: t.app(nm, v, 'I')
        l, e, i, z = (t.var(v, 'I') for v in ('l', 'e', 'i', 'z'))
        q0, q1, kk, par = (t.app(v, (), 'I') for v in ('block of the point above', 'block of the point', 'kk', 'parent of kk'))
        kids, kid, lv = lambda v: N('numChildren', v), lambda v, w: N('child', v, w), lambda v: N('lv', v)
        pos = N('position', q1)
        pd = lambda above, x: t.or_(t.and_(above(x), t.eq(kids(x), I(0))),
                                    t.exists(e, t.exists(i, t.and_(above(e), t.not_(t.eq(kids(e), I(0))), inr(i, kids(e)), t.eq(kid(e, i), x)))))
        # P06: children know their parent and are one level deeper; a path descends through children and stays in a leaf
        tree = (t.forall(e, t.forall(i, t.implies(inr(i, kids(e)), t.and_(t.eq(N('parent', kid(e, i)), e), t.eq(lv(kid(e, i)), t.add(lv(e), I(1))))))),)
        path = (t.le(lv(q0), t.sub(l, I(1))), t.or_(t.and_(t.eq(kids(q0), I(0)), t.eq(q1, q0)),
                t.and_(t.not_(t.eq(kids(q0), I(0))), t.le(I(0), kids(q0)), inr(pos, kids(q0)), t.eq(kid(q0, pos), q1), t.eq(lv(q0), t.sub(l, I(1))))))
        above = lambda v: A('above', v)
        # lists of level l hold blocks of that level and leaves of the upper ones
        on = lambda v, m: t.and_(t.le(lv(v), m), t.implies(t.not_(t.eq(kids(v), I(0))), t.eq(lv(v), m)))
        shallow = (t.forall(z, t.implies(above(z), on(z, t.sub(l, I(1))))),)
        ctx.true('lists hold the blocks of their level', tree + shallow + (pd(above, q1),), on(q1, l))
        ctx.true('a point is passed down exactly along its path', tree + path + shallow, t.eq(t.ite(pd(above, q1), I(1), I(0)), t.ite(above(q0), I(1), I(0))))
        # the direct list of a block comes from the direct list one level above
        near_up, around, around_up = (lambda v, n=n: A(n, v) for n in ('near above', 'around', 'around above'))
        near = lambda v: A('near', v)
        inherit = (t.forall(z, t.implies(t.or_(near_up(z), around_up(z)), above(z))),)
        own = (near_up(par), inr(N('place'), kids(par)), t.eq(kid(par, N('place')), kk))
        ctx.true('a neighbour comes from the direct list above', tree + inherit + own + (near(q1), t.or_(t.eq(q1, kk), pd(near_up, q1))), pd(above, q1))
        ctx.true('a block around a node comes from the direct list above', tree + path + shallow + inherit + (t.implies(around(q1), around_up(q0)), around(q1)), pd(above, q1))
        direct, far = A('direct'), A('far')
        one = lambda c: t.ite(c, I(1), I(0))
        c = A('passed down')
        ctx.eq('handled on this level or passed on, once', (t.eq(one(c), one(above(q0))), t.implies(direct, c), t.eq(one(far), one(t.and_(c, t.not_(direct))))),
               t.add(one(direct), one(far)), one(above(q0)), control=True)
    for dim in (3, 2):
        with ctx.fn('lemma: blocks reached by expansions are separated (dim %d)' % dim):
            m, n = t.app('m', (), 'I'), t.app('n', (), 'I')
            p, q = ([t.app('%s%d' % (v, r), (), 'I') for r in range(dim)] for v in 'pq')
            # two cubes of the octree in units of the smaller edge
            b1, b2 = (p, [t.add(x, m) for x in p]), (q, [t.add(x, n) for x in q])
            # (b1 ends before b2 begins or the other way round)
            apart = t.or_(*[t.or_(t.le(b1[1][r], b2[0][r]), t.le(b2[1][r], b1[0][r])) for r in range(dim)])
            pc = (t.le(I(1), m), t.le(I(1), n), apart, t.not_(touch(b1, b2, I(0))))
            gap = t.or_(*[t.or_(t.le(t.add(b1[1][r], I(1)), b2[0][r]), t.le(t.add(b2[1][r], I(1)), b1[0][r])) for r in range(dim)])
            ctx.true('a block of the smaller size fits in between', pc, gap)
            ctx.reach('separated blocks exist', pc)
            d, x = t.app('edge', (), 'R'), [t.app('x%d' % r, (), 'R') for r in range(dim)]
            far = t.app('offset', (), 'R')
            ctx.true('centres of equal blocks are farther apart than their radii together', (t.lt(t.R(0), d), t.le(t.scale(2, d), far)),
                     t.lt(t.scale(dim, t.mul(d, d)), t.mul(far, far)))
            ctx.true('a point is farther from the centre of a smaller block than its radius', (t.lt(t.R(0), d), t.le(t.scale(t.Fraction(3, 2), d), far)),
                     t.lt(t.scale(t.Fraction(dim, 4), t.mul(d, d)), t.mul(far, far)))


def search(ctx, pc, h, kk, near, above, x, level, own):
    """The neighbours among the blocks passed down by `above`: all that touch kk, and only such."""
    e, i = t.fresh('e', 'I'), t.fresh('i', 'I')
    kids = children(h, e)
    ctx.true('neighbours come from the neighbours one level above', pc + (near,), t.or_(*([t.eq(x, kk)] if own else []), passed_down(h, above, x)))
    zero = t.R(0)
    if own:
        ctx.true('a block is its own neighbour', pc + (t.eq(x, kk),), near)
        ctx.true('a touching leaf is a neighbour', pc + (above(x), t.eq(children(h, x), I(0)), touch(box(h, kk), box(h, x), zero)), near, )
    else:
        ctx.true('a neighbouring leaf stays one', pc + (above(x), t.eq(children(h, x), I(0))), near)
    y = child(h, e, i)
    ctx.true('a touching child of a neighbour is a neighbour', pc + (above(e), inr(i, kids), t.eq(x, y), touch(box(h, kk), box(h, x), zero)), near)


def lists(ctx, P, dim):
    """Interaction lists of a block from the neighbours and the lists one level above."""
    F = 'BEMFMA<%d>' % dim
    A, N = 'AddBlockToIntList', 'AddBlockToNonIntList'
    fn = [f for f in P.find(F, 'generate_octree_blocking') if f.body is not None][0]
    outer = [l for l in sm.loops(fn.body) if sm.calls(l, A) and sm.calls(l, N)]
    # the innermost loop in which both lists of a block are made
    body = sm.body([l for l in outer if not any(m is not l and m in outer for m in sm.loops(l))][0])
    # the two lists are made one after the other: one contract for each step
    one, two = (sm.without(body, lambda c, x=x, y=y: c.kind in sm.LOOPS and sm.calls(c, y) and not sm.calls(c, x)) for x, y in ((A, N), (N, A)))
    if sm.calls(one, N) or sm.calls(two, A):
        one = two = body
    blocks = next(l for l in outer if sm.body(l) is body)
    for what, node in (('direct lists', one), ('expansion lists', two)):
        with ctx.fn(F + '::generate_octree_blocking (%s)' % what):
            fn, ex, st, this, s = scene(ctx, P, dim)
            s.get('blocks').data.base((I(0),))
            h0 = ex.load_cell(st, HEAP)
            jj, L = (t.app(x, (), 'I') for x in ('jj', 'level'))
            where = {sm.counter(blocks): jj, sm.counter(sm.around(fn, blocks)[-1]): L}
            old = Lists(h0, jj)
            b, k, x, y = (t.fresh(v, 'I') for v in 'bkxy')
            par = old.b.get('parentId')
            st.assume(t.lt(par, jj))            # P06: a parent is numbered before its children
            n0, n1, n2 = old.sizes()
            st.assume(t.and_(t.eq(n0, n1), t.eq(n0, n2), t.le(I(1), n0)))
            # the list that is made starts empty
            pre = 'fma.blocks[]*.%s[].has'
            for nm in ('nonIntList',) + (('intList',) if node is one else ()):
                smt.define(pre % nm, [b, k, x], t.implies(t.eq(b, jj), t.not_(t.app(pre % nm, (b, k, x), 'B'))))
            a = sm.At(ex, st, fn, node, this, where)
            st = a.normal()
            h = ex.load_cell(st, HEAP)
            new, up = Lists(h, jj), Lists(h0, par)
            lev = t.fresh('s', 'I')
            pc = tuple(st.pc) + (inr(lev, n0),)
            direct = new.int_(lev, x)
            if node is one:
                around = near_a_twin(ex, st, s, old.b.get('nodesId'), lambda c, q: vget(vget(vget(s.get('quad_point_to_block').data, ((c,),)), ((q,),)), ((t.add(L, lev),),)), x)
                ctx.eq('blocks integrated directly: the neighbours and those around the nodes of the block', pc, direct, t.or_(old.near(lev, x), around), control=True)
                ctx.eq('the neighbours stay', pc, new.near(lev, x), old.near(lev, x))
            if node is two:
                above = lambda z: t.ite(t.eq(lev, I(0)), up.int_(I(0), z), new.int_(t.sub(lev, I(1)), z))
                ctx.eq('blocks reached by expansions: the others that come from the direct list one level above', pc, new.non(lev, x), t.and_(passed_down(h0, above, x), t.not_(direct)), control=True)
                if node is not one:
                    ctx.eq('the direct lists stay', pc, direct, old.int_(lev, x))
            ctx.discharge(ex)


def near_a_twin(ex, st, s, nodes, where, z):
    """z holds a quadrature point of a panel of a node that coincides with one of the nodes"""
    dns = ex.load_cell(st, ('*', 'fma.double_nodes_set'))
    p, e, c, q = (t.fresh(w, 'I') for w in ('p', 'e', 'c', 'q'))
    cells = vget(s.get('dof_to_elems').data, ((e,),))
    cell = vget(cells, ((c,),)).x
    g = t.and_(inr(p, nodes.size), has(has(dns, has(nodes, p)), e), inr(c, cells.size), inr(q, vget(s.get('quadPoints').data, ((cell,),)).size), t.eq(where(cell, q), z))
    for w in (q, c, e, p):
        g = t.exists(w, g)
    return g


def kernels_of_P02(dim):
    from contracts.P09 import kernel
    return lambda ex, st, th, a, nd: kernel(dim)(ex, st, a, nd)


LISTS = {'fma.childlessList.size': 'the direct list', 'fma.dofs_filled_blocks[].size': 'larger far blocks'}


def direct(ctx, P, dim):
    """The near field matrices: the pairs of the direct lists, and of far blocks larger than the block, each integrated once."""
    F = 'BEMFMA<%d>' % dim
    runs = {}
    with ctx.fn(F + '::direct_integrals (ranges)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        fn = [f for f in P.find(F, 'direct_integrals') if f.body is not None][0]
        s.get('blocks').data.base((I(0),))
        ex.models.ext_funcs['map_dofs_to_support_points'] = support
        ex.contracts[(None, 'kernels')] = kernels_of_P02(dim)
        zero = Arr('int', lambda kk: I(0))
        for x in LISTS.values():
            for y in ('rows', 'pattern'):
                st.store[(x, y)] = zero
        r, l = t.app('r', (), 'I'), t.app('l', (), 'I')
        for nm in MATRICES.values():
            field(ex, st, this, nm)

        def stream(ex, st, fr, args, nd):
            lo, hi = (x.x if isinstance(x, It) and x.kind == 'pos' else x for x in (ex.rv(st, y) for y in args[:2]))
            if not (isinstance(hi, T) and hi.op == 'app' and hi.val in LISTS and len(args) == 6):
                raise Unsupported('WorkStream::run over %s' % hi)
            what, level = LISTS[hi.val], (hi.args or (I(0),))[0]
            item = ex.rv(st, args[0])
            copy = ex.rv(st, args[5])
            part = 'pattern' if 'col_indices' in copy.f else 'rows'
            ex.oblige('the whole list', st, t.eq(lo, I(0)))
            if part == 'rows':
                for nm in MATRICES.values():
                    if what == 'the direct list':
                        ex.oblige('the matrices start from zero', st, t.eq(vget(field(ex, st, this, nm), ('a', (r, l))), t.R(0)))
            ex.write(st, LV((what, part), ((level,),)), I(1), 'add')
            runs[what, part] = (st.fork(), args, nd, item, level, copy.cls)
            return VOID
        ex.hooks['workstream'] = stream
        ex.call(st, fn, this, [])
        x = t.fresh('level', 'I')
        NL = s.get('num_octree_levels')
        for (what, part), done in sorted((kk, st.store[kk]) for kk in ((a, b) for a in LISTS.values() for b in ('rows', 'pattern'))):
            want = t.eq(x, I(0)) if what == 'the direct list' else inr(x, t.add(NL, I(1)), 1)
            ctx.eq('%s: %s, once for every list of blocks' % (what, part), tuple(st.pc), vget(done, ((x,),)), t.ite(want, I(1), I(0)), control=True)
        ctx.discharge(ex)
    if len(runs) != 4:
        return
    for what in LISTS.values():
        with ctx.fn(F + '::direct_integrals (rows of %s)' % what):
            worker(ctx, dim, ex, this, s, runs[what, 'rows'], what == 'the direct list')
        with ctx.fn(F + '::direct_integrals (pattern of %s)' % what):
            pattern(ctx, dim, ex, this, s, runs[what, 'pattern'], what == 'the direct list')
        with ctx.fn(F + '::direct_integrals (summing the rows of %s)' % what):
            copier(ctx, dim, ex, this, s, runs[what, 'rows'])
        with ctx.fn(F + '::direct_integrals (filling the pattern for %s)' % what):
            pattern_copier(ctx, ex, this, runs[what, 'pattern'])


MATRICES = {'double': 'prec_neumann_matrix', 'single': 'prec_dirichlet_matrix', 'prec': 'init_preconditioner'}


def some_copy(ex, st, args, cls):
    """The copy object handed over has any earlier contents."""
    return ex.tmp(st, ex.mk_sym(cls, 'copy'))


def one_block(ex, s, run, special):
    """The worker applied to one item of its list: (state, block, copy data, what the block holds)"""
    st, args, nd, item, level, cls = run
    st = st.fork()
    p = t.app('item', (), 'I')
    lst = s.get('childlessList') if special else vget(s.get('dofs_filled_blocks'), ((level,),))
    st.assume(inr(p, lst.size))
    block = vget(lst, ((p,),))
    b = vget(ex.load_cell(st, HEAP), ((block,),))
    n1, n2 = (b.get(v).size for v in ('intList', 'nonIntList'))
    # (the lists of a block: one per finer level for a leaf, one otherwise)
    st.assume(t.and_(t.le(I(1), n1), t.eq(n2, n1), t.eq(b.get('nearNeigh').size, n1)))
    copy = some_copy(ex, st, args, cls)
    x = p if isinstance(item, T) else It('pos', item.c, p, item.ck)
    ex.apply(st, ex.rv(st, args[2]), [ex.tmp(st, x), ex.tmp(st, ex.rv(st, args[4])), copy], nd)
    h = ex.load_cell(st, HEAP)
    start = vget(s.get('startLevel'), ((level,),))
    z, l, m = t.fresh('z', 'I'), t.fresh('l', 'I'), t.fresh('m', 'I')

    def reached(c, q=None):
        """some point (the point q) of the panel lies in a block to be integrated directly"""
        if special:
            on = has(has(b.get('intList'), t.sub(n1, I(1))), z)
        else:
            on = t.exists(l, t.and_(inr(l, n2), has(has(b.get('nonIntList'), l), z), t.lt(z, start)))
        pts = vget(h, ((z,), 'quadPointsId'))
        v = vget(pts.data, ((c,),))
        g = t.and_(on, vget(pts.dom, ((c,),)), inr(m, v.size))
        if q is not None:
            g = t.and_(g, t.eq(vget(v, ((m,),)), q))
        return t.exists(z, t.exists(m, g))
    return st, b, ex.read(st, copy), reached


def cleared(ctx, cd):
    """Nothing of what the copy object held before is handed on."""
    for nm, v in sorted(cd.f.items()):
        ps = v.pieces
        kept = 'copy.%s' % nm in str(v.size if ps is None else [p[2].size for p in ps if p[0] == 'gall'])
        ctx.record('%s holds nothing of an earlier block' % nm, not kept, 'symbolic execution', str(v)[:500])


def element(ex, st, this):
    fe = t.app('DoFHandler.get_fe', (field(ex, st, this, 'fma_dh').term,), 'Obj:FiniteElement')
    return fe, t.app('FE.dofs_per_cell', (fe,), 'I'), lambda c, j: t.app('dh.dof', (c, j), 'I')


def pattern(ctx, dim, ex, this, s, run, special):
    """Every unknown of a row is in the column list of its node."""
    st, b, cd, reached = one_block(ex, s, run, special)
    cleared(ctx, cd)
    fe, dpc, dof = element(ex, st, this)
    i, c, j = (t.fresh(v, 'I') for v in 'icj')
    nodes = b.get('nodesId')
    node = vget(nodes, ((i,),))
    rows, cols = cd.get('block_indices').pieces, cd.get('col_indices').pieces
    if rows is None or cols is None:
        raise Unsupported('contents of the pattern lists')
    heads = list(shapes(rows))
    tails = list(shapes(cols))
    ctx.record('one column list for every row', len(heads) == len(tails) and all(len(x[0]) == len(y[0]) for x, y in zip(heads, tails)), 'symbolic execution', '%s %s' % (heads, tails))
    pc = tuple(st.pc)
    cover = t.FALSE
    for (bs, g, v), (bs2, g2, v2) in zip(heads, tails):
        m = dict(zip(bs2, bs))
        g2, v2 = t.subst(g2, m), vsubst(v2, m)
        ctx.eq('the lists are filled together', pc, g, g2)
        x = t.and_(g, t.eq(v, node), occurs_in(v2, dof(c, j)))
        for y in bs:
            x = t.exists(y, x)
        cover = t.or_(cover, x)
    want = (inr(i, nodes.size), has(s.get('this_cpu_set'), node), reached(c), inr(j, dpc))
    ctx.reach('rows exist', pc + want)
    ctx.true('every entry of a row is in the pattern', pc + want, cover)
    ctx.discharge(ex)


def shapes(ps, bs=(), g=t.TRUE):
    """(binders, guard, element) of a list of pieces"""
    for p in ps:
        if p[0] == 'el':
            yield bs, t.and_(g, p[1]), p[2]
        elif p[0] == 'sub':
            yield from shapes(p[3], bs + (p[1],), t.and_(g, p[2]))
        else:
            raise Unsupported('contents of the pattern lists')


def occurs_in(v, x):
    r = t.FALSE
    for bs, g, e in elements(v):
        y = t.and_(g, t.eq(e, x))
        for b in bs:
            y = t.exists(b, y)
        r = t.or_(r, y)
    return r


def pattern_copier(ctx, ex, this, run):
    st, args, nd, item, level, cls = run
    st = st.fork()
    copy = some_copy(ex, st, args, cls)
    cd = ex.read(st, copy)
    rows, cols = cd.get('block_indices'), cd.get('col_indices')
    r, l, i, j = (t.app(v, (), 'I') for v in 'rlij')
    for x in (t.eq(rows.size, cols.size), inr(i, rows.size)):
        st.assume(x)
    mine = vget(cols, ((i,),))
    st.assume(inr(j, vget(mine, ('#size',))))
    ex.apply(st, ex.rv(st, args[3]), [copy], nd)
    pat = field(ex, st, this, 'init_prec_sparsity_pattern')
    ctx.true('every listed column of every row is added', tuple(st.pc), vget(pat, ('a', (vget(rows, ((i,),)), vget(mine, ((j,),))))))
    ctx.discharge(ex)


def copier(ctx, dim, ex, this, s, run):
    st, args, nd, item, level, cls = run
    st = st.fork()
    copy = some_copy(ex, st, args, cls)
    cd = ex.read(st, copy)
    r, l = t.app('r', (), 'I'), t.app('l', (), 'I')
    entry = lambda st, nm: vget(field(ex, st, this, nm), ('a', (r, l)))
    names = MATRICES
    for nm in names.values():
        m = field(ex, st, this, nm)
        st.store[this.cell].f[nm] = Struct(m.cls, dict(m.f, a=Arr('double', lambda kk, nm=nm: t.app('old.' + nm, kk, 'R')), pat=Arr('bool', lambda kk: t.TRUE)))
    old = {w: entry(st, nm) for w, nm in names.items()}
    ex.apply(st, ex.rv(st, args[3]), [copy], nd)
    fe, dpc, dof = element(ex, st, this)
    ii, kk, j = (t.fresh(v, 'I') for v in ('ii', 'kk', 'j'))
    el = lambda nm, *p: vget(cd.get(nm), tuple((x,) for x in p))
    count = lambda nm: cd.get(nm).size
    end = lambda x: t.ite(t.lt(x, t.sub(count('vec_node_index'), I(1))), el('vec_start_helper', t.add(x, I(1))), count('vec_local_dof_indices'))
    flag = vget(field(ex, st, this, 'dirichlet_nodes'), ((l,),))
    dirichlet = t.eq(flag, t.R(1))
    st.assume(t.or_(dirichlet, t.eq(flag, t.R(0))))     # P13

    def summed(v):
        one = lambda: t.sum_(j, t.and_(inr(j, dpc), t.eq(el('vec_local_dof_indices', kk, j), l)), v)
        return t.sum_(ii, t.and_(inr(ii, count('vec_node_index')), t.eq(el('vec_node_index', ii), r)),
                      t.sum_(kk, t.and_(t.le(el('vec_start_helper', ii), kk), t.lt(kk, end(ii))), one()))
    pc = tuple(st.pc)
    n_, d_ = (el('vec_local_%s_matrix_row_i' % x, kk, j) for x in ('neumann', 'dirichlet'))
    ctx.eq('the double layer entries of the rows are added to their nodes', pc, entry(st, names['double']), t.add(old['double'], summed(n_)), control=True)
    ctx.eq('the single layer entries of the rows are added to their nodes', pc, entry(st, names['single']), t.add(old['single'], summed(d_)))
    ctx.eq('near field preconditioner: double layer columns, negated single layer columns of Dirichlet nodes', pc, entry(st, names['prec']),
           t.add(old['prec'], summed(t.ite(dirichlet, t.neg(d_), n_))))
    ctx.discharge(ex)


def worker(ctx, dim, ex, this, s, run, special):
    st, b, cd, reached = one_block(ex, s, run, special)
    cleared(ctx, cd)
    fe, dpc, dof = element(ex, st, this)
    nodes, mine = b.get('nodesId'), s.get('this_cpu_set')
    i, c, j, q = (t.fresh(v, 'I') for v in 'icjq')
    node = vget(nodes, ((i,),))
    own = has(mine, node)
    pc = tuple(st.pc)
    listed, nid, first, dom, row = read_rows(ctx, pc, cd)
    here = t.and_(inr(i, nodes.size), own)
    ctx.eq('the nodes of a row are those of the block', pc + (inr(i, nodes.size), listed(i)), nid(i), node)
    ctx.true('every owned node of the block is listed', pc + (here,), listed(i))
    ctx.true('only nodes of the block are listed', pc + (listed(i),), inr(i, nodes.size))
    want = t.and_(here, reached(c))
    ctx.true('a row for every owned node and every panel with points to integrate directly', pc + (want,), dom(i, c))
    ctx.true('and for no other pair', pc + (dom(i, c),), want)
    y = t.fresh('y', 'I')
    ctx.eq('rows of a node begin after those of the nodes before it', pc + (listed(i),), first(i), t.sum_(y, t.and_(inr(y, nodes.size), t.lt(y, i)), t.sum_(c, dom(y, c), I(1))), control=True)
    pc += (dom(i, c), inr(j, dpc))
    ctx.eq('unknowns of a row', pc, row('vec_local_dof_indices', i, c, j), dof(c, j))
    ctx.reach('rows exist', pc)
    twin = lambda e: has(has(ex.load_cell(st, ('*', 'fma.double_nodes_set')), node), dof(c, e))
    e = t.fresh('e', 'I')
    near = t.exists(e, t.and_(inr(e, dpc), twin(e))) if special else None
    data = lambda nm, q: vget(vget(vget(s.get(nm).data, ((c,),)), ((q,),)), ())
    stored = lambda q: (data('quadPoints', q).items, data('quadNormals', q).items, vget(data('quadShapeFunValues', q), ((j,),)), data('quadJxW', q))
    for what, nm in (('double', 'vec_local_neumann_matrix_row_i'), ('single', 'vec_local_dirichlet_matrix_row_i')):
        regular = t.sum_(q, reached(c, q), term(dim, what, node, *stored(q)))
        v = row(nm, i, c, j)
        if not special:
            ctx.eq('%s layer: the stored points of the panel, by the regular rule' % what, pc, v, regular)
            continue
        ctx.eq('%s layer: panels away from the node, by the regular rule' % what, pc + (t.not_(near),), v, regular)
        ats = {x for x in t.subterms(v) if x.op == 'app' and x.val == 'FEValues.at'}
        if not ctx.record('one singular rule on the mapped panel', len(ats) == 1 and all(x.args[1] is c and [str(y) for y in x.args[0].args[:2]] == ['fma.fma_mapping*', str(fe)] for x in ats), 'symbolic execution', str(ats)[:800]):
            continue
        fv = ats.pop()
        rule = fv.args[0].args[2]
        places = {x.args[1] for x in t.subterms(rule) if x.op == 'app' and x.val == 'FiniteElement.get_unit_support_points[].0'}
        if not ctx.record('the rule is centred at a node of the panel', len(places) == 1, 'symbolic execution', str(rule)):
            continue
        place = places.pop()
        at = tuple(t.app('FiniteElement.get_unit_support_points[].%d' % d, (fe, place), 'R') for d in range(dim - 1))
        ctx.record('the singular rule of the order in force', rule is t.app('new:QTelles', (s.get('singular_quadrature_order'),) + at, rule.sort), 'symbolic execution', str(rule))
        ctx.true('the singular rule is that of a node of the panel that coincides with the collocation node', pc + (near,), t.and_(inr(place, dpc), twin(place)))
        vals = lambda f: t.app('FEValuesBase.' + f, (fv, q), 'R')
        vecs = lambda f: [t.app('FEValuesBase.%s[].%d' % (f, d), (fv, q), 'R') for d in range(dim)]
        singular = t.sum_(q, inr(q, t.app('Quadrature.size', (rule,), 'I')), term(dim, what, node, vecs('get_quadrature_points'), vecs('get_normal_vectors'),
                          t.app('FEValuesBase.shape_value', (fv, j, q), 'R'), vals('JxW')))
        ctx.eq('%s layer: panels of the node, by the singular rule' % what, pc + (near,), v, singular)
    ctx.discharge(ex)


def term(dim, what, node, x, nv, shape, jxw):
    """kernel(node, point) times shape function times weight"""
    R = tuple(t.sub(y, t.app('fma.fma_dh*.x%d' % d, (node,), 'R')) for d, y in enumerate(x))
    v = t.app('K.value', R, 'R')
    if what == 'double':
        v = t.R(0)
        for d in range(dim):
            v = t.add(v, t.mul(t.app('K.grad%d' % d, R, 'R'), nv[d]))
    return t.mul(v, t.mul(shape, jxw))


def read_rows(ctx, pc, cd):
    """The lists a worker returns, as functions of the place i of a node in its block and a panel c:
    (listed(i), node(i), first row(i), has a row(i, c), entry of the row(i, c, j))"""
    def nest(nm, depth):
        ps, bs, g = cd.get(nm).pieces, [], t.TRUE
        for _ in range(depth):
            if ps is None or len(ps) != 1 or ps[0][0] != 'sub':
                raise Unsupported('contents of %s' % nm)
            _, b, d, ps = ps[0]
            bs.append(b)
            g = t.and_(g, d)
        if any(p[0] != 'el' for p in ps):
            raise Unsupported('contents of %s' % nm)

        def at(*x):
            m = dict(zip(bs, x))
            return t.subst(g, m), [psubst(p, m) for p in ps]
        return at
    i, c = t.fresh('i', 'I'), t.fresh('c', 'I')
    rows = {nm: nest(nm, 2) for nm in ('vec_local_dof_indices', 'vec_local_neumann_matrix_row_i', 'vec_local_dirichlet_matrix_row_i')}
    heads = {nm: nest(nm, 1) for nm in ('vec_node_index', 'vec_start_helper')}
    count = lambda ps: functools.reduce(t.add, [t.ite(p[1], I(1), I(0)) for p in ps], I(0))

    def listed(i):
        g, ps = heads['vec_node_index'](i)
        return t.and_(g, t.or_(*[p[1] for p in ps]))

    def value(ps, get=lambda v: v):
        r = None
        for p in ps[::-1]:
            r = get(p[2]) if r is None else t.ite(p[1], get(p[2]), r)
        return r
    dom = lambda i, c: rows['vec_local_dof_indices'](i, c)[0]
    for nm, f in rows.items():
        g, ps = f(i, c)
        ctx.eq('the same rows in every list', pc, g, dom(i, c))
        ctx.eq('one row of a panel in every list', pc + (g,), count(ps), I(1))
    g, ps = heads['vec_start_helper'](i)
    ctx.eq('a first row for every listed node', pc, t.ite(g, count(ps), I(0)), t.ite(listed(i), I(1), I(0)))
    g, ps = heads['vec_node_index'](i)
    ctx.true('a node is listed once', pc + (g,), t.le(count(ps), I(1)))
    ctx.true('rows belong to listed nodes', pc + (dom(i, c),), listed(i))
    return (listed, lambda i: value(heads['vec_node_index'](i)[1]), lambda i: value(heads['vec_start_helper'](i)[1]), dom,
            lambda nm, i, c, j: value(rows[nm](i, c)[1], lambda v: vget(v, ((j,),))))
