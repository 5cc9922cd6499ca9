"""The octree partitions nodes and panels."""
import functools
from dv import terms as t, fem, smt
from dv.exec import St
from dv.vals import *
from dv.access import vget, pieces_size
from dv.loops import dominated
from spec.bem import *
from spec import statement as sm
from contracts.P13 import support
from spec.worlds import world

HARNESSES = [world('fma', ('P06',), 'real octrees of random meshes: every block, link and point checked')]
I = t.I


def verify(ctx):
    P = ctx.load([('source/bem_fma.cc', 'BEMFMA'), ('source/octree_block.cc', 'OctreeBlock')])
    for dim in (3, 2):
        split(ctx, P, dim)
        classify(ctx, P, dim)
        levels(ctx, P, dim)
        root(ctx, P, dim)
        finish(ctx, P, dim)


def elements(v):
    """(binders, guard, element) of everything in a sequence."""
    def go(ps, bs, g):
        for p in ps:
            if p[0] == 'el':
                yield bs, t.and_(g, p[1]), p[2]
            elif p[0] == 'gall':
                i = t.fresh('i', 'I')
                yield bs + (i,), t.and_(g, p[1], inr(i, p[2].size)), vget(p[2], ((i,),))
            else:
                b = t.fresh('e', p[1].sort)
                m = {p[1]: b}
                yield from go([psubst(q, m) for q in p[3]], bs + (b,), t.and_(g, t.subst(p[2], m)))
    if v.pieces is not None:
        yield from go(v.pieces, (), t.TRUE)
    else:
        i = t.fresh('i', 'I')
        yield (i,), inr(i, v.size), vget(v, ((i,),))


def size(v):
    return v.size if v.pieces is None else pieces_size(v.pieces)


def multiplicity(v, x):
    """how often x occurs in a sequence"""
    r = t.I(0)
    for bs, g, e in elements(v):
        y = t.I(1)
        g = t.and_(g, t.and_(*[t.eq(a, b) for a, b in zip(e.items, x.items)]) if isinstance(e, Tup) else t.eq(e.x if isinstance(e, It) else e, x))
        if not bs:
            y = t.ite(g, y, t.I(0))
        for n, b in enumerate(bs[::-1]):
            y = t.sum_(b, g if n == 0 else t.TRUE, y)
        r = t.add(r, y)
    return r


def occurs(g, bs, cond):
    """Facts: a count is at least the contribution of one element."""
    facts = []
    for s in t.subterms(g):
        if s.op == 'sum':
            for b in bs:
                if b.sort == s.args[0].sort:
                    m = {s.args[0]: b}
                    x = t.ite(t.subst(s.args[1], m), t.subst(s.args[2], m), t.I(0))
                    facts += [t.le(x, s), t.le(t.I(0), x), t.le(t.I(0), s)]
    return tuple(facts)


def counts(g):
    """The summands of every count in g are not negative (so that `occurs` is valid)."""
    for s in t.subterms(g):
        if s.op == 'sum':
            if not smt.prove((s.args[1],), t.le(t.I(0), s.args[2])).ok:
                return False
    return True


def split(ctx, P, dim):
    F, B = 'BEMFMA<%d>' % dim, 'OctreeBlock<%d>' % dim
    with ctx.fn(F + '::generate_octree_blocking (splitting a block)'):
        fn = [f for f in P.find(F, 'generate_octree_blocking') if f.body is not None][0]
        loop = sm.innermost(fn, lambda l: sm.calls(l, 'AddNode') and sm.calls(l, 'AddChild'))[0]
        ex = ctx.exec()
        ex.roles = roles(fn)
        st = St()
        this = LV(('fma',))
        s = st.store[this.cell] = ex.mk_sym(F, 'fma')
        ex.cellname = 'dh'
        for nm in ('quadPoints', 'quad_point_to_block', 'dof_to_block'):    # every cell, every node
            m = s.get(nm)
            s.f[nm] = MapV(m.kt, m.vt, m.data, Arr('bool', lambda k: t.TRUE), True)
        heap = ('*', 'fma.blocks[]')
        blocks = s.get('blocks')
        blocks.data.base((I(0),))
        h = ex.load_cell(st, heap)
        delta = t.app('delta', (), 'R')

        def blk(k):
            # a block that is to be split has no children yet and twice the edge
            b = h.base(k)
            return Struct(b.cls, dict(b.f, numChildren=I(0), delta=t.scale(2, delta)), b.lazy)
        st.store[heap] = Arr(h.et, blk)
        st.assume(t.lt(t.R(0), delta))
        L, K, n0 = (t.app(x, (), 'I') for x in ('level', 'kk', 'blocksCount'))
        for x in (L, K, n0):
            st.assume(t.le(I(0), x))
        jj = t.app('fma.parentList[][]', (t.sub(L, I(1)), K), 'I')
        a = sm.At(ex, st, fn, sm.body(loop), this, {'delta': delta})
        parent = blk((jj,))
        st = a.normal()
        val = lambda nm: ex.read(st, a.vars[nm])
        me = st.store[this.cell]
        new = me.get('blocks').data
        evs = [(e[1][0][0], e[2], ex.load_cell(st, e[4].cell)) for e in new.ev]
        fs = [t.app('kept%d' % i, (), 'B') for i in range(len(evs))]
        abst = {g: f for (x, g, c), f in zip(evs, fs)}
        short = lambda x: t.subst(x, abst)
        one = lambda f: t.ite(f, t.I(1), t.I(0))
        pc = tuple(st.pc)
        before = I(0)
        for (x, g, c), f in zip(evs, fs):
            ctx.eq('new blocks are numbered consecutively', pc + (f,), short(x), t.add(n0, t.add(before, I(1))))
            ctx.eq('a child is linked from its parent', pc + (f,), short(vget(ex.load_cell(st, heap), ((jj,), 'childrenId', (before,)))), t.add(n0, t.add(before, I(1))))
            before = t.add(before, one(f))
        ctx.eq('the counter is advanced by the new blocks', pc, short(val('blocksCount')), t.add(n0, before), control=True)
        ctx.eq('the parent knows how many children it has', pc, short(vget(ex.load_cell(st, heap), ((jj,), 'numChildren'))), before)
        where = lambda d: Tup([t.app('support_points[].%d' % q, (d,), 'R') for q in range(dim)])
        qpos = lambda c, q: Tup([t.app('fma.quadPoints[][].%d' % r, (c, q), 'R') for r in range(dim)])
        low = [[] for _ in range(dim)]

        def inside(corner, edge, p):
            return t.and_(*[t.and_(t.le(u, v), t.le(v, t.add(u, edge))) for u, v in zip(corner.items, p.items)])
        nodes, quads = parent.get('nodesId'), parent.get('quadPointsId')
        d, ce, q = t.fresh('d', 'I'), t.fresh('cell', 'I'), t.fresh('q', 'I')
        here = inside(parent.get('pMin'), parent.get('delta'), where(d))
        there = inside(parent.get('pMin'), parent.get('delta'), qpos(ce, q))
        sums = {'node': t.I(0), 'quadrature point': t.I(0)}
        corners = []
        for x, g, c in evs:
            ctx.true('the kept children are counted', pc, t.TRUE if counts(g) else t.FALSE)
            ctx.eq('level of a child', pc, c.get('level'), L)
            ctx.eq('parent of a child', pc, c.get('parentId'), jj)
            ctx.eq('a child has half the edge of its parent', pc, c.get('delta'), delta)
            ctx.eq('a new block has no children', pc, c.get('numChildren'), I(0))
            off = [t.sub(u, v) for u, v in zip(c.get('pMin').items, parent.get('pMin').items)]
            ctx.true('a child is an octant of its parent', pc, t.and_(*[t.or_(t.eq(o, t.R(0)), t.eq(o, delta)) for o in off]))
            corners.append(off)
            box = lambda p: inside(c.get('pMin'), c.get('delta'), p)
            kids = vget(c.get('quadPointsId').data, ((ce,),))
            isin = vget(c.get('quadPointsId').dom, ((ce,),))
            for kind, seq, at_, par in (('node', c.get('nodesId'), where, nodes), ('quadrature point', kids, lambda y: qpos(ce, y), None)):
                for bs, gd, y in elements(seq):
                    up = inside(parent.get('pMin'), parent.get('delta'), at_(y))
                    ctx.true('a %s handed down lies in the cube of the child' % kind, pc + (gd, up), box(at_(y)))
                    ctx.true('a child that holds a %s is kept' % kind, pc + (gd,) + occurs(g, bs + (ce,), gd), g)
                    if par is None:
                        ctx.true('a panel with a point in a child is listed', pc + (gd,), isin)
                sums[kind] = t.add(sums[kind], multiplicity(seq, d if par is not None else q))
        ctx.eq('every node of the parent goes to exactly one child', pc, sums['node'], multiplicity(nodes, d), control=True)
        has = vget(quads.dom, ((ce,),))
        ctx.eq('every quadrature point of the parent goes to exactly one child', pc, sums['quadrature point'],
               t.ite(has, multiplicity(vget(quads.data, ((ce,),)), q), t.I(0)), control=True)
        # the blocks of every node and every quadrature point: the ones it had, then its child
        beta = t.fresh('block', 'I')

        def history(m0, m1, path, kind, seqs):
            old, new = (functools.reduce(lambda v, k: vget(v, ((k,),)), path[1:], vget(m.data, ((path[0],),))) for m in (m0, m1))
            want = multiplicity(old, beta)
            for (x, g, c), seq in zip(evs, seqs):
                want = t.add(want, t.ite(t.and_(g, t.eq(x, beta)), seq(c), t.I(0)))
            def brief(x):
                x = short(x)
                for i in range(len(evs))[::-1]:
                    x = t.subst(x, {short(evs[i][0]): t.app('id%d' % i, (), 'I')})
                return x
            ctx.eq('the child of a %s is recorded for it' % kind, (), brief(multiplicity(new, beta)), brief(want), control=True)

        def points_of(c):       # (a panel with a point in a child is listed in it)
            m = c.get('quadPointsId')
            return t.ite(vget(m.dom, ((ce,),)), multiplicity(vget(m.data, ((ce,),)), q), t.I(0))
        history(s.get('dof_to_block'), me.get('dof_to_block'), (d,), 'node', [lambda c: multiplicity(c.get('nodesId'), d)] * len(evs))
        history(s.get('quad_point_to_block'), me.get('quad_point_to_block'), (ce, q), 'quadrature point',
                [points_of] * len(evs))
        ctx.discharge(ex)


def roles(fn):
    """What the variables of the octree generation are for."""
    r = {}
    grow = sm.innermost(fn, lambda l: sm.calls(l, 'AddNode') and sm.calls(l, 'AddChild'))[0]
    leaf = sm.innermost(fn, lambda l: sm.calls(l, 'childlessList') and sm.calls(l, 'dofs_filled_blocks'))[0]
    for loop, nm in ((grow, 'kk'), (leaf, 'jj')):
        if loop.kind == 'ForStmt':
            r[sm.counter(loop)] = nm
            r[sm.counter(sm.around(fn, loop)[-1])] = 'level'
    for x in sm.args(grow, 'AddChild'):
        r[sm.refer(x[0])] = 'blocksCount'
    for x in sm.args(fn.body, 'map_dofs_to_support_points'):
        r[sm.refer(x[2])] = 'support_points'
    for c in sm.walk(grow):
        if c.kind == 'CXXConstructExpr' and len(c.inner) == 4 and 'OctreeBlock<' in (c.type or ''):
            r[sm.refer(c.inner[3])] = 'delta'
    # the number of leaves, if it is counted
    top = list(fn.body.inner)
    i, j = ends(top)
    known = {p.a['id'] for c in top[i + 1:j] for p in sm.walk(c) if p.kind == 'VarDecl'}
    for c in top[i + 1:j]:
        for p in sm.walk(c):
            if p.kind == 'DeclRefExpr' and p.a['ref']['kind'] == 'VarDecl' and p.a['ref']['id'] not in known and p.a['ref']['id'] not in r \
                    and any(d.a.get('id') == p.a['ref']['id'] for d in sm.walk(fn.body) if d.kind == 'VarDecl'):
                r[p.a['ref']['id']] = 'numChildless'
    if list(r.values()).count('numChildless') > 1:
        raise Unsupported('what is counted by the octree generation')
    return r


def ends(top):
    """the loop that splits the blocks and the one that begins the search for neighbours"""
    i = next(i for i, c in enumerate(top) if c.kind in sm.LOOPS and sm.calls(c, 'AddChild'))
    return i, next(j for j, c in enumerate(top) if c.kind in sm.LOOPS and sm.calls(c, 'AddNearNeigh'))


def scene(ctx, P, dim):
    """A symbolic FMA object in which every panel and node is known to the maps."""
    F = 'BEMFMA<%d>' % dim
    fn = [f for f in P.find(F, 'generate_octree_blocking') if f.body is not None][0]
    ex = ctx.exec()
    ex.roles = roles(fn)
    st = St()
    this = LV(('fma',))
    s = st.store[this.cell] = ex.mk_sym(F, 'fma')
    ex.cellname = 'dh'
    for nm in ('quadPoints', 'quadNormals', 'quadShapeFunValues', 'quadJxW', 'quad_point_to_block', 'dof_to_block', 'dof_to_elems'):
        m = s.get(nm)
        s.f[nm] = MapV(m.kt, m.vt, m.data, Arr('bool', lambda k: t.TRUE), True)
    return fn, ex, st, this, s


def classify(ctx, P, dim):
    """A new block becomes a leaf exactly when it holds no more nodes than a leaf may."""
    F = 'BEMFMA<%d>' % dim
    with ctx.fn(F + '::generate_octree_blocking (leaf or parent)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        loop = sm.innermost(fn, lambda l: sm.calls(l, 'childlessList') and sm.calls(l, 'dofs_filled_blocks'))[0]
        a = sm.At(ex, st, fn, sm.body(loop), this, {})
        jj, L = (st.store[a.vars[x].cell] for x in ('jj', 'level'))
        heap = ('*', 'fma.blocks[]')
        b = ex.load_cell(st, heap).base((jj,))
        st = a.normal()
        me = st.store[this.cell]
        nodes, quads = b.get('nodesId'), b.get('quadPointsId')
        beta, d, ce, q, e, l2 = t.fresh('block', 'I'), t.fresh('d', 'I'), t.fresh('cell', 'I'), t.fresh('q', 'I'), t.fresh('e', 'I'), t.fresh('level', 'I')
        one = lambda c: t.ite(c, t.I(1), t.I(0))
        lst = lambda o, nm, *p: functools.reduce(lambda v, i: vget(v, ((i,),)), p, o.get(nm))

        def hist(o, nm, *p):
            return functools.reduce(lambda v, i: vget(v, ((i,),)), p[1:], vget(o.get(nm).data, ((p[0],),)))
        # the leaf rule: a block is split while it holds more nodes than allowed, coinciding nodes counted once
        rounded = [x for x in t.subterms(size(me.get('childlessList'))) if x.op == 'app' and x.val == 'round']
        if len(set(rounded)) != 1:
            raise Unsupported('the leaf rule does not round a number of nodes')
        dns = ex.load_cell(st, ('*', 'fma.double_nodes_set'))

        def twins(x):
            y = t.fresh('e', 'I')
            return t.sum_(y, vget(vget(dns, ((x,),)), ((y,),)), t.I(1))
        share = lambda x: t.div(t.R(1), t.toR(twins(x)))
        i = t.fresh('i', 'I')
        count = t.sum_(i, inr(i, nodes.size), share(vget(nodes, ((i,),))))
        ctx.eq('number of distinct nodes of a block', tuple(st.pc), rounded[0].args[0], count, control=True)
        R0, mx = rounded[0], t.toR(s.get('max_num_nodes_per_block'))
        r = t.app('nodes', (), 'R')
        short = lambda x: t.subst(x, {R0: r})
        leaf = t.le(r, mx)
        pc = tuple(short(c) for c in st.pc)
        eq = lambda nm, got, want: ctx.eq(nm, pc, short(got), short(want), control=True)
        eq('a leaf is listed as one', multiplicity(lst(me, 'childlessList'), beta), t.add(multiplicity(lst(s, 'childlessList'), beta), one(t.and_(leaf, t.eq(beta, jj)))))
        eq('the others are split again', multiplicity(lst(me, 'parentList', l2), beta),
           t.add(multiplicity(lst(s, 'parentList', l2), beta), one(t.and_(t.not_(leaf), t.eq(beta, jj), t.eq(l2, L)))))
        eq('the blocks to split are counted', t.sub(lst(me, 'numParent', l2), lst(s, 'numParent', l2)), t.sub(size(lst(me, 'parentList', l2)), size(lst(s, 'parentList', l2))))
        if 'numChildless' in a.vars:
            eq('the leaves are counted', t.sub(ex.read(st, a.vars['numChildless']), t.app('numChildless', (), 'I')), t.sub(size(lst(me, 'childlessList')), size(lst(s, 'childlessList'))))
        # every deeper level sees the leaf as the block of its nodes and quadrature points
        lv = t.fresh('level', 'I')
        deeper = lambda x: t.sum_(lv, t.and_(t.lt(L, lv), t.le(lv, s.get('num_octree_levels'))), x)
        for kind, nm, p, own in (('node', 'dof_to_block', (d,), multiplicity(nodes, d)),
                                 ('quadrature point', 'quad_point_to_block', (ce, q), t.ite(vget(quads.dom, ((ce,),)), multiplicity(vget(quads.data, ((ce,),)), q), t.I(0)))):
            eq('a leaf stays the block of its %ss on deeper levels' % kind, multiplicity(hist(me, nm, *p), beta),
               t.add(multiplicity(hist(s, nm, *p), beta), t.ite(t.and_(leaf, t.eq(beta, jj)), deeper(own), t.I(0))))
        # the blocks with nodes and the blocks with quadrature points are listed
        e2 = t.fresh('cell', 'I')
        sizes = lambda c: vget(quads.data, ((c,),)).size
        points = t.sum_(e2, vget(quads.dom, ((e2,),)), sizes(e2))
        for nm, total in (('dofs_filled_blocks', count), ('quad_points_filled_blocks', points)):
            eq('listed in ' + nm, multiplicity(lst(me, nm, l2), beta),
               t.add(multiplicity(lst(s, nm, l2), beta), one(t.and_(t.lt(t.const(0, total.sort), total), t.eq(beta, jj), t.eq(l2, L)))))
        x = vget(nodes, ((e,),))
        i1, e1 = t.fresh('i', 'I'), t.fresh('e', 'I')
        sh = t.app('twins', (e1,), 'I')
        ctx.true('a share of a node is not negative', (t.le(t.I(1), sh),), t.lt(t.R(0), t.div(t.R(1), t.toR(sh))))
        ctx.true('a block with a node is listed', (inr(e, nodes.size), t.le(t.I(1), twins(x)), t.le(share(x), count)), t.lt(t.R(0), count))
        ctx.true('a block with a point is listed', (vget(quads.dom, ((ce,),)), t.le(t.I(1), sizes(ce)), t.le(sizes(ce), points)), t.le(t.I(1), points))
        ctx.discharge(ex)


def levels(ctx, P, dim):
    """Each level is the range of block numbers created for it; edges are halved."""
    F = 'BEMFMA<%d>' % dim
    with ctx.fn(F + '::generate_octree_blocking (levels)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        loop = [l for l in sm.loops(fn.body) if sm.calls(l, 'AddChild')][0]
        a = sm.At(ex, st, fn, sm.part(sm.body(loop), lambda c: c.kind not in sm.LOOPS), this, {})
        L, n0, delta = (t.app(x, (), o) for x, o in (('level', 'I'), ('blocksCount', 'I'), ('delta', 'R')))
        st = a.normal()
        me = st.store[this.cell]
        l2 = t.fresh('level', 'I')
        at_ = lambda o, nm: vget(o.get(nm), ((l2,),))
        here = t.eq(l2, L)
        pc = tuple(st.pc) + (inr(l2, s.get('startLevel').size),)
        ctx.eq('a level begins after the previous one', pc, at_(me, 'startLevel'), t.ite(here, t.add(vget(s.get('endLevel'), ((t.sub(L, I(1)),),)), I(1)), at_(s, 'startLevel')), control=True)
        ctx.eq('a level ends with its last block', pc, at_(me, 'endLevel'), t.ite(here, n0, at_(s, 'endLevel')), control=True)
        ctx.eq('each level halves the edge', pc, ex.read(st, a.vars['delta']), t.scale(t.Fraction(1, 2), delta), control=True)
        ctx.discharge(ex)


def root(ctx, P, dim):
    """The root holds every node and every quadrature point once."""
    F = 'BEMFMA<%d>' % dim
    with ctx.fn(F + '::generate_octree_blocking (root)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        top = [c for c in fn.body.inner]
        i, _ = ends(top)
        ex.models.ext_funcs['map_dofs_to_support_points'] = support
        a = sm.At(ex, st, fn, sm.part(fn.body, lambda c: c in top[:i]), this, {})
        st = a.normal()
        me = st.store[this.cell]
        p0 = vget(me.get('blocks'), ((I(0),),))
        b = ex.read(st, LV(p0.cell, p0.path))
        dh = str(field(ex, st, this, 'fma_dh').term)
        N = t.app(dh + '.n_dofs', (), 'I')
        d, ce, q, beta, l = (t.fresh(x, 'I') for x in ('d', 'cell', 'q', 'block', 'level'))
        qp = vget(me.get('quadPoints').data, ((ce,),))
        nq = size(qp)
        node, cell = inr(d, N), inr(ce, fem.NCELLS)
        pc = tuple(st.pc)
        eq = lambda nm, got, want, *c: ctx.eq(nm, pc + c, got, want, control=True)
        one = lambda c: t.ite(c, t.I(1), t.I(0))
        eq('the root is on level 0', b.get('level'), I(0))
        eq('the root has no children yet', b.get('numChildren'), I(0))
        eq('one block to split at first', vget(me.get('numParent'), ((l,),)), one(t.eq(l, I(0))), t.le(I(0), l), t.le(l, s.get('num_octree_levels')))
        eq('which is the root', multiplicity(vget(me.get('parentList'), ((l,),)), beta), one(t.and_(t.eq(l, I(0)), t.eq(beta, I(0)))), t.le(I(0), l), t.le(l, s.get('num_octree_levels')))
        eq('no leaves at first', size(me.get('childlessList')), I(0))
        for x, nm in ex.roles.items():
            if nm in ('blocksCount', 'numChildless'):
                eq('... and none counted (%s)' % nm, ex.read(st, a.fr.env[x]), I(0))
        eq('the root holds every node once', multiplicity(b.get('nodesId'), d), one(node))
        own = b.get('quadPointsId')
        eq('the root holds every quadrature point once', t.ite(vget(own.dom, ((ce,),)), multiplicity(vget(own.data, ((ce,),)), q), I(0)), one(t.and_(cell, inr(q, nq))), cell)
        ctx.true('every panel is known', pc + (cell,), vget(me.get('quadPoints').dom, ((ce,),)))
        eq('the root is the block of every node on level 0', multiplicity(vget(me.get('dof_to_block').data, ((d,),)), beta), one(t.eq(beta, I(0))), node)
        eq('the root is the block of every quadrature point on level 0', multiplicity(vget(vget(me.get('quad_point_to_block').data, ((ce,),)), ((q,),)), beta), one(t.eq(beta, I(0))), cell, inr(q, nq))
        box = lambda p: t.and_(*[t.and_(t.le(u, v), t.le(v, t.add(u, b.get('delta')))) for u, v in zip(b.get('pMin').items, p)])
        where = [t.app('%s.x%d' % (dh, r), (d,), 'R') for r in range(dim)]
        facts = dominated(ex, b.get('delta'), lambda bs: [{bs[0]: d}] if len(bs) == 1 else [{bs[0]: ce, bs[1]: q}])
        ctx.true('every node lies in the root', pc + facts + (node,), box(where))
        ctx.true('every quadrature point lies in the root', pc + facts + (cell, inr(q, nq)), box(vget(qp, ((q,),)).items))
        # the geometry that the later steps read is that of the quadrature rule on the panel
        fes = {y for y in t.subterms(vget(qp, ((q,),)).items[0]) if y.op == 'app' and y.val == 'FEValues.at'}
        ctx.record('the points of every panel come from one quadrature rule on the surface', len(fes) == 1, 'symbolic execution', str(fes))
        fe = fes.pop()
        here = (cell, inr(q, nq))
        geo = lambda nm: vget(vget(me.get(nm).data, ((ce,),)), ((q,),))
        ctx.true('on this panel', pc, t.eq(fe.args[1], ce))
        for r in range(dim):
            eq('points', geo('quadPoints').items[r], t.app('FEValuesBase.get_quadrature_points[].%d' % r, (fe, q), 'R'), *here)
            eq('normals', geo('quadNormals').items[r], t.app('FEValuesBase.get_normal_vectors[].%d' % r, (fe, q), 'R'), *here)
        eq('weights', geo('quadJxW'), t.app('FEValuesBase.JxW', (fe, q), 'R'), *here)
        ctx.discharge(ex)


def finish(ctx, P, dim):
    """The blocks of the last level that were to be split are leaves as well."""
    F = 'BEMFMA<%d>' % dim
    with ctx.fn(F + '::generate_octree_blocking (end)'):
        fn, ex, st, this, s = scene(ctx, P, dim)
        top = [c for c in fn.body.inner]
        i, j = ends(top)
        leaves = s.get('childlessList')
        NL = s.get('num_octree_levels')
        last = vget(s.get('parentList'), ((NL,),))
        a = sm.At(ex, st, fn, sm.part(fn.body, lambda c: c in top[i + 1:j]), this, {'numChildless': leaves.size})
        for x in (leaves.size, last.size):
            st.assume(t.le(I(0), x))
        st = a.normal()
        me = st.store[this.cell]
        got = me.get('childlessList')
        x = t.fresh('i', 'I')
        n0, n1 = leaves.size, last.size
        pc = tuple(st.pc)
        ctx.eq('number of leaves', pc, size(got), t.add(n0, n1), control=True)
        ctx.eq('the leaves of the upper levels, then those of the last', pc + (inr(x, t.add(n0, n1)),), vget(got, ((x,),)),
               t.ite(t.lt(x, n0), vget(leaves, ((x,),)), vget(last, ((t.sub(x, n0),),))), control=True)
        ctx.eq('number of blocks', pc, me.get('num_blocks'), t.add(t.app('blocksCount', (), 'I'), I(1)), control=True)
        ctx.discharge(ex)
