"""The fast multipole products are the products with the operators."""
from dv import terms as t, fem, smt
from dv.exec import St
from dv.vals import *
from dv.access import vget, vite
from dv.loops import Inv
from spec.bem import *
from spec import fma
from spec.fma import ME, LE, Octree
from spec.worlds import world
from contracts.P13 import support

HARNESSES = [world('fma', ('P08',), 'real fast multipole products against dense matrices, linearity and history')]
F = 'BEMFMA<3>'
I = t.I
b, p, c, j, q = (t.var(x, 'I') for x in 'bpcjq')


def only(P, name):
    fs = [f for f in P.find(F, name) if f.body is not None]
    return fs[0]


def element(ker, o, b, c, j):
    """expansion of shape function j of cell c about the centre of leaf b (multipole_integrals)"""
    return Struct(ME, {'p': o.order, 'center': o.center(b), 'coef': t.app('elem' + ker, (b, c, j), 'R')})


def verify(ctx):
    P = ctx.load([('source/bem_fma.cc', 'BEMFMA'), ('source/octree_block.cc', 'OctreeBlock')])
    multipoles(ctx, P)
    products(ctx, P)
    moments(ctx, P)


def multipoles(ctx, P):
    with ctx.fn(F + '::generate_multipole_expansions'):
        ex = ctx.exec()
        st = St()
        fma.declare(ex)
        this = LV(('fma',))
        o = Octree(ex, st, this)
        s = st.store[this.cell]
        dpc = t.app('FE.dofs_per_cell', (t.app('DoFHandler.get_fe', (field(ex, st, this, 'fma_dh').term,), 'Obj:FiniteElement'),), 'I')
        for ker in '12':
            nm = 'elemMultipoleExpansionsKer' + ker
            ty = s.get(nm)
            def data(ker=ker, ty=ty):
                cells = lambda bb: MapV(ty.vt, ty.vt, Arr('x', lambda k2: Vec(ME, dpc, Arr(ME, lambda k3: element(ker, o, bb, k2[0], k3[0])))), Arr('bool', lambda k2: t.TRUE))
                return MapV(ty.kt, ty.vt, Arr(ty.vt, lambda k1: cells(k1[0])), Arr('bool', lambda k1: t.TRUE))
            s.f[nm] = data()
        phi, flux = vec(ex, st, 'phi'), vec(ex, st, 'flux')

        own = lambda ker, b: t.app('own' + ker, (b,), 'R')
        whole = lambda ker, b: t.app('whole' + ker, (b,), 'R')

        def expansion(b, coef):
            return Struct(ME, {'p': o.order, 'center': o.center(b), 'coef': coef})

        def children(ker, b, l):
            i = t.fresh('i', 'I')
            return t.sum_(i, t.and_(t.le(o.start(l), i), t.le(i, o.end(l)), t.eq(o.parent(i), b)), fma.m2m(expansion(i, whole(ker, i)), expansion(b, t.R(0))))
        seen = {}

        def rule(ex, st, dom, leaves, streams):
            if not streams:
                return None
            r = {}
            for kk, lf in leaves.items():
                if lf.path and str(lf.path[0]).startswith('blockMultipoleExpansionsKer'):
                    ker = lf.path[0][-1]

                    def before(i, ker=ker, v0=lf.v0):
                        if i is I(0):           # own(b) is what block b holds before the loop
                            return Vec(ME, o.NB, Arr(ME, lambda kk: expansion(kk[0], vget(v0, (kk, 'coef')))))
                        l = t.sub(o.NL, i)          # levels below l are complete
                        return Vec(ME, o.NB, Arr(ME, lambda kk: expansion(kk[0], t.ite(t.le(l, o.lv(kk[0])), whole(ker, kk[0]), own(ker, kk[0])))))

                    def after(i, ker=ker):
                        l = t.sub(o.NL, i)
                        w = lambda b: t.ite(t.eq(o.lv(b), t.sub(l, I(1))), t.add(own(ker, b), children(ker, b, l)), whole(ker, b))
                        return Vec(ME, o.NB, Arr(ME, lambda kk: expansion(kk[0], t.ite(t.le(t.sub(l, I(1)), o.lv(kk[0])), w(kk[0]), own(ker, kk[0])))))
                    seen[ker] = (lf.v0, st.pc)
                    r[kk] = Inv('level by level', before, after)
            return r
        ex.loop_rules.append(rule)
        ex.call(st, only(P, 'generate_multipole_expansions'), this, [phi, flux])
        inb = (inr(b, o.NB),)
        for ker, dens in (('1', 'phi'), ('2', 'flux')):
            if not ctx.record('the levels are processed by an invariant (kernel %s)' % ker, ker in seen, 'symbolic execution'):
                continue
            v0, pc = seen[ker]
            i = t.fresh('i', 'I')
            has = lambda c: vget(o.block(o.leaf(i)).get('quadPointsId').dom, ((c,),))
            cc, jj = t.fresh('c', 'I'), t.fresh('j', 'I')
            contr = t.sum_(cc, has(cc), t.sum_(jj, inr(jj, dpc), t.mul(t.app('elem' + ker, (o.leaf(i), cc, jj), 'R'), t.app(dens, (t.app('dh.dof', (cc, jj), 'I'),), 'R'))))
            contr = t.sum_(i, t.and_(inr(i, o.nleaf), t.eq(o.leaf(i), b)), contr)
            ctx.eq('before the ascent: the panel expansions weighted by the density on leaves, zero elsewhere (kernel %s)' % ker, tuple(pc) + inb,
                   vget(v0, ((b,), 'coef')), contr, control=True)
            X = field(ex, st, this, 'blockMultipoleExpansionsKer' + ker)
            ctx.eq('after the ascent: every block holds its own and its translated children (kernel %s)' % ker, tuple(st.pc) + inb, vget(X, ((b,), 'coef')), whole(ker, b), control=True)
            ctx.eq('expansions stay at the block centres (kernel %s)' % ker, tuple(st.pc) + inb, vget(X, ((b,), 'center')), o.center(b))
            ctx.eq('one expansion per block (kernel %s)' % ker, st.pc, vget(X, ('#size',)), o.NB)
        for v in (phi, flux):
            ctx.eq('the densities are unchanged', st.pc, at(ex, st, v), t.app(v.cell[0], (k,), 'R'))
        ctx.discharge(ex)


def products(ctx, P):
    with ctx.fn(F + '::multipole_matr_vect_products'):
        ex = ctx.exec()
        st = St()
        fma.declare(ex)
        this = LV(('fma',))
        o = Octree(ex, st, this)
        o.filled()
        s = st.store[this.cell]
        whole = lambda ker, b: t.app('whole' + ker, (b,), 'R')
        down = lambda ker, b: t.app('down' + ker, (b,), 'R')

        def mult(ker, b):
            return Struct(ME, {'p': o.order, 'center': o.center(b), 'coef': whole(ker, b)})

        def local(b, coef):
            return Struct(LE, {'p': o.order, 'center': o.center(b), 'coef': coef})
        for ker in '12':
            s.f['blockMultipoleExpansionsKer' + ker] = Vec(ME, o.NB, Arr(ME, lambda kk, ker=ker: mult(ker, kk[0])))
        s.f['prec_neumann_matrix'] = mkmat('nearN')
        s.f['prec_dirichlet_matrix'] = mkmat('nearD')
        mine = some_owned(ex)
        s.f['this_cpu_set'] = mine
        owned = lambda x: vget(mine, ((x,),))
        sizes(ex, st, this, {'fma_dh': n})
        ex.models.ext_funcs['map_dofs_to_support_points'] = support
        phi, flux, rN, rD = (vec(ex, st, x) for x in ('phi', 'flux', 'oldN', 'oldD'))

        def onproc(b):
            i = t.fresh('i', 'I')
            v = o.block(b).get('nodesId')
            return t.exists(i, t.and_(inr(i, v.size), owned(vget(v, ((i,),)))))

        def incoming(ker, b, l):
            """what block b of level l receives: its parent's expansion and the far blocks of its level"""
            sub, pos = t.fresh('s', 'I'), t.fresh('p', 'I')
            nl = o.block(b).get('nonIntList')
            par = o.parent(b)
            return t.add(fma.l2l(local(par, t.ite(t.eq(o.lv(par), I(0)), t.R(0), down(ker, par))), local(b, t.R(0))),
                         t.sum_(sub, inr(sub, o.block(b).get('nearNeigh').size), t.sum_(pos, t.and_(vget(nl, ((sub,), (pos,))), t.le(o.start(l), pos), t.le(pos, o.end(l))), fma.m2l(mult(ker, pos), local(b, t.R(0))))))
        seen = set()

        def rule(ex, st, dom, leaves, streams):
            if not streams:
                return None
            r = {}
            for kk, lf in leaves.items():
                if lf.path and str(lf.path[0]).startswith('blockLocalExpansionsKer'):
                    ker = lf.path[0][-1]

                    def value(l, f=None, ker=ker):          # levels below l are complete
                        g = f or (lambda b: down(ker, b))
                        return Vec(LE, o.NB, Arr(LE, lambda kk: local(kk[0], t.ite(t.and_(t.le(I(1), o.lv(kk[0])), t.lt(o.lv(kk[0]), l)), g(kk[0]), t.R(0)))))

                    def before(i, value=value):
                        return value(t.add(i, I(1)))

                    def after(i, value=value, ker=ker):
                        l = t.add(i, I(1))
                        own = lambda b: t.ite(t.and_(o.is_filled(l, b), onproc(b)), incoming(ker, b, l), t.R(0))
                        return value(t.add(l, I(1)), lambda b: t.ite(t.eq(o.lv(b), l), own(b), down(ker, b)))
                    seen.add(ker)
                    r[kk] = Inv('level by level', before, after)
            return r
        ex.loop_rules.append(rule)
        ex.call(st, only(P, 'multipole_matr_vect_products'), this, [phi, flux, rN, rD])
        st.assume(owned(k))
        where = Tup([t.app('%s.x%d' % (field(ex, st, this, 'fma_dh').term, d), (k,), 'R') for d in range(3)])
        l, i, m = t.fresh('l', 'I'), t.fresh('i', 'I'), t.fresh('m', 'I')

        def holds(b):
            """position m of k in the node list of block b"""
            v = o.block(b).get('nodesId')
            return t.and_(inr(m, v.size), t.eq(vget(v, ((m,),)), k))

        def far(ker, b, l):
            """the smaller well separated blocks of block b, evaluated at the node"""
            sub, pos = t.fresh('s', 'I'), t.fresh('p', 'I')
            nl = o.block(b).get('nonIntList')
            return t.sum_(sub, inr(sub, o.block(b).get('nearNeigh').size), t.sum_(pos, t.and_(vget(nl, ((sub,), (pos,))), t.lt(o.end(l), pos)), fma.evaluate(mult(ker, pos), where)))
        for ker, lv, mat, dens in (('1', rN, 'nearN', 'phi'), ('2', rD, 'nearD', 'flux')):
            b = o.fb(l, i)
            smaller = t.sum_(l, t.and_(t.le(I(1), l), t.le(l, o.NL)), t.sum_(i, inr(i, o.nfb(l)), t.sum_(m, holds(b), far(ker, b, l))))
            b = o.leaf(i)
            coef = t.ite(t.le(I(1), o.lv(b)), down(ker, b), t.R(0))
            locs = t.sum_(i, inr(i, o.nleaf), t.sum_(m, holds(b), fma.evaluate(local(b, coef), where)))
            near = dot(lambda j: t.mul(a(mat, k, j), a(dens, j)))
            ctx.record('the levels are processed by an invariant (kernel %s)' % ker, ker in seen, 'symbolic execution')
            ctx.eq('product at an owned node: near field, smaller far blocks on every level, local expansion of its leaf (kernel %s)' % ker, st.pc,
                   at(ex, st, lv), t.add(near, t.add(smaller, locs)), control=True)
        for v in (phi, flux):
            ctx.eq('the densities are unchanged', st.pc, at(ex, st, v), t.app(v.cell[0], (k,), 'R'))
        ctx.discharge(ex)


def moments(ctx, P):
    """The expansions of the panels of a leaf: each quadrature point of the panel in the leaf as a source of its shape function's weight."""
    runs = []
    with ctx.fn(F + '::multipole_integrals'):
        ex = ctx.exec()
        st = St()
        fma.declare(ex)
        this = LV(('fma',))
        o = Octree(ex, st, this)

        def stream(ex, st, fr, args, nd):
            lo, hi = (x.x if isinstance(x, It) and x.kind == 'pos' else x for x in (ex.rv(st, y) for y in args[:2]))
            if len(args) != 6 or hi is not o.nleaf:
                raise Unsupported('WorkStream::run over %s' % hi)
            ex.oblige('the whole list of leaves', st, t.eq(lo, I(0)))
            for ker in '12':
                m = field(ex, st, this, 'elemMultipoleExpansionsKer' + ker)
                ex.oblige('no expansion of an earlier discretisation is left (kernel %s)' % ker, st, t.not_(vget(m.dom, ((t.var('b', 'I'),),))))
            runs.append((st.fork(), args, nd, ex.rv(st, args[0])))
            return VOID
        ex.hooks['workstream'] = stream
        ex.call(st, only(P, 'multipole_integrals'), this, [])
        ctx.record('one pass over the leaves', len(runs) == 1, 'symbolic execution')
        ctx.discharge(ex)
    if len(runs) != 1:
        return
    st, args, nd, item = runs[0]
    s = st.store[this.cell]
    fe = t.app('DoFHandler.get_fe', (field(ex, st, this, 'fma_dh').term,), 'Obj:FiniteElement')
    dpc = t.app('FE.dofs_per_cell', (fe,), 'I')

    def points(b):
        return o.block(b).get('quadPointsId')

    def coefficient(ker, b, c, j):
        v = vget(points(b).data, ((c,),))
        m = t.fresh('m', 'I')
        q = vget(v, ((m,),))
        data = lambda nm: vget(vget(vget(s.get(nm).data, ((c,),)), ((q,),)), ())
        w = t.mul(vget(data('quadShapeFunValues'), ((j,),)), t.div(data('quadJxW'), t.mul(t.R(4), t.app('pi', (), 'R'))))
        x = data('quadPoints')
        e = fma.dipole(o.center(b), x, data('quadNormals')) if ker == '1' else fma.pole(o.center(b), x)
        return t.sum_(m, inr(m, v.size), t.mul(w, e))

    def panel(ker, b, c):
        return Vec(ME, dpc, Arr(ME, lambda kk: Struct(ME, {'p': o.order, 'center': o.center(b), 'coef': coefficient(ker, b, c, kk[0])})))

    def some(ker, ty, dom):
        """a map with the expansions of the blocks in dom"""
        ct = ty.vt
        here = lambda b, c: t.and_(dom(b), vget(points(b).dom, ((c,),)))
        empty = Vec(ME, I(0), ex.arr_default(ME, st))
        cells = lambda b: MapV('unsigned int', ME, Arr(ME, lambda kk: vite(here(b, kk[0]), panel(ker, b, kk[0]), empty)), Arr('bool', lambda kk: here(b, kk[0])), True)
        return MapV(ty.kt, ty.vt, Arr(ty.vt, lambda kk: cells(kk[0])), Arr('bool', lambda kk: dom(kk[0])), True)
    # sizes of what generate_octree_blocking stores per panel, and the numbers of the points in the blocks (P06)
    bb, cc, mm, qq = (t.var(x, 'I') for x in ('b!', 'c!', 'm!', 'q!'))
    stored = [vget(s.get(nm).data, ((cc,),)) for nm in ('quadPoints', 'quadNormals', 'quadShapeFunValues', 'quadJxW')]
    nq = t.app('points', (cc,), 'I')
    for v in stored:
        smt.define(v.size.val, [cc], t.eq(v.size, nq))
    v = vget(stored[2], ((qq,),))
    smt.define(v.size.val, [cc, qq], t.eq(v.size, dpc))
    v = vget(vget(points(bb).data, ((cc,),)), ((mm,),))
    smt.define(v.val, [bb, cc, mm], inr(v, nq))
    done = lambda b: t.app('done', (b,), 'B')
    names = {ker: 'myelemMultipoleExpansionsKer' + ker for ker in '12'}
    e, c, j = (t.fresh(v, 'I') for v in 'ecj')
    with ctx.fn(F + '::multipole_integrals (panels of a leaf)'):
        st1 = st.fork()
        i = t.app('item', (), 'I')
        b = o.leaf(i)
        st1.assume(inr(i, o.nleaf))
        st1.assume(t.not_(done(b)))         # leaves are listed once
        cd = ex.mk_sym(ex.rv(st1, args[5]).cls, 'copy')
        cd = Struct(cd.cls, dict(cd.f, **{nm: some(ker, cd.get(nm), done) for ker, nm in names.items()}))
        copy = ex.tmp(st1, cd)
        x = i if isinstance(item, T) else It('pos', item.c, i, item.ck)
        ex.apply(st1, ex.rv(st1, args[2]), [ex.tmp(st1, x), ex.tmp(st1, ex.rv(st1, args[4])), copy], nd)
        cd = ex.read(st1, copy)
        for ker, nm in names.items():
            v = cd.get(nm)
            entry = lambda e: t.and_(vget(v.dom, ((e,),)), vget(vget(v.data, ((e,),)).dom, ((c,),)))
            on = lambda e: vget(points(e).dom, ((c,),))
            for what, e1, pc in (('leaf at hand', b, tuple(st1.pc)), ('leaves done before', e, tuple(st1.pc) + (done(e),))):
                what = ' (%s, kernel %s)' % (what, ker)
                if e1 is e:         # (may have been dropped meanwhile)
                    pc += (t.not_(t.eq(e, b)), entry(e))
                    ctx.true('no other panels' + what, pc, on(e))
                else:
                    ctx.eq('an entry for the panels that have points in the leaf' + what, pc, entry(b), on(b))
                x = vget(v.data, ((e1,), (c,)))
                pc += (on(e1),)
                ctx.eq('one expansion per shape function' + what, pc, x.size, dpc)
                pc += (inr(j, dpc),)
                m = vget(x, ((j,),))
                ctx.eq('about the centre of the leaf' + what, pc, m.get('center'), o.center(e1))
                ctx.eq('of the order in force' + what, pc, m.get('p'), o.order)
                ctx.eq('its points as sources of the weight of the shape function' + what, pc, m.get('coef'), coefficient(ker, e1, c, j), control=e1 is b)
            ctx.true('no entry for other leaves (kernel %s)' % ker, tuple(st1.pc) + (t.not_(done(e)), t.not_(t.eq(e, b))), t.not_(vget(v.dom, ((e,),))))
        ctx.discharge(ex)
    with ctx.fn(F + '::multipole_integrals (collecting the panels)'):
        st2 = st.fork()
        cd = ex.mk_sym(ex.rv(st2, args[5]).cls, 'copy')
        new = lambda b: t.app('new', (b,), 'B')
        copy = ex.tmp(st2, Struct(cd.cls, dict(cd.f, **{nm: some(ker, cd.get(nm), new) for ker, nm in names.items()})))
        for ker in '12':
            nm = 'elemMultipoleExpansionsKer' + ker
            st2.store[this.cell].f[nm] = some(ker, field(ex, st2, this, nm), done)
        ex.apply(st2, ex.rv(st2, args[3]), [copy], nd)
        pc = tuple(st2.pc)
        here = t.or_(done(e), new(e))
        for ker in '12':
            v = field(ex, st2, this, 'elemMultipoleExpansionsKer' + ker)
            ctx.eq('the leaves of both (kernel %s)' % ker, pc, vget(v.dom, ((e,),)), here, control=True)
            cells = vget(v.data, ((e,),))
            ctx.eq('with their panels (kernel %s)' % ker, pc + (here,), vget(cells.dom, ((c,),)), vget(points(e).dom, ((c,),)))
            x = vget(cells.data, ((c,),))
            pc1 = pc + (here, vget(points(e).dom, ((c,),)))
            ctx.eq('one expansion per shape function (kernel %s)' % ker, pc1, x.size, dpc)
            pc1 += (inr(j, dpc),)
            m = vget(x, ((j,),))
            ctx.eq('about the centre of the leaf (kernel %s)' % ker, pc1, m.get('center'), o.center(e))
            ctx.eq('unchanged (kernel %s)' % ker, pc1, m.get('coef'), coefficient(ker, e, c, j))
        ctx.discharge(ex)
