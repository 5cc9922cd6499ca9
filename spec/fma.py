"""The fast multipole objects as the callers of the expansion classes see them.

An expansion is its centre and its coefficients.  The coefficients form a real
vector space on which P03, P04 and P05 prove the operations below to be what
they are called; here a coefficient vector is one abstract element of it, and
every translation an uninterpreted (per pair of centres) map of it."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.access import vget
from dv.models import flat
from spec.bem import field, inr, n, k, a, at, vec, mkvec, mkmat, dot
from dv.vals import *

ME, LE = 'MultipoleExpansion', 'LocalExpansion'


def declare(ex):
    """Contracts of the expansion classes (established by P03-P05)."""
    for c in (ME, LE):
        ex.prog.records[c] = {'p': ('unsigned int', None), 'center': ('dealii::Point<3>', None), 'coef': ('double', None)}
    M = ex.models.ext_methods
    legs = []

    def new(cls):
        def f(ex, st, nd, vals):
            if not vals:
                return Struct(cls, {'p': t.I(0), 'center': Tup([t.R(0)] * 3), 'coef': t.R(0)})
            if len(vals) == 1:
                return vals[0]
            legs.append(vals[2])
            return Struct(cls, {'p': vals[0], 'center': vals[1], 'coef': t.R(0)})
        return f

    def assign(ex, st, lv, args, nd):
        ex.write(st, lv, ex.rv(st, args[0]))
        return lv

    def center(ex, st, lv, args, nd):
        return LV(lv.cell, lv.path + ('center',))

    def set_center(ex, st, lv, args, nd):
        ex.write(st, LV(lv.cell, lv.path + ('center',)), ex.rv(st, args[0]))
        return VOID

    def same_order(ex, st, x, y):
        ex.oblige('expansions of the same order', st, t.eq(x.get('p'), y.get('p')))

    def add(ex, st, lv, d):
        c = LV(lv.cell, lv.path + ('coef',))
        ex.write(st, c, d, 'add')
        return VOID

    def madd(ex, st, lv, args, nd):
        me = ex.read(st, lv)
        vs = [ex.rv(st, y) for y in args]
        if isinstance(vs[0], Struct):
            same_order(ex, st, me, vs[0])
            if len(vs) == 2:        # (expansion, factor), same centre
                ex.oblige('added expansions have the same centre', st, t.and_(*[t.eq(x, y) for x, y in zip(flat(me.get('center')), flat(vs[0].get('center')))]))
                return add(ex, st, lv, t.mul(vs[0].get('coef'), vs[1]))
            return add(ex, st, lv, m2m(vs[0], me))
        if len(vs) == 2:            # (strength, point)
            return add(ex, st, lv, t.mul(vs[0], pole(me.get('center'), vs[1])))
        raise Unsupported('MultipoleExpansion::Add')

    def dip(ex, st, lv, args, nd):
        vs = [ex.rv(st, y) for y in args]
        return add(ex, st, lv, t.mul(vs[0], dipole(ex.read(st, lv).get('center'), vs[1], vs[2])))

    def ladd(ex, st, lv, args, nd):
        me = ex.read(st, lv)
        v = ex.rv(st, args[0])
        same_order(ex, st, me, v)
        return add(ex, st, lv, l2l(v, me) if v.cls == LE else m2l(v, me))

    def ev(cls):
        def f(ex, st, lv, args, nd):
            v = ex.read(st, lv)
            return evaluate(v, ex.rv(st, args[0]))
        return f
    for c in (ME, LE):
        M[(c, '#ctor')] = new(c)
        M[(c, 'operator=')] = assign
        M[(c, 'GetCenter')] = center
        M[(c, 'SetCenter')] = set_center
        M[(c, 'Evaluate')] = ev(c)
    M[(ME, 'Add')] = madd
    M[(ME, 'AddNormDer')] = dip
    M[(LE, 'Add')] = ladd
    return legs


t.LINEAR |= {'M2M', 'M2L', 'L2L', 'evalM', 'evalL'}


def lin(name, v, *more):
    """a translation or evaluation: linear in the coefficients"""
    c = v.get('coef')
    if c.op == 'c' and c.val == 0:
        return t.R(0)
    if c.op == 'ite':
        return t.ite(c.args[0], *[lin(name, Struct(v.cls, dict(v.f, coef=x)), *more) for x in c.args[1:]])
    return t.app(name, (v.get('coef'),) + flat(v.get('center')) + more, 'R')


def shift(name, v, to):
    """a translation between expansions of one kind: the identity for equal centres (P04)"""
    x, y = flat(v.get('center')), flat(to.get('center'))
    return t.ite(t.and_(*[t.eq(p, q) for p, q in zip(x, y)]), v.get('coef'), lin(name, v, *y))


def m2m(v, to):
    return shift('M2M', v, to)


def m2l(v, to):
    return lin('M2L', v, *flat(to.get('center')))


def l2l(v, to):
    return shift('L2L', v, to)


def evaluate(v, p):
    return lin('eval' + ('M' if v.cls == ME else 'L'), v, *flat(p))


def pole(c, p):
    return t.app('pole', flat(c) + flat(p), 'R')


def dipole(c, p, nv):
    return t.app('dipole', flat(c) + flat(p) + flat(nv), 'R')


class Octree:
    """The octree as P06 guarantees it: block b of level lv(b), levels are
    ranges of block numbers, parents one level above, leaves listed once."""

    def __init__(self, ex, st, this, F='BEMFMA<3>'):
        from dv import smt
        from spec.bem import Injection, in_bounds
        I = t.I
        s = ex.mk_sym(F, 'fma')
        self.NB, self.NL = s.get('num_blocks'), s.get('num_octree_levels')
        self.order = s.get('trunc_order')
        B = s.get('blocks')
        lst = s.get('childlessList')
        self.nleaf = lst.size
        self.leaf = Injection('leaf')
        f = dict(s.f)
        f['blocks'] = Vec(B.et, self.NB, B.data)
        f['childlessList'] = Vec(lst.et, lst.size, Arr(lst.et, lambda kk: self.leaf(kk[0])))
        for x in ('startLevel', 'endLevel'):
            v = s.get(x)
            f[x] = Vec(v.et, t.add(self.NL, I(1)), v.data)
        self.cells = []
        st.store[this.cell] = Struct(s.cls, f, s.lazy)
        self.ex, self.st, self.this = ex, st, this
        ex.cellname = 'dh'
        ex.hooks['bounds'] = in_bounds
        b, l, i = t.var('b!', 'I'), t.var('l!', 'I'), t.var('i!', 'I')
        lv, inb = self.lv, lambda b: inr(b, self.NB)
        par = self.parent(b)
        smt.define('lv', [b], t.implies(inb(b), t.and_(t.le(I(0), lv(b)), t.le(lv(b), self.NL))))
        # a child is an octant of its parent: another centre
        x, y = self.center(b).items[0], self.center(par).items[0]
        smt.define(par.val, [b], t.implies(t.and_(inb(b), t.le(I(1), lv(b))), t.and_(inb(par), t.eq(lv(par), t.sub(lv(b), I(1))), t.not_(t.eq(x, y)))))
        st0, en0 = self.start(l), self.end(l)
        lev = t.and_(t.le(I(0), l), t.le(l, self.NL))
        for x in (st0, en0):
            smt.define(x.val, [l], t.implies(lev, t.and_(t.le(I(0), st0), t.le(st0, t.add(en0, I(1))), t.lt(en0, self.NB))))
            smt.relate('lv', x.val, [b, l], t.implies(t.and_(inb(b), lev), t.eq(t.and_(t.le(st0, b), t.le(b, en0)), t.eq(lv(b), l))))
        smt.define('leaf', [i], t.implies(inr(i, self.nleaf), t.and_(inb(self.leaf(i)), t.eq(self.leaf.position(self.leaf(i)), i))))
        c, j = t.var('c!', 'I'), t.var('j!', 'I')
        smt.define('dh.dof', [c, j], inr(t.app('dh.dof', (c, j), 'I'), n))
        st.assume(t.le(I(1), self.NB))
        st.assume(t.le(I(1), self.NL))

    def block(self, b):
        s = self.st.store[self.this.cell]
        p = vget(s.f['blocks'], ((b,),))
        return self.ex.load_cell(self.st, p.cell) if not p.path else self.ex.read(self.st, LV(p.cell, p.path))

    def start(self, l):
        return vget(self.st.store[self.this.cell].f['startLevel'], ((l,),))

    def end(self, l):
        return vget(self.st.store[self.this.cell].f['endLevel'], ((l,),))

    def lv(self, b):
        return t.app('lv', (b,), 'I')

    def parent(self, b):
        return self.block(b).get('parentId')

    def center(self, b):
        k = self.block(b)
        h = t.div(k.get('delta'), t.R(2))
        return Tup([t.add(x, h) for x in k.get('pMin').items])

    def is_leaf(self, b):
        p = self.leaf.position(b)
        return t.and_(inr(p, self.nleaf), t.eq(self.leaf(p), b))

    def filled(self):
        """dofs_filled_blocks: per level, each block that holds nodes, once."""
        from dv import smt
        from spec.bem import Injection
        s = self.st.store[self.this.cell]
        v = s.get('dofs_filled_blocks')
        self.fb = Injection('filled')
        self.nfb = lambda l: t.app('filled.size', (l,), 'I')
        s.f['dofs_filled_blocks'] = Vec(v.et, t.add(self.NL, t.I(1)), Arr(v.et, lambda l: Vec('unsigned int', self.nfb(l[0]), Arr('unsigned int', lambda i: self.fb(l[0], i[0])))))
        l, i = t.var('l!', 'I'), t.var('i!', 'I')
        f = self.fb(l, i)
        smt.define('filled', [l, i], t.implies(t.and_(t.le(t.I(0), l), t.le(l, self.NL), inr(i, self.nfb(l))), t.and_(inr(f, self.NB), t.eq(self.lv(f), l), self.fb.axiom(l, i))))
        b, e = t.var('b!', 'I'), t.var('e!', 'I')
        pre = 'fma.blocks[]*.'
        for nm in ('nearNeigh', 'intList', 'nonIntList'):
            smt.define(pre + nm + '[].has', [b, i, e], t.implies(t.app(pre + nm + '[].has', (b, i, e), 'B'), inr(e, self.NB)))
            smt.define(pre + nm + '.size', [b], t.eq(t.app(pre + nm + '.size', (b,), 'I'), t.app('sublevels', (b,), 'I')))
        x = t.app('fma.blocks[]*.nodesId[]', (b, i), 'I')
        smt.define(x.val, [b, i], inr(x, n))

    def is_filled(self, l, b):
        p = self.fb.position(l, b)
        return t.and_(inr(p, self.nfb(l)), t.eq(self.fb(l, p), b))
