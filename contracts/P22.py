"""Cached geometry equals the geometry it caches."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.check import Harness
from dv.access import vget
from dv.models import flat

SRC = ['source/cached_nurbs_patch_manifold.cc']
HARNESSES = [Harness('cached', SRC, (), always=True, what='bounded: the real manifold on a generated B-spline face against the underlying manifold, point clouds with near-coincident points')]
CM = 'CachedNURBSPatchManifold<2, 3>'


def verify(ctx):
    P = ctx.load([('source/cached_nurbs_patch_manifold.cc', 'CachedNURBSPatchManifold'), ('source/cached_nurbs_patch_manifold.cc', 'point_to_key')])
    p = [t.var('p%d' % i, 'R') for i in range(3)]
    q = [t.var('q%d' % i, 'R') for i in range(3)]
    r = [t.var('r%d' % i, 'R') for i in range(3)]

    def pure(name, cls):
        def f(ex, st, args, nd):
            ks = ()
            for v in args:
                ks += flat(ex.rv(st, v))
            ex.models.trust(name)
            return Obj(cls, t.app(name, ks, 'Obj:' + cls))
        return f

    def value_of_uv(ex, st, lv, args, nd):
        v = ex.read(st, lv)
        ks = (v.term,)
        for y in args:
            ks += flat(ex.rv(st, y))
        ex.models.trust('ShapeAnalysis_Surface::ValueOfUV')
        return Obj('gp_Pnt2d', t.app('ValueOfUV', ks, 'Obj:gp_Pnt2d'))

    def setup(dom):
        ex = ctx.exec()
        ex.models.ext_funcs['Surface'] = pure('BRep_Tool::Surface', 'Handle_Geom_Surface')
        ex.models.ext_funcs['point'] = pure('OpenCASCADE::point', 'gp_Pnt')
        ex.models.ext_methods[('ShapeAnalysis_Surface', 'ValueOfUV')] = value_of_uv
        st = St()
        this = LV(('m',))
        st.store[this.cell] = ex.mk_sym(CM, 'm')
        if dom is not None:
            c = cache(ex, st, this)
            ex.write(st, LV(this.cell, ('projections_cache',)), MapV(c.kt, c.vt, c.data, Arr('bool', lambda k: dom)))
        return ex, st, this

    def call(ex, st, this, x, nm='arg'):
        lv = LV((nm,))
        st.store[lv.cell] = Tup(x)
        return ex.rv(st, ex.call(st, P.one(CM, 'pull_back'), this, [lv]))

    def cache(ex, st, this):
        return ex.load_cell(st, this.cell).get('projections_cache')
    with ctx.fn(CM + '::pull_back'):
        # a miss computes the projection of the underlying manifold
        ex, st, this = setup(t.FALSE)
        s0 = ex.load_cell(st, this.cell)
        face, tol = s0.get('face'), s0.get('tolerance')
        pt = lambda x: t.app('OpenCASCADE::point', tuple(x), 'Obj:gp_Pnt')
        surf = t.app('BRep_Tool::Surface', (face.term,), 'Obj:Handle_Geom_Surface')
        proj = lambda x: t.app('ValueOfUV', (surf, pt(x), tol), 'Obj:gp_Pnt2d')
        g = lambda x: Tup([t.app('gp_Pnt2d.X', (proj(x),), 'R'), t.app('gp_Pnt2d.Y', (proj(x),), 'R')])
        v = call(ex, st, this, p)
        ctx.eq('not in the cache: the projection of the underlying manifold', st.pc, v, g(p), control=True)
        c1 = cache(ex, st, this)
        v2 = call(ex, st, this, p, 'again')
        ctx.eq('asked again: the same projection', st.pc, v2, g(p))
        # any two points, one after the other (no entry is shared by two points)
        ex, st, this = setup(t.FALSE)
        call(ex, st, this, q)
        v = call(ex, st, this, p, 'second')
        ctx.eq('after a request for any other point: still its own projection', st.pc, v, g(p), control=True)
        ctx.discharge(ex)
        # any cache whose entries are projections of their keys stays one
        ex, st, this = setup(None)
        c = cache(ex, st, this)
        ks = vget(c.dom, (tuple(r),))
        ex.write(st, LV(this.cell, ('projections_cache',)), MapV(c.kt, c.vt, Arr(c.vt, lambda k: g(k)), c.dom))
        v = call(ex, st, this, p)
        ctx.eq('with any valid cache: the projection of the underlying manifold', st.pc, v, g(p), control=True)
        c1 = cache(ex, st, this)
        inr = vget(c1.dom, (tuple(r),))
        same = t.and_(*[t.eq(x, y) for x, y in zip(p, r)])
        ctx.eq('entries after the call: those before and the new point', st.pc, inr, t.or_(ks, same))
        ctx.eq('every entry after the call is the projection of its key', st.pc + (inr,), vget(c1.data, (tuple(r),)), g(r))
        ctx.discharge(ex)
