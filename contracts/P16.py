"""Singular panel integrals are finite parts taken in polar coordinates about the source point."""
from fractions import Fraction
from dv import numeric, smt, sums, terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world

HARNESSES = [world('singular', (), 'singular integrals over random panels against an independent evaluation of the expansion')]
I, R = t.I, t.R
PI = t.app('pi', (), 'R')
CLS = 'SingularKernelIntegral<3>'


# ---------------------------------------------------------------- deal.II by contract
def vec(et, n, f):
    return Vec(et, n, Arr(et, lambda kk: f(kk[0])))


def tens(name, args, n=3):
    return Tup([t.app('%s.%d' % (name, d), args, 'R') for d in range(n)])


def gauss(n, what, q):
    return t.app('gauss.' + what, (n, q), 'R')


def library(ctx, ex):
    """Meshes of one panel, quadrature rules and finite elements evaluated on them."""
    M = ex.models.ext_methods
    F = ex.models.ext_funcs
    new = lambda cls, **f: Obj(cls, t.app('new.' + cls, (), 'Obj:' + cls), f)
    M[('Triangulation', '#ctor')] = lambda ex, st, n, v: new('Triangulation')
    M[('SubCellData', '#ctor')] = lambda ex, st, n, v: new('SubCellData')
    M[('CellData', '#default')] = lambda ex, st, ty: Struct('CellData', {'vertices': Vec('unsigned int', I(4), Arr('unsigned int', lambda kk: t.fresh('unset', 'I'))), 'material_id': I(0)}, None)
    F['delete_unused_vertices'] = F['consistently_order_cells'] = lambda ex, st, a, nd: VOID

    def create(ex, st, lv, a, nd):
        v, c = ex.rv(st, a[0]), ex.rv(st, a[1])
        n = vget(v, ('#size',))
        if vget(c, ('#size',)) is not I(1) or n.op != 'c':
            raise Unsupported('a mesh of more than one panel')
        k = int(n.val)
        ends = vget(vget(c, ((I(0),),)).get('vertices'), ()) if False else vget(c, ((I(0),), 'vertices'))
        pts = [vget(v, ((vget(ends, ((I(i),),)),),)) for i in range(k)]
        ex.write(st, lv, new('Triangulation', corners=Tup(pts)))
        return VOID
    M[('Triangulation', 'create_triangulation')] = create
    M[('DoFHandler', '#ctor')] = lambda ex, st, n, v: new('DoFHandler', mesh=v[0])
    M[('DoFHandler', 'distribute_dofs')] = lambda ex, st, lv, a, nd: VOID
    M[('DoFHandler', 'begin_active')] = lambda ex, st, lv, a, nd: new('panel', mesh=ex.read(st, lv).f['mesh'])
    M[('FE_Q', '#ctor')] = lambda ex, st, n, v: new('FE_Q', degree=v[0])
    for x in ('MappingQ', 'MappingQGeneric'):
        M[(x, '#ctor')] = lambda ex, st, n, v: new('MappingQ', degree=v[0])
    M[('DerivativeForm', '#ctor')] = lambda ex, st, n, v: v[0] if v else ex.default_value(n.type, st)
    M[('QGauss', '#ctor')] = lambda ex, st, n, v: new('Quadrature', points=vec('Point<1>', v[0], lambda q: Tup([gauss(v[0], 'x', q)])), weights=vec('double', v[0], lambda q: gauss(v[0], 'w', q)))

    def rule(ex, st, n, v):
        if len(v) != 2 or not isinstance(v[1], Vec):
            raise Unsupported('quadrature rule')
        return new('Quadrature', points=v[0], weights=v[1])
    M[('Quadrature', '#ctor')] = rule

    def values(ex, st, n, v):
        m = v[0] if len(v) == 4 else None
        return new('FEValues', mapping=m, fe=v[-3], quad=v[-2], cell=None)
    M[('FEValues', '#ctor')] = values

    def reinit(ex, st, lv, a, nd):
        o = ex.read(st, lv)
        ex.write(st, lv, Obj(o.cls, o.term, dict(o.f, cell=ex.rv(st, a[0]))))
        return VOID
    M[('FEValues', 'reinit')] = reinit

    def get(name, f):
        def m(ex, st, lv, a, nd):
            o = ex.read(st, lv)
            q = o.f['quad']
            pts, w = q.f['points'], q.f['weights']
            n = vget(pts, ('#size',))
            return f(ex, st, At(o), n, lambda k: vget(pts, ((k,),)).items, lambda k: vget(w, ((k,),)), [ex.rv(st, x) for x in a])
        M[('FEValues', name)] = M[('FEValuesBase', name)] = m

    class At:
        """Where the points of the rule are on the panel."""

        def __init__(self, o):
            c, m = o.f['cell'], o.f['mapping']
            self.line = self.unit = None
            if isinstance(c, Obj) and c.cls == 'panel':
                k = c.f['mesh'].f['corners'].items
                if len(k[0].items) == 1:
                    self.line = (k[0].items[0], k[1].items[0])
                else:
                    unit = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)]
                    if [tuple(int(str(y)) for y in x.items) for x in k] != unit:
                        raise Unsupported('a reference panel that is not the unit square')
                    self.unit = True
            elif isinstance(c, It):
                self.name = 'panel' if isinstance(m, Obj) and m.cls == 'Mapping' else 'flat.panel'
                self.cell = c.x
            else:
                raise Unsupported('values on an unknown panel')

        def point(self, x):
            if self.line:
                return Tup([t.add(self.line[0], t.mul(t.sub(self.line[1], self.line[0]), x[0]))])
            if self.unit:
                return Tup([x[0], x[1], R(0)])
            return place(x) if self.name == 'panel' else tens('flat.X', tuple(x))

        def scale(self, x):
            if self.line:
                return t.sub(self.line[1], self.line[0])
            if self.unit:
                return R(1)
            return area(x) if self.name == 'panel' else t.app('flat.area', tuple(x), 'R')

        def curved(self):
            if self.line or self.unit or self.name != 'panel':
                raise Unsupported('derivatives of the mapping of an auxiliary panel')

        def gradient(self, i, x):
            if not self.unit:
                raise Unsupported('surface gradients of shape functions')
            return Tup(list(slope(i, x).items) + [R(0)])
    get('get_quadrature_points', lambda ex, st, o, n, x, w, a: ex.tmp(st, vec('Point<3>', n, lambda k: o.point(x(k)))))
    get('quadrature_point', lambda ex, st, o, n, x, w, a: ex.tmp(st, o.point(x(a[0]))))
    get('get_JxW_values', lambda ex, st, o, n, x, w, a: ex.tmp(st, vec('double', n, lambda k: t.mul(o.scale(x(k)), w(k)))))
    get('JxW', lambda ex, st, o, n, x, w, a: t.mul(o.scale(x(a[0])), w(a[0])))
    get('shape_value', lambda ex, st, o, n, x, w, a: shape(a[0], x(a[1])))
    get('shape_grad', lambda ex, st, o, n, x, w, a: o.gradient(a[0], x(a[1])))

    def curved(f):
        def g(ex, st, o, n, x, w, a):
            o.curved()
            return f(ex, st, o, n, x, a)
        return g
    get('get_normal_vectors', curved(lambda ex, st, o, n, x, a: ex.tmp(st, vec('Tensor<1, 3>', n, lambda k: normal(x(k))))))
    get('normal_vector', curved(lambda ex, st, o, n, x, a: normal(x(a[0]))))
    get('jacobian', curved(lambda ex, st, o, n, x, a: Tup([Tup([jac(i, j, x(a[0])) for j in range(2)]) for i in range(3)])))
    get('jacobian_grad', curved(lambda ex, st, o, n, x, a: Tup([Tup([Tup([hess(i, j, k, x(a[0])) for k in range(2)]) for j in range(2)]) for i in range(3)])))


# the panel as a function of its parameters: place, normal, area element, derivatives
def place(x):
    return tens('X', tuple(x))


def normal(x):
    return tens('normal', tuple(x))


def area(x):
    return t.app('area', tuple(x), 'R')


def shape(i, x):
    return t.app('shape', (i,) + tuple(x), 'R')


def slope(i, x):
    return tens('shape.d', (i,) + tuple(x), 2)


def jac(i, j, x):
    return t.app('X.%d,%d' % (i, j), tuple(x), 'R')


def hess(i, j, k, x):
    return t.app('X.%d,%d%d' % (i, min(j, k), max(j, k)), tuple(x), 'R')


# ---------------------------------------------------------------- series in the distance rho
class Series:
    """A truncated Laurent series in rho: c[0] rho^lo + c[1] rho^(lo+1) (two coefficients)."""

    def __init__(self, lo, c):
        self.lo, self.c = lo, tuple(c)

    def __mul__(self, o):
        if not isinstance(o, Series):
            return Series(self.lo, [t.mul(o, x) for x in self.c])
        a, b = self.c, o.c
        return Series(self.lo + o.lo, (t.mul(a[0], b[0]), t.add(t.mul(a[0], b[1]), t.mul(a[1], b[0]))))

    def __add__(self, o):
        lo = min(self.lo, o.lo)
        return Series(lo, [t.add(self.at(lo + k), o.at(lo + k)) for k in range(2)])

    def at(self, n):
        k = n - self.lo
        return self.c[k] if 0 <= k < 2 else R(0) if k < 0 else None

    def shift(self, n):
        return Series(self.lo + n, self.c)


def dot(a, b):
    r = R(0)
    for x, y in zip(a, b):
        r = t.add(r, t.mul(x, y))
    return r


U, V, II = t.app('eta.0', (), 'R'), t.app('eta.1', (), 'R'), t.app('ii', (), 'I')
NT, NR = t.app('theta.order', (), 'I'), t.app('rho.order', (), 'I')
FE = Obj('FiniteElement', t.app('FiniteElement', (), 'Obj:FiniteElement'))
ND = t.app('FE.dofs_per_cell', (FE.term,), 'I')


def object_(ctx):
    ex = ctx.exec()
    st = St()
    geometry(ex, 3)
    library(ctx, ex)
    this = LV(('*', 'integral'))
    obj = lambda c: Obj(c, t.app(c, (), 'Obj:' + c))
    st.store[this.cell] = ex.mk_sym(CLS, 'integral')
    s = st.store[this.cell]
    for k, v in {'cell': It('pos', 'dh', t.app('the.panel', (), 'I'), 'cells'), 'fe': FE, 'mapping': obj('Mapping'), 'eta': Tup([U, V]),
                 'rho_quadrature_order': NR, 'theta_quadrature_order': NT}.items():
        s.f[k] = v
    ex.models.ext_funcs['fabs'] = lambda ex, st, a, nd: t.app('abs', (ex.rv(st, a[0]),), 'R')
    for c in (t.le(I(1), NR), t.le(I(1), NT), t.le(I(0), ND), inr(II, ND), t.le(R(0), U), t.le(U, R(1)), t.le(R(0), V), t.le(V, R(1))):
        st.assume(c)
    return ex, st, this


def cross(a, b):
    return [t.sub(t.mul(a[(d + 1) % 3], b[(d + 2) % 3]), t.mul(a[(d + 2) % 3], b[(d + 1) % 3])) for d in range(3)]


def plus(*v):
    return [t.add(*x) if len(x) == 2 else t.add(t.add(x[0], x[1]), x[2]) for x in zip(*v)]


def times(c, v):
    return [t.mul(c, x) for x in v]


def norm(v):
    return t.app('sqrt', (dot(v, v),), 'R')


class Ray:
    """The panel along the ray that leaves eta at the angle theta, as series in rho."""

    def __init__(self, theta):
        eta = (U, V)
        c, s = t.app('cos', (theta,), 'R'), t.app('sin', (theta,), 'R')
        self.c, self.s = c, s
        col = lambda j: [jac(i, j, eta) for i in range(3)]
        sec = lambda j, k: [hess(i, j, k, eta) for i in range(3)]
        Xu, Xv = col(0), col(1)
        self.A = plus(times(c, Xu), times(s, Xv))
        half = t.const(Fraction(1, 2), 'R')
        self.B = plus(times(t.mul(half, t.mul(c, c)), sec(0, 0)), times(t.mul(c, s), sec(0, 1)), times(t.mul(half, t.mul(s, s)), sec(1, 1)))
        self.a = norm(self.A)
        self.C = dot(self.A, self.B)
        self.g = cross(Xu, Xv)                                            # normal times area element
        gu = plus(cross(sec(0, 0), Xv), cross(Xu, sec(0, 1)))
        gv = plus(cross(sec(0, 1), Xv), cross(Xu, sec(1, 1)))
        self.g1 = plus(times(c, gu), times(s, gv))
        self.R = [Series(1, x) for x in zip(self.A, self.B)]              # y - x
        self.nJ = [Series(0, x) for x in zip(self.g, self.g1)]            # n J
        self.J = Series(0, (norm(self.g), t.div(dot(self.g, self.g1), norm(self.g))))
        N = shape(II, eta)
        dN = slope(II, eta).items
        self.N = Series(0, (N, t.add(t.mul(c, dN[0]), t.mul(s, dN[1]))))

    def r(self, n):
        """|y - x|^n"""
        p = t.powi if n > 0 else lambda a, k: t.div(R(1), t.powi(a, -k))
        return Series(n, (p(self.a, n), t.mul(R(n), t.mul(self.C, p(self.a, n - 2)))))

    def point(self, rho):
        return (t.add(U, t.mul(rho, self.c)), t.add(V, t.mul(rho, self.s)))


def hyper(ray):
    """-1/r^3 (3 r_hat (r_hat.n) - n) N: the series of the integrand and its value"""
    Rn = ray.R[0] * ray.nJ[0] + ray.R[1] * ray.nJ[1] + ray.R[2] * ray.nJ[2]
    F = [(ray.R[d] * Rn * ray.r(-5) * R(-3) + ray.nJ[d] * ray.r(-3)) * ray.N for d in range(3)]

    def value(y, d):
        r, n = rel(y), normal(y).items
        q = norm(r)
        return t.mul(t.div(R(-1), t.powi(q, 3)), t.sub(t.mul(R(3), t.div(t.mul(r[d], dot(r, n)), t.powi(q, 2))), n[d]))
    return F, value


def strong(ray):
    """r / |r|^3 N"""
    F = [ray.R[d] * ray.r(-3) * ray.J * ray.N for d in range(3)]
    return F, lambda y, d: t.div(rel(y)[d], t.powi(norm(rel(y)), 3))


def rel(y):
    x = place((U, V)).items
    return [t.sub(b, a) for a, b in zip(x, place(y).items)]


def faces():
    """the sides of the unit square counter-clockwise: (does not hold eta, first and last angle, distance along a ray)"""
    ends = [((0, 1), (0, 0), 0), ((1, 0), (1, 1), 0), ((0, 0), (1, 0), 1), ((1, 1), (0, 1), 1)]
    two = t.mul(R(2), PI)

    def angle(p):
        a = t.app('atan2', (t.sub(R(p[1]), V), t.sub(R(p[0]), U)), 'R')
        return t.ite(t.lt(a, R(0)), t.add(a, two), a)
    for p, q, axis in ends:
        a, b = angle(p), angle(q)
        a = t.ite(t.lt(b, a), t.sub(a, two), a)
        h = t.sub(R(p[axis]), (U, V)[axis])
        yield t.not_(t.eq(h, R(0))), a, b, lambda ray, h=h, axis=axis: t.div(h, (ray.c, ray.s)[axis])


def around(f):
    """sum over the sides away from eta of the quadrature in the angle"""
    total = R(0)
    q = t.var('q', 'I')
    for away, a, b, hat in faces():
        x, w = gauss(NT, 'x', q), gauss(NT, 'w', q)
        ray = Ray(t.add(a, t.mul(t.sub(b, a), x)))
        total = t.add(total, t.sum_(q, t.and_(away, inr(q, NT)), t.mul(t.mul(w, t.sub(b, a)), f(ray, hat(ray)))))
    return total


def finite_part(kernel, d):
    p = t.var('p', 'I')

    def f(ray, hat):
        F, value = kernel(ray)
        F2, F1 = F[d].shift(1).at(-2), F[d].shift(1).at(-1)       # of the integrand times rho
        beta, gamma = t.div(R(1), ray.a), t.neg(t.div(ray.C, t.powi(ray.a, 4)))
        rho = t.mul(hat, gauss(NR, 'x', p))
        y = ray.point(rho)
        regular = t.mul(t.mul(value(y, d), shape(II, y)), t.mul(rho, area(y)))
        inner = t.sub(t.sub(regular, t.div(F2, t.powi(rho, 2))), t.div(F1, rho))
        quad = t.sum_(p, inr(p, NR), t.mul(t.mul(gauss(NR, 'w', p), hat), inner))
        exact = t.sub(t.mul(F1, t.app('log', (t.app('abs', (t.div(hat, beta),), 'R'),), 'R')), t.mul(F2, t.add(t.div(gamma, t.powi(beta, 2)), t.div(R(1), hat))))
        return t.add(quad, exact)
    return t.div(around(f), t.mul(R(4), PI))


def free_term(d):
    def f(ray, hat):
        n = times(t.div(R(1), norm(ray.g)), ray.g)
        return t.div(t.mul(t.mul(dot(n, times(R(2), ray.B)), ray.A[d]), norm(ray.g)), t.powi(ray.a, 5))
    return around(f)


def angles(got, want):
    """both with the angles of the sides named"""
    known = [(x, t.app('side.%d.%s' % (i, 'from' if k == 0 else 'to'), (), 'R')) for i, (_, a, b, _) in enumerate(faces()) for k, x in enumerate((a, b))]
    memo = {}

    def name(y):
        for x, n in known:
            if y is x:
                return n
        return next((n for x, n in known if smt.prove_eq((), y, x).ok), None)

    def go(y):
        if not y.args:
            return y
        r = memo.get(y.id)
        if r is None:
            r = name(y) if y.op == 'ite' and y.sort == 'R' and not t.free_vars(y) and not sums.has_sum(y) else None
            r = memo[y.id] = t.rebuild(y, [go(z) for z in y.args]) if r is None else r
        return r
    return go(got), go(want)


def verify(ctx):
    numeric.ENABLED = True
    P = ctx.load([('source/singular_kernel_integral.cc', 'SingularKernelIntegral')])
    with ctx.fn(CLS + '::SingularKernelIntegral'):
        ex, st, _ = object_(ctx)
        args = {}
        for k, v in (('cell', It('pos', 'dh', t.app('given.cell', (), 'I'), 'cells')), ('fe', FE), ('mapping', Obj('Mapping', t.app('given.mapping', (), 'Obj:Mapping'))), ('eta', Tup([t.app('given.eta.%d' % d, (), 'R') for d in range(2)]))):
            args[k] = LV(('given.' + k,))
            st.store[args[k].cell] = v
        f = [x for x in P.find(CLS, 'SingularKernelIntegral') if x.body is not None][0]
        o = ex.construct_repo(st, CLS, f.sig, list(args.values()), None)
        for k, lv in args.items():
            v = o.get(k)
            v = ex.read(st, LV(v.cell, v.path)) if isinstance(v, (Ptr, LV)) else v
            w = ex.read(st, lv)
            ctx.true('the %s is the one given' % k, st.pc, t.eq(v.x, w.x) if k == 'cell' else t.and_(*[t.eq(x, y) for x, y in zip(ctx.scal(v), ctx.scal(w))]))
        ctx.discharge(ex)
    for name, kernel in (('evaluate_VkNj_integrals', hyper), ('evaluate_WkNj_integrals', strong)):
        with ctx.fn(CLS + '::' + name):
            ex, st, this = object_(ctx)
            v = ex.rv(st, ex.call(st, P.one(CLS, name), this, []))
            ctx.eq('one value per shape function', st.pc, vget(v, ('#size',)), ND)
            got = vget(v, ((II,),))
            for d in range(3):
                ctx.eq('component %d: quadrature of the regularised integrand plus the finite parts of its singular terms' % d, st.pc, *angles(sums.settle(got.items[d], st.pc), finite_part(kernel, d)), control=d == 0)
            ctx.discharge(ex)
    with ctx.fn(CLS + '::evaluate_free_term_b'):
        ex, st, this = object_(ctx)
        b = ex.rv(st, ex.call(st, P.one(CLS, 'evaluate_free_term_b'), this, []))
        for d in range(3):
            ctx.eq('component %d: integral over the angle of the curvature term' % d, st.pc, *angles(sums.settle(b.items[d], st.pc), free_term(d)), control=d == 0)
        ctx.discharge(ex)
