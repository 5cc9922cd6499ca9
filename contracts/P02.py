"""Free-space Laplace kernels: the layer kernels are the Green function of the
Laplacian, its gradient and its (trace-free, symmetric) second derivatives."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.check import Harness

HARNESSES = [Harness('kernels', [], what='random points against finite differences of the Green function')]


def verify(ctx):
    P = ctx.load([('/verif/spec/tu_kernels.cc', 'LaplaceKernel')])
    ex = ctx.exec()
    for dim in (2, 3):
        R = Tup([t.var('R%d' % i, 'R') for i in range(dim)])
        r2 = t.R(0)
        for x in R.items:
            r2 = t.add(r2, t.mul(x, x))
        r = ex.models.sqrt(r2)
        pc = (t.gt(r2, t.R(0)),)
        pi = ex.models.pi
        if dim == 2:
            G = t.div(t.neg(t.app('log', (r,), 'R')), t.scale(2, pi))
            w = t.scale(2, t.mul(pi, r2))
        else:
            G = t.div(t.R(1), t.scale(4, t.mul(pi, r)))
            w = t.scale(4, t.mul(pi, t.mul(r2, r)))
        D = Tup([t.div(t.neg(x), w) for x in R.items])
        dl = lambda i, j: t.R(1 if i == j else 0)
        H = Tup([Tup([t.div(t.sub(t.scale(dim, t.mul(R.items[i], R.items[j])), t.mul(dl(i, j), r2)), t.mul(w, r2))
                      for j in range(dim)]) for i in range(dim)])
        o = -1 if dim == 3 else 1     # orientation: 3D hypersingular forms differentiate at the source point

        def fn(name, sig):
            return next(f for f in P.funcs[(None, name)] if f.body is not None and sig in f.sig and 'dim' not in f.sig)
        neg = lambda v: Tup([neg(x) for x in v.items]) if isinstance(v, Tup) else t.neg(v)
        z = Tup([t.var('d%d' % i, 'R') for i in range(dim)])
        Z = Tup([Tup([t.var('h%d%d' % (i, j), 'R') for j in range(dim)]) for i in range(dim)])
        with ctx.fn('single_layer<%d>' % dim):
            st = St(pc=pc)
            ctx.eq('is the Green function', pc, ex.call(st, fn('single_layer', 'Point<%d>' % dim), None, [R]), G, control=True)
        with ctx.fn('double_layer<%d>' % dim):
            st = St(pc=pc)
            ctx.eq('is the gradient of the Green function', pc, ex.call(st, fn('double_layer', 'Point<%d>' % dim), None, [R]), D, control=True)
        with ctx.fn('hypersingular<%d>' % dim):
            st = St(pc=pc)
            h = ex.call(st, fn('hypersingular', 'Point<%d>' % dim), None, [R])
            ctx.eq('is the second derivative of the Green function', pc, h, H if o > 0 else neg(H), control=True)
        with ctx.fn('kernels<%d>(R,D,d)' % dim):
            st = St(pc=pc)
            ld, lD = ex.tmp(st, t.var('d0', 'R')), ex.tmp(st, z)
            ex.call(st, fn('kernels', '(const Tensor<1, %d> &, Tensor<1, %d> &, double &)' % (dim, dim)), None, [R, lD, ld])
            ctx.eq('d is the Green function', pc, ex.read(st, ld), G, control=True)
            ctx.eq('D is its gradient', pc, ex.read(st, lD), D, control=True)
        with ctx.fn('kernels<%d>(R,H,D,d)' % dim):
            st = St(pc=pc)
            ld, lD, lH = ex.tmp(st, t.var('d0', 'R')), ex.tmp(st, z), ex.tmp(st, Z)
            ex.call(st, fn('kernels', '(const Tensor<1, %d> &, Tensor<2, %d> &, Tensor<1, %d> &, double &)' % (dim, dim, dim)), None, [R, lH, lD, ld])
            ctx.eq('d is the Green function', pc, ex.read(st, ld), G, control=True)
            ctx.eq('D is its gradient (same orientation as H)', pc, ex.read(st, lD), D if o > 0 else neg(D), control=True)
            h = ex.read(st, lH)
            ctx.eq('H is the second derivative', pc, h, H if o > 0 else neg(H), control=True)
            tr = t.R(0)
            for i in range(dim):
                tr = t.add(tr, h.items[i].items[i])
                for j in range(i):
                    ctx.eq('H symmetric %d%d' % (i, j), pc, h.items[i].items[j], h.items[j].items[i])
            ctx.eq('H is trace free (harmonic away from the source)', pc, tr, t.R(0))
        ctx.discharge(ex)
