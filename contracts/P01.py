"""Associated Legendre functions: values, derivatives, dispatch tables."""
import re
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.check import Harness
from spec import legendre as L

NMAX = 20
HARNESSES = [Harness('legendre', ['source/ass_leg_function.cc'], what='24 arguments x all degrees and orders up to 20 against the recurrence in long double')]
CLS = 'AssLegFunction'


def verify(ctx):
    P = ctx.load([('source/ass_leg_function.cc', CLS)])
    ex = ctx.exec()
    x = t.var('x', 'R')
    S = {}

    def spec(n, m, d):
        r = S.get((n, m, d))
        if r is None:
            r = S[n, m, d] = L.spec(ex.models, n, m, x, d)
        return r
    # leaf functions under contract
    proved = set()
    for (cls, name) in sorted(k for k in P.funcs if k[0] == CLS):
        g = re.match(r'^P_(\d+)_(\d+)(_Deriv)?$', name)
        if not g:
            continue
        n, m, d = int(g.group(1)), int(g.group(2)), 1 if g.group(3) else 0
        if not 0 <= m <= n <= NMAX:
            continue
        with ctx.fn('%s::%s' % (CLS, name)):
            st = St()
            r = ex.call(st, P.one(CLS, name), LV(('this',)), [x])
            if ctx.eq('returns the normalised associated Legendre %s' % ('derivative' if d else 'function'), st.pc, r, spec(n, m, d), control=(m == 0)):
                proved.add(name)
    # callers see only the contracts
    for name in proved:
        n, m, d = re.match(r'^P_(\d+)_(\d+)(_Deriv)?$', name).groups()

        def h(ex, st, this, args, node, n=int(n), m=int(m), d=1 if d else 0):
            return t.subst(spec(n, m, d), {x: ex.rv(st, args[0])}) if ex.rv(st, args[0]) is not x else spec(n, m, d)
        ex.contracts[(CLS, name)] = h
    this = LV(('this',))
    st0 = St()
    with ctx.fn(CLS + '::' + CLS):
        ex.write(st0, this, ex.construct_repo(st0, CLS, '', [], None))
        ctx.record('the tables have the declared extents', True, 'symbolic execution')
    if not ctx.functions[CLS + '::' + CLS][1]:
        return
    for fname, d in (('GetAssLegFunSph', 0), ('GetAssLegFunSphDeriv', 1)):
        with ctx.fn('%s::%s' % (CLS, fname)):
            for n in range(NMAX + 1):
                for m in range(n + 1):
                    st = st0.fork()
                    r = ex.call(st, P.one(CLS, fname), this, [t.I(n), t.I(m), x])
                    ctx.eq('value for degree %d order %d' % (n, m), st.pc, r, spec(n, m, d), control=(n == m == 1))
    for fname, d in (('AssLegFunSph', 0), ('AssLegFunSphDeriv', 1)):
        with ctx.fn('%s::%s' % (CLS, fname)):
            for p in range(NMAX + 1):
                for m in range(p + 1):
                    st = st0.fork()
                    args = [t.I(p), t.I(m), x]
                    for k in range(d + 1):
                        st.store[('y', k)] = ex.mk_sym('std::vector<double>', 'y%d' % k)
                        args.append(Ptr(('y', k), ((t.I(0),),)))
                    ex.call(st, P.one(CLS, fname), this, args)
                    for k in range(d + 1):
                        y = ex.read(st, LV(('y', k)))
                        for n in range(m, p + 1):
                            ctx.eq('p=%d m=%d entry n=%d (%s)' % (p, m, n, 'derivative' if k else 'value'), st.pc, ex.read(st, LV(('y', k), ((t.I(n - m),),))), spec(n, m, k))
                        i = t.var('i', 'I')
                        ctx.eq('p=%d m=%d frame' % (p, m), st.pc + (t.gt(i, t.I(p - m)),), ex.read(st, LV(('y', k), ((i,),))), t.app('y%d[]' % k, (i,), 'R'))
