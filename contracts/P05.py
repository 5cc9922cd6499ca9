"""Value semantics and memory safety of the expansion objects and the
translation coefficient table."""
from dv import terms as t
from dv.exec import St, strip
from dv.vals import *
from dv.check import Harness
from spec.expansions import *

LC = 'LocalExpansionCoeff'
SRC = ['source/ass_leg_function.cc', 'source/multipole_expansion.cc', 'source/local_expansion.cc', 'source/local_expansion_coeff.cc']
HARNESSES = [Harness('copies', SRC, san=True, what='random expansions copied, assigned, self-assigned and destroyed under AddressSanitizer')]


def heap(st):
    return {k for k in st.store if k[0] == 'h'}


def reach_heap(ex, st, lvs):
    """heap cells owned by the fields of the objects"""
    out = set()
    for lv in lvs:
        v = st.store.get(lv.cell)
        if isinstance(v, Struct):
            for x in v.f.values():
                if isinstance(x, Ptr) and x.cell is not None and x.cell[0] == 'h':
                    out.add(x.cell)
    return out


def glob_tables(ex, st, cls, name, decl, node):
    """The static tables are opaque here (their contents belong to P04)."""
    ty = decl.type if decl is not None else ''
    if strip(ty) == LC:
        c = ('G', 'table', name)
        if c not in st.store:
            st.store[c] = t.TRUE
            ex.construct_repo(st, LC, 'void (const unsigned int &)', [ex.tmp(st, t.I(1))], None, LV(('G', cls, name)))
        return st.store[('G', cls, name)]
    if ty:
        return ex.mk_sym(ty, 'global.' + name)


def verify(ctx):
    P = ctx.load([('source/multipole_expansion.cc', ME), ('source/local_expansion.cc', LE), ('source/local_expansion.cc', ALF),
                  ('source/local_expansion_coeff.cc', LC)])
    c1, c2 = point('c'), point('d')
    for cls in (ME, LE):
        cp = 'void (const %s &)' % cls
        for p in range(0, PMAX + 1):
            ca, cb = syms('A', p), syms('B', PMAX)

            def fresh_exec():
                ex = ctx.exec()
                ex.track_heap = True
                contracts(ctx, ex)
                ex.hooks['global'] = glob_tables
                return ex, St()

            def same(ex, st, lv, what, co, c, z, p=p):
                for n in range(p + 1):
                    for m in range(n + 1):
                        ctx.eq('%s: coefficient %d,%d' % (what, n, m), st.pc, coeff(ex, st, lv, cls, n, m), co[n, m], control=(n == 0 and p == 3))
                ctx.eq('%s: centre' % what, st.pc, ex.rv(st, ex.call(st, P.one(cls, 'GetCenter'), lv, [])), c)
                ctx.eq('%s: zero flag' % what, st.pc, ex.read(st, LV(lv.cell, ('is_zero',))), z)

            def heap_ok(ex, st, lvs, what, base):
                # (heap cells reachable from the static tables, built on first use, are not owned by the objects)
                own = reach_heap(ex, st, lvs)
                n = sum(1 for lv in lvs if lv.cell in st.store)
                ctx.record('%s: each object owns its own coefficient array' % what, len(own) == base, 'symbolic execution', str(own))
                ctx.record('%s: the arrays are alive' % what, not (own & ex.freed), 'symbolic execution')
                glob = {k for k in heap(st) if k not in own and k not in ex.freed}
                stat = set()
                for k, v in st.store.items():
                    if k[0] in ('G', 'S') and isinstance(v, Struct):
                        stat |= {x.cell for x in v.f.values() if isinstance(x, Ptr)}
                ctx.record('%s: nothing is leaked' % what, not (glob - stat), 'symbolic execution', str(glob - stat))

            with ctx.fn(cls + '::%s(const %s &)' % (cls, cls)):
                ex, st = fresh_exec()
                a = fresh(ex, st, 'a', cls, p, c1, ca, t.var('z', 'B'))
                b = LV(('b',))
                ex.construct_repo(st, cls, cp, [a], None, b)
                same(ex, st, b, 'p=%d copy' % p, ca, c1, t.var('z', 'B'))
                ctx.record('p=%d copy: same function table' % p, ex.read(st, LV(b.cell, ('assLegFunction',))) == ex.read(st, LV(a.cell, ('assLegFunction',))) if 'assLegFunction' in P.records[cls] else True, 'identity')
                # independence
                ex.call(st, P.one(cls, 'SetCoeff'), b, [t.I(0), t.I(0), ex.tmp(st, Cx(t.R(7), t.R(0)))])
                ex.call(st, P.one(cls, 'SetCenter'), b, [ex.tmp(st, c2)])
                same(ex, st, a, 'p=%d original after writing to the copy' % p, ca, c1, t.var('z', 'B'))
                heap_ok(ex, st, [a, b], 'p=%d copy' % p, 2)
                ex.run_body(st, P.one(cls, '~' + cls), b, [])
                del st.store[b.cell]
                same(ex, st, a, 'p=%d original after destroying the copy' % p, ca, c1, t.var('z', 'B'))
                ex.run_body(st, P.one(cls, '~' + cls), a, [])
                del st.store[a.cell]
                heap_ok(ex, st, [], 'p=%d all destroyed' % p, 0)
            with ctx.fn(cls + '::operator='):
                for q in sorted({p, 0, PMAX}):
                    ex, st = fresh_exec()
                    a = fresh(ex, st, 'a', cls, p, c1, ca, t.var('z', 'B'))
                    b = fresh(ex, st, 'b', cls, q, c2, cb, t.var('y', 'B'))
                    w = 'p=%d assigned over p=%d' % (p, q)
                    ex.call(st, P.one(cls, 'operator='), b, [a])
                    same(ex, st, b, w, ca, c1, t.var('z', 'B'))
                    ex.call(st, P.one(cls, 'SetCoeff'), b, [t.I(p), t.I(p), ex.tmp(st, Cx(t.R(7), t.R(0)))])
                    same(ex, st, a, w + ', source after writing to the target', ca, c1, t.var('z', 'B'))
                    heap_ok(ex, st, [a, b], w, 2)
                    ex.run_body(st, P.one(cls, '~' + cls), a, [])
                    del st.store[a.cell]
                    ctx.eq(w + ', target after destroying the source', st.pc, coeff(ex, st, b, cls, p, p), Cx(t.R(7), t.R(0)))
                    ex.run_body(st, P.one(cls, '~' + cls), b, [])
                    del st.store[b.cell]
                    heap_ok(ex, st, [], w + ', all destroyed', 0)
                ex, st = fresh_exec()
                a = fresh(ex, st, 'a', cls, p, c1, ca, t.var('z', 'B'))
                ex.call(st, P.one(cls, 'operator='), a, [a])
                same(ex, st, a, 'p=%d self-assignment' % p, ca, c1, t.var('z', 'B'))
                heap_ok(ex, st, [a], 'p=%d self-assignment' % p, 1)
        with ctx.fn(cls + '::%s()' % cls):
            p = 4
            ca = syms('A', p)
            ex, st = fresh_exec()
            d = LV(('d',))
            ex.construct_repo(st, cls, 'void ()', [], None, d)
            ctx.eq('default object is zero', st.pc, ex.read(st, LV(d.cell, ('is_zero',))), t.TRUE)
            b = LV(('b',))
            ex.construct_repo(st, cls, cp, [d], None, b)
            ctx.eq('copy of a default object is zero', st.pc, ex.read(st, LV(b.cell, ('is_zero',))), t.TRUE)
            a = fresh(ex, st, 'a', cls, p, c1, ca, t.FALSE)
            ex.call(st, P.one(cls, 'operator='), b, [a])
            same(ex, st, b, 'assigned over a default object', ca, c1, t.FALSE, p)
            ex.call(st, P.one(cls, 'operator='), b, [d])
            ctx.eq('assigned from a default object: zero', st.pc, ex.read(st, LV(b.cell, ('is_zero',))), t.TRUE)
            for x in (a, b, d):
                ex.run_body(st, P.one(cls, '~' + cls), x, [])
                del st.store[x.cell]
            heap_ok(ex, st, [], 'default objects destroyed', 0)
    # ---- coefficient table
    cp = 'void (const %s &)' % LC
    for p in range(0, PMAX + 1):
        idx = [(n, m, k, l) for n in range(p + 1) for m in range(n + 1) for k in range(p + 1) for l in range(-k, k + 1)]
        ref = lambda ex, st, v, ty: ex.tmp(st, t.I(v % 2 ** 32))

        def get(ex, st, lv, i):
            return ex.rv(st, ex.call(st, P.one(LC, 'get'), lv, [ref(ex, st, v, 0) for v in i]))
        with ctx.fn(LC + '::get / set'):
            ex = ctx.exec()
            ex.track_heap = True
            st = St()
            lv = LV(('tab',))
            ex.construct_repo(st, LC, 'void (const unsigned int &)', [ex.tmp(st, t.I(p))], None, lv)
            for i in idx:
                ex.call(st, P.one(LC, 'set'), lv, [ref(ex, st, v, 0) for v in i] + [ex.tmp(st, t.var('v%d_%d_%d_%d' % i, 'R'))])
            for i in idx:
                ctx.eq('p=%d entry %d,%d,%d,%d reads back what was written to it, whatever else is written' % ((p,) + i), st.pc, get(ex, st, lv, i), t.var('v%d_%d_%d_%d' % i, 'R'))
            ctx.eq('p=%d size' % p, st.pc, ex.rv(st, ex.call(st, P.one(LC, 'getNumberOfElements'), lv, [])), t.I(len(idx)))
        if p > 4 and p != PMAX:
            continue
        with ctx.fn(LC + ' copy / assignment / destruction'):
            b = LV(('b',))
            ex.construct_repo(st, LC, cp, [lv], None, b)
            for i in idx:
                ctx.eq('p=%d copy: entry %d,%d,%d,%d' % ((p,) + i), st.pc, get(ex, st, b, i), t.var('v%d_%d_%d_%d' % i, 'R'))
            ex.call(st, P.one(LC, 'set'), b, [ref(ex, st, v, 0) for v in idx[-1]] + [ex.tmp(st, t.R(5))])
            ctx.eq('p=%d original unchanged' % p, st.pc, get(ex, st, lv, idx[-1]), t.var('v%d_%d_%d_%d' % idx[-1], 'R'))
            c = LV(('c',))
            ex.construct_repo(st, LC, 'void (const unsigned int &)', [ex.tmp(st, t.I(2))], None, c)
            ex.call(st, P.one(LC, 'operator='), c, [lv])
            for i in idx:
                ctx.eq('p=%d assignment: entry %d,%d,%d,%d' % ((p,) + i), st.pc, get(ex, st, c, i), t.var('v%d_%d_%d_%d' % i, 'R'))
            ex.call(st, P.one(LC, 'operator='), c, [c])
            ctx.eq('p=%d self-assignment' % p, st.pc, get(ex, st, c, idx[-1]), t.var('v%d_%d_%d_%d' % idx[-1], 'R'))
            own = reach_heap(ex, st, [lv, b, c])
            ctx.record('p=%d three objects own three arrays' % p, len(own) == 3 and not own & ex.freed, 'symbolic execution')
            d = LV(('d',))
            ex.construct_repo(st, LC, 'void ()', [], None, d)
            e = LV(('e',))
            ex.construct_repo(st, LC, cp, [d], None, e)
            ex.call(st, P.one(LC, 'operator='), e, [lv])
            ctx.eq('p=%d assignment over an empty table' % p, st.pc, get(ex, st, e, idx[-1]), t.var('v%d_%d_%d_%d' % idx[-1], 'R'))
            for x in (lv, b, c, d, e):
                ex.run_body(st, P.one(LC, '~' + LC), x, [])
                del st.store[x.cell]
            left = heap(st) - ex.freed
            ctx.record('p=%d nothing is leaked' % p, not left, 'symbolic execution', str(left))
    with ctx.fn(LE + '::Add(real, imaginary)'):
        for p in range(0, PMAX + 1):
            ex = ctx.exec()
            ex.track_heap = True
            contracts(ctx, ex)
            ex.hooks['global'] = glob_tables
            cl = syms('A', p)
            n_ = (p + 1) * (p + 2) // 2
            st = St()
            lv = fresh(ex, st, 'this', LE, p, c1, cl, t.FALSE)

            def arr(nm):
                return LV(('arr' + nm,))
            for nm in 'ri':
                st.store[('arr' + nm,)] = Vec('double', t.I(n_), Arr('double', lambda k, nm=nm: t.app('src' + nm, tuple(k), 'R'), {}, 'src' + nm))
            ex.call(st, P.one(LE, 'Add', contains='vector'), lv, [arr('r'), arr('i')])
            c = 0
            for m in range(p + 1):
                for n in range(m, p + 1):
                    w = Cx(t.app('srcr', (t.I(c),), 'R'), t.app('srci', (t.I(c),), 'R'))
                    ctx.eq('p=%d coefficient %d,%d' % (p, n, m), st.pc, coeff(ex, st, lv, LE, n, m), cadd(cl[n, m], w))
                    c += 1
