"""Path reads, writes, merges over symbolic values."""
from . import terms as t
from .terms import T
from .vals import *


def kkey(key):
    return tuple((x.sort, x.val) if x.op == 'c' else x.id for x in key)


def all_const(key):
    return all(x.op == 'c' for x in key)


def vzero_like(v):
    if isinstance(v, T):
        return t.mk('c', (), v.sort, 0) if v.sort in 'IR' and False else t.const(0, v.sort)
    if isinstance(v, Cx):
        return Cx(t.R(0), t.R(0))
    if isinstance(v, Tup):
        return Tup([vzero_like(x) for x in v.items])
    raise Unsupported('zero of %r' % (v,))


def vadd(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return t.add(a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return Cx(t.add(a.re, b.re), t.add(a.im, b.im))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return Tup([vadd(x, y) for x, y in zip(a.items, b.items)])
    raise Unsupported('add %r %r' % (type(a), type(b)))


def tocx(a):
    if isinstance(a, Cx):
        return a
    return Cx(t.toR(a), t.R(0))


def vite(c, a, b):
    """Merge two values: c ? a : b."""
    if c.op == 'c':
        return a if c.val else b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return t.ite(c, a, b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = tocx(a), tocx(b)
        return Cx(t.ite(c, a.re, b.re), t.ite(c, a.im, b.im))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Struct) and isinstance(b, Struct):
        f = {}
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f:
                f[k] = vite(c, a.f[k], b.f[k])
            else:
                f[k] = vite(c, a.get(k), b.get(k))
        lz = a.lazy if a.lazy is b.lazy else ((lambda k: vite(c, a.get(k), b.get(k))) if a.lazy and b.lazy else a.lazy)
        return Struct(a.cls, f, lz)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        ks = set(a.f) | set(b.f)
        f = {}
        for k in ks:
            if k in a.f and k in b.f:
                f[k] = vite(c, a.f[k], b.f[k])
            # a field set on one side only is dropped (unknown afterwards)
        return Obj(a.cls, t.ite(c, a.term, b.term), f)
    if isinstance(a, SetV) and isinstance(b, SetV):
        return SetV(a.et, vite(c, a.chi, b.chi), a.name)
    if isinstance(a, MapV) and isinstance(b, MapV):
        return MapV(a.kt, a.vt, vite(c, a.data, b.data), vite(c, a.dom, b.dom), a.tidy and b.tidy)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.pieces is None and b.pieces is None:
            if a.size is b.size or not (a.size.op == 'c' and b.size.op == 'c'):
                return Vec(a.et, t.ite(c, a.size, b.size), vite(c, a.data, b.data))
        pa, pb = pieces_of(a), pieces_of(b)
        n = 0
        while n < len(pa) and n < len(pb) and _samepiece(pa[n], pb[n]):
            n += 1
        return Vec(a.et, None, None, pa[:n] + guard_pieces(c, pa[n:]) + guard_pieces(t.not_(c), pb[n:]))
    if isinstance(a, (LogV, Arr, Hav)) and isinstance(b, (LogV, Arr, Hav)):
        ba, ea = (a.base, a.ev) if isinstance(a, LogV) else (a, ())
        bb, eb = (b.base, b.ev) if isinstance(b, LogV) else (b, ())
        if ba is bb or (not ea and not eb):
            if ba is bb:
                n = 0
                while n < len(ea) and n < len(eb) and ea[n] is eb[n]:
                    n += 1
                return LogV(ba, ea[:n] + guard_events(c, ea[n:]) + guard_events(t.not_(c), eb[n:]))
            if isinstance(ba, Arr) and isinstance(bb, Arr) and ba.base is bb.base:
                items = {}
                for k in set(ba.items) | set(bb.items):
                    key = tuple(t.const(v, s) for s, v in k)
                    items[k] = vite(c, ba.items[k] if k in ba.items else ba.base(key),
                                    bb.items[k] if k in bb.items else bb.base(key))
                return Arr(ba.et, ba.base, items, ba.name)
        # general: pointwise
        et = (ba.et if isinstance(ba, Arr) else None)
        return Arr(et, lambda k: vite(c, vget(a, (k,)), vget(b, (k,))), {}, None)
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
            return a
        return PIte(c, a, b)
    if isinstance(a, LV) and isinstance(b, LV):
        if a.cell == b.cell and len(a.path) == len(b.path):
            path = []
            for x, y in zip(a.path, b.path):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        raise Unsupported('merge of references')
                    path.append(x)
                else:
                    path.append(tuple(t.ite(c, u, v) for u, v in zip(x, y)))
            return LV(a.cell, tuple(path))
        raise Unsupported('merge of references')
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and a.ck == b.ck and isinstance(a.x, T) and isinstance(b.x, T):
        return It(a.kind, a.c, t.ite(c, a.x, b.x), a.ck)
    if isinstance(a, (Void, Fn, Lam, Bind)) and a is b:
        return a
    if isinstance(a, Void) and isinstance(b, Void):
        return a
    if isinstance(a, Fn) and isinstance(b, Fn) and (a.cls, a.name, a.sig) == (b.cls, b.name, b.sig):
        return a
    if isinstance(a, It) and isinstance(b, It) and a.kind == b.kind and a.x is b.x:
        return a
    raise Unsupported('cannot merge %s / %s' % (a if isinstance(a, It) else type(a).__name__, b if isinstance(b, It) else type(b).__name__))


def _samepiece(p, q):
    if p is q:
        return True
    if p[0] == q[0] == 'sub':
        return p[1] is q[1] and p[2] is q[2] and len(p[3]) == len(q[3]) and all(_samepiece(x, y) for x, y in zip(p[3], q[3]))
    return p[0] == q[0] == 'el' and p[1] is q[1] and p[2] is q[2]


def arr_base(a, key):
    return a.base(key)


# index term -> (pieces, element): the generic element of a sequence being traversed by index
PIECE_AT = {}


def vget(v, path):
    """Read a path."""
    if not path:
        return v
    p = path[0]
    rest = path[1:]
    if isinstance(v, Struct):
        if not isinstance(p, str):
            raise Unsupported('index into struct %s' % v.cls)
        return vget(v.get(p), rest)
    if isinstance(v, Obj):
        if isinstance(p, str) and p in v.f:
            return vget(v.f[p], rest)
        if p in ('dofs_per_cell', 'dofs_per_face', 'dofs_per_vertex', 'dofs_per_line', 'degree') and not rest:
            return t.app('FE.' + p, (v.term,), 'I')
        if p in ('n_quadrature_points', 'max_n_quadrature_points') and not rest and v.cls.startswith('FEValues'):
            return t.app('FEValues.n_quadrature_points', (v.term,), 'I')
        raise Unsupported('component %s of external object %s' % (p, v.cls))
    if isinstance(v, Tup):
        if isinstance(p, str):
            ix = {'first': 0, 'second': 1}[p]
            return vget(v.items[ix], rest)
        k, = p
        if k.op == 'c':
            i = int(k.val)
            if not 0 <= i < len(v.items):
                raise OutOfBounds('index %d outside a fixed array of %d' % (i, len(v.items)))
            return vget(v.items[i], rest)
        r = vget(v.items[-1], rest)
        for i in range(len(v.items) - 2, -1, -1):
            r = vite(t.eq(k, t.I(i)), vget(v.items[i], rest), r)
        return r
    if isinstance(v, Cx):
        return v.re if p == 're' else v.im
    if isinstance(v, Arr):
        if v.items:
            kk = kkey(p)
            if all_const(p):
                x = v.items.get(kk)
                return vget(x if x is not None else v.base(p), rest)
            r = vget(v.base(p), rest)
            for k, x in v.items.items():
                key = tuple(t.const(val, s) for s, val in k)
                c = t.and_(*[t.eq(a, b) for a, b in zip(p, key)])
                r = vite(c, vget(x, rest), r)
            return r
        return vget(v.base(p), rest)
    if isinstance(v, Vec):
        if p == '#size':
            if v.pieces is not None:
                return pieces_size(v.pieces)
            return v.size
        if p == '#back':
            return vget(back(v), rest)
        if v.pieces is not None:
            w = PIECE_AT.get(p[0].id)
            if w is not None and (w[0] is v.pieces or len(w[0]) == len(v.pieces) and all(_samepiece(a, b) for a, b in zip(w[0], v.pieces))):
                return vget(w[1], rest)
            if all(q[0] == 'el' and q[1] is t.TRUE for q in v.pieces) and p[0].op == 'c':
                i = int(p[0].val)
                if not 0 <= i < len(v.pieces):
                    raise OutOfBounds('index %d outside a vector of %d' % (i, len(v.pieces)))
                return vget(v.pieces[i][2], rest)
            r = piece_at(v.pieces, p[0])
            if r is not None:
                return vget(r, rest)
            raise Unsupported('indexed read of a conditionally filled sequence')
        if p[0].op == 'c' and v.size is not None and v.size.op == 'c' and not 0 <= p[0].val < v.size.val:
            raise OutOfBounds('index %s outside a vector of %s' % (p[0].val, v.size.val))
        return vget(v.data, path)
    if isinstance(v, SetV):
        return vget(v.chi, path)
    if isinstance(v, MapV):
        if p == '#dom':
            return vget(v.dom, rest)
        return vget(v.data, path)
    if isinstance(v, LogV):
        return log_get(v, path)
    if isinstance(v, Hav):
        s = vget(v.shape, path)
        keys = []
        nm = []
        for q in path:
            if isinstance(q, str):
                nm.append('.' + q)
            else:
                nm.append('[]')
                keys.extend(q)
        return shape_sym(s, v.tok.val + ''.join(nm), tuple(keys) + (v.tok,))
    raise Unsupported('path %r into %s' % (p, type(v).__name__))


class OutOfBounds(Exception):
    """A definite out-of-bounds access on the current path."""


def has_back(v):
    """The last element of the sequence is the one appended last, whatever precedes it."""
    return isinstance(v, Vec) and bool(v.pieces) and v.pieces[-1][0] == 'el' and v.pieces[-1][1] is t.TRUE


def back(v):
    if not has_back(v):
        raise Unsupported('last element of a conditionally filled sequence')
    return v.pieces[-1][2]


def piece_at(ps, k):
    """Element k of a sequence made of sequences, of single elements and of one element per iteration of counted loops."""
    out, at = [], t.I(0)
    for p in ps:
        if p[0] == 'el' and p[1] is t.FALSE:
            continue
        if p[0] == 'el' and p[1] is t.TRUE:
            n, x = t.I(1), lambda k, p=p: p[2]
        elif p[0] == 'gall' and p[1] is t.TRUE and p[2].pieces is None:
            n, x = vget(p[2], ('#size',)), lambda k, p=p: vget(p[2], ((k,),))
        elif p[0] == 'sub' and len(p[3]) == 1 and p[3][0][0] == 'el' and p[3][0][1] is t.TRUE:
            r = t.interval(p[1], p[2])
            if r is None:
                return None
            n, x = t.add(t.sub(r[1], r[0]), t.I(1)), lambda k, p=p, lo=r[0]: vsubst(p[3][0][2], {p[1]: t.add(lo, k)})
            n = n if n.op == 'c' else t.ite(t.le(n, t.I(0)), t.I(0), n)
        else:
            return None
        out.append((at, x))
        at = t.add(at, n)
    if not out:
        return None
    r = out[-1][1](t.sub(k, out[-1][0]))
    for (at, x), (to, _) in list(zip(out, out[1:]))[::-1]:
        r = vite(t.lt(k, to), x(t.sub(k, at)), r)
    return r


def pieces_size(ps):
    r = t.I(0)
    for p in ps:
        if p[0] == 'el':
            r = t.add(r, t.ite(p[1], t.I(1), t.I(0)))
        elif p[0] == 'gall':
            r = t.add(r, t.ite(p[1], vget(p[2], ('#size',)), t.I(0)))
        else:
            r = t.add(r, t.sum_(p[1], p[2], pieces_size(p[3])))
    SIZED[r.id] = (ps, r)
    return r


SIZED = {}


def shape_sym(s, name, keys):
    if isinstance(s, T):
        return t.app(name, keys, s.sort)
    if isinstance(s, Cx):
        return Cx(t.app(name + '.re', keys, 'R'), t.app(name + '.im', keys, 'R'))
    if isinstance(s, Tup):
        return Tup([shape_sym(x, '%s.%d' % (name, i), keys) for i, x in enumerate(s.items)])
    if isinstance(s, Struct):
        return Struct(s.cls, {}, lambda k: shape_sym(s.get(k), name + '.' + k, keys))
    if isinstance(s, Vec):
        nm = name
        return Vec(s.et, t.app(nm + '.size', keys, 'I'),
                   Arr(s.et, lambda k: shape_sym(vget(s, (k,)) if s.pieces is None else _elshape(s), nm + '[]', keys + tuple(k))))
    if isinstance(s, Arr):
        return Arr(s.et, lambda k: shape_sym(vget(s, (k,)), name + '[]', keys + tuple(k)))
    if isinstance(s, LogV):
        return shape_sym(s.base, name, keys)
    if isinstance(s, Hav):
        return shape_sym(s.shape, name, keys)
    if isinstance(s, SetV):
        return SetV(s.et, Arr('bool', lambda k: t.app(name + '.has', keys + tuple(k), 'B')))
    if isinstance(s, MapV):
        return MapV(s.kt, s.vt, shape_sym(s.data, name, keys), shape_sym(s.dom, name + '.dom', keys), s.tidy)
    if isinstance(s, Obj):
        return Obj(s.cls, t.app(name, keys, s.term.sort))
    if isinstance(s, It):
        return It('pos' if s.kind == 'pos' else 'el', s.c, t.app(name, keys, s.x.sort if isinstance(s.x, T) else 'El'), s.ck)
    raise Unsupported('havoc of %s' % type(s).__name__)


def _elshape(s):
    for p in s.pieces:
        if p[0] == 'el':
            return p[2]
        if p[0] == 'gall':
            return vget(p[2], ((t.I(0),),))
        return _elshape(Vec(s.et, None, None, p[3]))
    raise Unsupported('element shape')


def rel(p, q):
    """Relation of read path p and written path q over the common prefix:
    None if disjoint, else the condition under which they coincide."""
    c = []
    for x, y in zip(p, q):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
            continue
        for u, v in zip(x, y):
            e = t.eq(u, v)
            if e is t.FALSE:
                return None
            c.append(e)
    return t.and_(*c)


def log_get(v, path):
    def shape():
        return vget(v.base, path)
    return _replay(v.ev, path, lambda q=None: vget(v.base, path[:q]))


def _replay(evs, path, basef):
    """Value of `path` after events evs, given the value before."""
    # find the newest definite overwrite to cut the log
    start = 0
    start_val = None
    for i in range(len(evs) - 1, -1, -1):
        e = evs[i]
        if e[0] == 'w' and e[3] == 'set' and len(e[1]) <= len(path):
            c = rel(path, e[1])
            if c is t.TRUE and e[2] is t.TRUE:
                start = i + 1
                start_val = vget(e[4], path[len(e[1]):])
                break
    evs = evs[start:]
    q = _pushed(evs, path)
    if q is not None and WFACTS:
        evs = _live(evs, path, t.TRUE)
        q = _pushed(evs, path)
    if q is not None:
        return vget(_replay(evs, path[:q], lambda: basef(q)), path[q:])
    r = start_val if start else basef()
    for e in evs:
        r = _apply(e, path, r)
    return r


def _pushed(evs, path):
    """Length of the prefix of path that is a sequence elements are appended to."""
    for e in evs:
        if e[0] == 'w':
            if e[3] == 'push' and len(e[1]) < len(path) and rel(path, e[1]) not in (None, t.FALSE):
                return len(e[1])
        elif e[0] == 'b':
            q = _pushed(e[3], path)
            if q is not None:
                return q
    return None


def _apply(e, path, r):
    if e[0] == 'w':
        _, q, g, op, val = e
        c = rel(path, q)
        if c is None:
            return r
        c = t.and_(c, g)
        if c is t.FALSE:
            return r
        if op == 'push':
            if len(q) == len(path):
                return vpush(r, val, c)
            if len(q) < len(path):
                raise Unsupported('element read of a pushed sequence')
        elif len(q) <= len(path):
            sub = vget(val, path[len(q):])
            if op == 'set':
                return vite(c, sub, r)
            z = vzero_like(sub)
            return vadd(r, vite(c, sub, z))
        return vset(r, q[len(path):], val, op, c)
    _, b, dom, sub = e
    if not _only_adds(sub) and len(_kinds(sub)) > 1:
        sub = _meeting(sub, path)
        if not sub:
            return r
        e = ('b', b, dom, sub)
    if WFACTS and not _only_adds(sub) and 'push' not in _kinds(sub):
        sub = _live(sub, path, dom)
        if not sub:
            return r
        e = ('b', b, dom, tuple(sub))
    if _kinds(sub) == {'push'} and isinstance(r, Vec) and _deeper(sub, path):
        return _sub_block(e, path, r)
    if _kinds(sub) == {'push'} and isinstance(r, Vec):
        ps = push_pieces(sub, path)
        return Vec(r.et, None, None, pieces_of(r) + (('sub', b, dom, ps),)) if ps else r
    if _only_adds(sub):
        # order-independent accumulation
        try:
            z = vzero_like(r)
        except Unsupported:
            z = None
        if z is not None:
            d = z
            for s in sub:
                d = _apply(s, path, d)
            return vadd(r, vsum(b, dom, d))
        # an aggregate: keep the block as a pending write on the part
        return _sub_block(e, path, r)
    # overwrites: solve the binder from the written index
    sol = _solve(b, sub, path)
    if sol == 'disjoint':
        return r
    if sol is not None:
        if sol == 'aggregate':
            return _sub_block(e, path, r)
        m = {b: sol}
        d2 = t.subst(dom, m)
        new = r
        for s in sub:
            new = _apply(esubst(s, m), path, new)
        return vite(d2, new, r)
    w = _witness(b, dom, sub, path)
    if w is not None:
        m = {b: w}
        new = r
        for s in sub:
            new = _apply(esubst(s, m), path, new)
        return vite(t.subst(dom, m), new, r)
    if _separate(b, dom, sub):
        for s in sub:
            r = _apply(('b', b, dom, (s,)), path, r)
        return r
    if isinstance(r, SetV) and _deeper(sub, path):
        return SetV(r.et, Arr('bool', lambda k: _apply(e, path + (k,), vget(r, (k,)))))
    if isinstance(r, MapV) and _deeper(sub, path):
        return _sub_block(e, path, r)
    sv = _exists_set(b, dom, sub, path, r)
    if sv is not None:
        return sv
    sv = _pick(b, dom, sub, path, r)
    if sv is not None:
        return sv
    raise Unsupported('overwrite inside a loop with an index that does not identify the iteration: %s' % show_ev(e))


def _meeting(evs, path):
    """Without the writes to other parts (another field, the keys of a map)."""
    out = []
    for s in evs:
        if s[0] == 'b':
            x = _meeting(s[3], path)
            if x:
                out.append(('b', s[1], s[2], x))
        elif rel(path, s[1]) is not None:
            out.append(s)
    return tuple(out)


def _separate(b, dom, sub):
    """Several overwrites of which none meets another one's of a different iteration:
    the loop does what one loop for each of them does."""
    if len(sub) < 2 or any(e[0] != 'w' or e[3] != 'set' for e in sub):
        return False
    key = (b.id, dom.id, tuple(id(e) for e in sub))
    if key not in _SEPARATE:
        from . import smt
        o = t.fresh('other', b.sort)
        bad = []
        for i, e in enumerate(sub):
            for f in sub[:i]:
                c = rel(e[1], esubst(f, {b: o})[1])
                if c is not None:
                    bad.append(t.and_(c, e[2], t.subst(f[2], {b: o})))
        bad = t.and_(dom, t.subst(dom, {b: o}), t.not_(t.eq(b, o)), t.or_(*bad))
        _SEPARATE[key] = sub, bad is t.FALSE or smt.check_sat([bad], 3000) == 'unsat'
    return _SEPARATE[key][1]


_SEPARATE = {}


def _deeper(evs, path):
    """Every event that can touch path is on a proper part of it."""
    for e in evs:
        if e[0] == 'b':
            if not _deeper(e[3], path):
                return False
        elif len(e[1]) <= len(path) and rel(path, e[1]) is not None:
            return False
    return True


def _exists_set(b, dom, sub, path, r):
    """Overwrites at indices that do not identify the iteration: when every
    write that can hit `path` stores the same value, that value is there if some
    iteration writes it; where different values may meet, the result is unknown."""
    ws = []

    def collect(evs, bs, g):
        for s in evs:
            if s[0] == 'b':
                if not collect(s[3], bs + (s[1],), t.and_(g, s[2])):
                    return False
                continue
            if s[3] != 'set' or len(s[1]) > len(path):
                return False
            c = rel(path, s[1])
            if c is None or c is t.FALSE:
                continue
            x = vget(s[4], path[len(s[1]):])
            m = {}
            for u, v in zip(path, s[1]):
                if not isinstance(u, str):
                    for y, z in zip(u, v):
                        if z is not y and z.op in ('app', 'v'):
                            m[z] = y
            x = vsubst(x, m) if m else x
            ts = list(vterms(x))
            if not isinstance(x, (T, Cx, Tup)) or any(z in t.free_vars(y) for y in ts for z in bs):
                return False
            cond = t.and_(g, c, t.subst(s[2], {k_: v_ for k_, v_ in m.items()}) if m else s[2])
            for z in reversed(bs):
                cond = t.exists(z, cond) if z in t.free_vars(cond) else cond
            ws.append((cond, x))
        return True
    if not collect(sub, (b,), dom):
        return None
    if not ws:
        return r
    groups = []
    for c, x in ws:
        for g in groups:
            if _sameval(g[1], x):
                g[0].append(c)
                break
        else:
            groups.append(([c], x))
    gs = [(t.or_(*cs), x) for cs, x in groups]
    # where several values meet, the one that was written last is any of them
    fv = sorted({y for c, x in gs for z in [c] + list(vterms(x)) for y in t.free_vars(z) if y.sort != 'Tok'}, key=lambda y: y.id)
    res, before = r, t.FALSE
    for c, x in gs:
        if t.and_(before, c) is t.FALSE:
            res = vite(c, x, res)
        else:
            _npick[0] += 1
            res = vite(t.and_(c, t.or_(t.not_(before), t.app('last!%d' % _npick[0], tuple(fv), 'B'))), x, res)
        before = t.or_(before, c)
    return res


# Facts under which containers are being read, and candidate iterations
WFACTS = []
WITNESSES = []


class under:
    """Read containers under known facts: iterations that cannot touch the
    location are dropped, candidate iterations are tried as the only one."""

    def __init__(self, facts, witnesses=()):
        self.facts, self.witnesses = tuple(facts), tuple(witnesses)

    def __enter__(self):
        self.old = WFACTS[:], WITNESSES[:]
        WFACTS[:], WITNESSES[:] = self.facts, self.witnesses

    def __exit__(self, *a):
        WFACTS[:], WITNESSES[:] = self.old


def _touch(evs, path, g, out):
    """Conditions under which events touch `path` (binders left free)."""
    for s in evs:
        if s[0] == 'b':
            _touch(s[3], path, t.and_(g, s[2]), out)
            continue
        c = rel(path, s[1])
        if c is not None and c is not t.FALSE:
            out.append(t.and_(g, c, s[2]))


def _impossible(g):
    from . import smt
    return smt.check_sat(list(WFACTS) + [g], 3000) == 'unsat'


def _witness(b, dom, sub, path):
    if not WITNESSES:
        return None
    out = []
    _touch(sub, path, dom, out)
    for w in WITNESSES:
        if w.sort == b.sort and all(_impossible(t.and_(c, t.not_(t.eq(b, w)))) for c in out):
            return w
    return None


def _live(evs, path, g):
    """The events that can touch `path` under the facts."""
    out = []
    for s in evs:
        if s[0] == 'b':
            sub = _live(s[3], path, t.and_(g, s[2]))
            if sub:
                out.append(('b', s[1], s[2], tuple(sub)))
            continue
        c = rel(path, s[1])
        if c is None or c is t.FALSE or _impossible(t.and_(g, c, s[2])):
            continue
        out.append(s)
    return out


_npick = [0]
PICKS = {}


def _pick(b, dom, sub, path, r):
    """Overwrites by several iterations: the value of one of them."""
    if not WFACTS or any(e[0] != 'w' or e[3] != 'set' or len(e[1]) > len(path) for e in sub):
        return None
    out = []
    _touch(sub, path, dom, out)
    if not out:
        return r
    here = t.or_(*out)
    fv = sorted((x for x in t.free_vars(here) if x is not b and x.sort != 'Tok'), key=lambda x: x.id)
    _npick[0] += 1
    p = t.app('pick!%d' % _npick[0], tuple(fv), b.sort)
    m = {b: p}
    from . import smt
    smt.define(p.val, fv, t.implies(t.exists(b, here), t.subst(here, m)))
    PICKS[p.val] = t.subst(here, m)
    new = r
    for s in sub:
        new = _apply(esubst(s, m), path, new)
    return vite(t.exists(b, here), new, r)


def _sameval(a, b):
    x, y = list(vterms(a)), list(vterms(b))
    return len(x) == len(y) and all(p is q for p, q in zip(x, y))


def show_ev(e):
    if e[0] == 'w':
        return 'write %r if %s %s %s' % (e[1], e[2], e[3], e[4])
    return 'for %s in {%s}: [%s]' % (e[1], e[2], '; '.join(show_ev(x) for x in e[3]))


def _sub_block(e, path, r):
    """Project a block on the aggregate at `path`."""
    _, b, dom, sub = e
    out = []
    for s in sub:
        if s[0] == 'w':
            c = rel(path, s[1])
            if c is None:
                continue
            if len(s[1]) <= len(path):
                raise Unsupported('aggregate overwrite in loop')
            out.append(('w', s[1][len(path):], t.and_(c, s[2]), s[3], s[4]))
        else:
            x = _sub_block(s, path, None)
            if x:
                out.append(x)
    if r is None:
        return ('b', b, dom, tuple(out)) if out else None
    if not out:
        return r
    ev = ('b', b, dom, tuple(out))
    return append_events(r, (ev,))


def append_events(r, evs):
    """Append raw events (paths relative to r)."""
    if isinstance(r, LogV):
        return LogV(r.base, r.ev + evs)
    if isinstance(r, (Arr, Hav)):
        return LogV(r, evs)
    if isinstance(r, Vec) and r.pieces is None:
        return Vec(r.et, r.size, append_events(r.data, evs))
    if isinstance(r, SetV):
        return SetV(r.et, append_events(r.chi, evs), r.name)
    if isinstance(r, Struct):
        # split per field
        by = {}

        def proj(e, f):
            if e[0] == 'w':
                if e[1][0] != f:
                    return None
                return ('w', e[1][1:], e[2], e[3], e[4])
            s = tuple(x for x in (proj(y, f) for y in e[3]) if x)
            return ('b', e[1], e[2], s) if s else None

        def heads(e):
            if e[0] == 'w':
                yield e[1][0]
            else:
                for x in e[3]:
                    yield from heads(x)
        names = []
        for e in evs:
            for h in heads(e):
                if h not in names:
                    names.append(h)
        f = dict(r.f)
        for nme in names:
            es = tuple(x for x in (proj(e, nme) for e in evs) if x)
            f[nme] = append_events(r.get(nme), es)
        return Struct(r.cls, f, r.lazy)
    if isinstance(r, MapV):
        de = tuple(e for e in evs)
        dom_e, dat_e = [], []

        def split(e):
            if e[0] == 'w':
                return (('w', e[1][1:], e[2], e[3], e[4]), None) if e[1][0] == '#dom' else (None, e)
            a, b_ = [], []
            for x in e[3]:
                p, q = split(x)
                if p:
                    a.append(p)
                if q:
                    b_.append(q)
            return (('b', e[1], e[2], tuple(a)) if a else None, ('b', e[1], e[2], tuple(b_)) if b_ else None)
        for e in evs:
            p, q = split(e)
            if p:
                dom_e.append(p)
            if q:
                dat_e.append(q)
        return MapV(r.kt, r.vt, append_events(r.data, tuple(dat_e)) if dat_e else r.data,
                    append_events(r.dom, tuple(dom_e)) if dom_e else r.dom, r.tidy)
    if isinstance(r, (T, Cx)):
        for e in evs:
            r = _apply(e, (), r)
        return r
    if isinstance(r, Tup):
        raise Unsupported('sub-write on scalar')
    raise Unsupported('events on %s' % type(r).__name__)


def _only_adds(evs):
    for e in evs:
        if e[0] == 'w':
            if e[3] != 'add':
                return False
        elif not _only_adds(e[3]):
            return False
    return True


def _solve(b, evs, path):
    """Find a term s with: an event of the block can touch `path` only in the
    iteration b = s."""
    sols = []

    def walk(e):
        if e[0] == 'w':
            if rel(path, e[1]) is None:
                return True
            found = None
            for x, y in zip(path, e[1]):
                if isinstance(x, str):
                    continue
                for u, v in zip(x, y):
                    s = invert(v, b, u)
                    if s is not None:
                        found = s
                        break
                if found is not None:
                    break
            if found is None and len(e[1]) > len(path):
                # the binder may be identified by the deeper part of the path
                for y in e[1][len(path):]:
                    if not isinstance(y, str) and any(b in t.free_vars(v) for v in y):
                        sols.append('aggregate')
                        return True
            if found is None:
                return False
            sols.append(found)
            return True
        return all(walk(x) for x in e[3])
    if not all(walk(e) for e in evs):
        return None
    if not sols:
        return 'disjoint'
    if all(s is sols[0] for s in sols):
        return sols[0]
    return None


_inv_hooks = []


def invert(v, b, u):
    """Solve v(b) = u for b when v is b, b + const or a registered bijection."""
    if v is b:
        return u
    if v.op == 'lin':
        d = dict(zip(v.args, v.val[1]))
        if b in d and abs(d[b]) == 1 and not any(b in t.free_vars(x) for x in d if x is not b):
            rest = t.sub(v, t.scale(d[b], b))
            return t.scale(d[b], t.sub(u, rest))
    for h in _inv_hooks:
        r = h(v, b, u)
        if r is not None:
            return r
    return None


def vsum(b, dom, v):
    if isinstance(v, T):
        if v.op == 'c' and v.val == 0:
            return v
        return t.sum_(b, dom, v)
    if isinstance(v, Cx):
        return Cx(vsum(b, dom, v.re), vsum(b, dom, v.im))
    if isinstance(v, Tup):
        return Tup([vsum(b, dom, x) for x in v.items])
    raise Unsupported('sum of %s' % type(v).__name__)


def vpush(v, val, guard):
    if not isinstance(v, Vec):
        if isinstance(v, (LogV, Hav)):
            return append_events(v, (('w', (), guard, 'push', val),))
        raise Unsupported('push_back on %s' % type(v).__name__)
    if v.pieces is None and v.size.op == 'c' and guard is t.TRUE:
        k = (v.size,)
        return Vec(v.et, t.add(v.size, t.I(1)), vset(v.data, (k,), val))
    return Vec(v.et, None, None, pieces_of(v) + (('el', guard, val),))


def push_pieces(evs, path):
    """Pieces pushed on the sequence at exactly `path` by events evs."""
    out = []
    for e in evs:
        if e[0] == 'w':
            c = rel(path, e[1])
            if c is None or len(e[1]) != len(path):
                if c is None:
                    continue
                raise Unsupported('mixed depth pushes')
            g = t.and_(c, e[2])
            if g is not t.FALSE:
                out.append(('el', g, e[4]))
        else:
            ps = push_pieces(e[3], path)
            if ps:
                out.append(('sub', e[1], e[2], ps))
    return tuple(out)


def _kinds(evs, s=None):
    s = set() if s is None else s
    for e in evs:
        if e[0] == 'w':
            s.add(e[3])
        else:
            _kinds(e[3], s)
    return s


def logged(path):
    if '#back' in path:
        raise Unsupported('write into the last element of a sequence inside a container')
    return path


def vset(v, path, val, op='set', guard=t.TRUE):
    """Functional update."""
    if not path and op == 'push':
        return vpush(v, val, guard)
    if not path:
        if op == 'set':
            return vite(guard, val, v) if guard is not t.TRUE else val
        return vadd(v, vite(guard, val, vzero_like(val)) if guard is not t.TRUE else val)
    p = path[0]
    rest = path[1:]
    if isinstance(v, Struct):
        f = dict(v.f)
        f[p] = vset(v.get(p), rest, val, op, guard)
        return Struct(v.cls, f, v.lazy)
    if isinstance(v, Obj):
        f = dict(v.f)
        if rest or op != 'set' or guard is not t.TRUE:
            f[p] = vset(f[p], rest, val, op, guard)
        else:
            f[p] = val
        return Obj(v.cls, v.term, f)
    if isinstance(v, Tup):
        if isinstance(p, str):
            i = {'first': 0, 'second': 1}[p]
        elif p[0].op == 'c':
            i = int(p[0].val)
            if not 0 <= i < len(v.items):
                raise OutOfBounds('index %d outside a fixed array of %d' % (i, len(v.items)))
        else:
            return Tup([vset(x, rest, val, op, t.and_(guard, t.eq(p[0], t.I(i)))) for i, x in enumerate(v.items)])
        it = list(v.items)
        it[i] = vset(it[i], rest, val, op, guard)
        return Tup(it)
    if isinstance(v, Cx):
        if p == 're':
            return Cx(vset(v.re, rest, val, op, guard), v.im)
        return Cx(v.re, vset(v.im, rest, val, op, guard))
    if isinstance(v, Arr):
        if all_const(p):
            kk = kkey(p)
            old = v.items.get(kk)
            if old is None and (rest or op != 'set' or guard is not t.TRUE):
                old = v.base(p)
            nv = vset(old, rest, val, op, guard) if (rest or op != 'set' or guard is not t.TRUE) else val
            it = dict(v.items)
            it[kk] = nv
            return Arr(v.et, v.base, it, v.name)
        return LogV(v, (('w', logged(path), guard, op, val),))
    if isinstance(v, Hav):
        return LogV(v, (('w', logged(path), guard, op, val),))
    if isinstance(v, LogV):
        logged(path)
        return LogV(v.base, v.ev + (('w', path, guard, op, val),))
    if isinstance(v, Vec):
        if p == '#size':
            return Vec(v.et, vset(v.size, rest, val, op, guard), v.data, v.pieces)
        if p == '#back':
            return Vec(v.et, None, None, v.pieces[:-1] + (('el', t.TRUE, vset(back(v), rest, val, op, guard)),))
        if v.pieces is not None:
            if all(q[0] == 'el' and q[1] is t.TRUE for q in v.pieces) and p[0].op == 'c':
                ps = list(v.pieces)
                i = int(p[0].val)
                if not 0 <= i < len(ps):
                    raise OutOfBounds('index %d outside a vector of %d' % (i, len(ps)))
                ps[i] = ('el', t.TRUE, vset(ps[i][2], rest, val, op, guard))
                return Vec(v.et, None, None, tuple(ps))
            raise Unsupported('indexed write into a conditionally filled sequence')
        if p[0].op == 'c' and v.size.op == 'c' and not 0 <= p[0].val < v.size.val:
            raise OutOfBounds('index %s outside a vector of %s' % (p[0].val, v.size.val))
        return Vec(v.et, v.size, vset(v.data, path, val, op, guard))
    if isinstance(v, SetV):
        return SetV(v.et, vset(v.chi, path, val, op, guard), v.name)
    if isinstance(v, MapV):
        if p == '#dom':
            return MapV(v.kt, v.vt, v.data, vset(v.dom, rest, val, op, guard), v.tidy)
        return MapV(v.kt, v.vt, vset(v.data, path, val, op, guard), v.dom, v.tidy)
    raise Unsupported('write through %r into %s' % (p, type(v).__name__))
