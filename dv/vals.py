"""Symbolic C++ values: immutable, path-addressable, mergeable."""
from . import terms as t
from .terms import T


DEADLINE = [0.0]         # when to give up (time.time())


class Unsupported(Exception):
    pass


class Cx:
    """std::complex"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __repr__(self):
        return 'Cx(%s, %s)' % (self.re, self.im)


class Tup:
    """fixed-length aggregate (Point, Tensor, std::array, pair)."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Tup(%s)' % ', '.join(map(repr, self.items))


class Struct:
    __slots__ = ('cls', 'f', 'lazy')

    def __init__(self, cls, f, lazy=None):
        self.cls, self.f, self.lazy = cls, f, lazy      # lazy: (mk, name, args)

    def get(self, k):
        v = self.f.get(k)
        if v is None:
            if self.lazy is None:
                raise Unsupported('field %s of %s is not modelled' % (k, self.cls))
            v = self.lazy(k)
            self.f[k] = v           # memo (deterministic, so sharing is harmless)
        return v

    def __repr__(self):
        return 'Struct(%s %s)' % (self.cls, self.f)


class Arr:
    """Map from key tuples to values.  base: key -> Val (Python function)."""
    __slots__ = ('et', 'base', 'items', 'name')

    def __init__(self, et, base, items=None, name=None):
        self.et, self.base, self.items, self.name = et, base, items or {}, name

    def __repr__(self):
        return 'Arr<%s>%s' % (self.et, dict(list(self.items.items())[:5]))


class Vec:
    """Sequence container: size + indexed data, or a list of pieces.

    pieces: tuple of ('el', guard, val) | ('sub', binder, dom, pieces) | ('all', Vec)"""
    __slots__ = ('et', 'size', 'data', 'pieces')

    def __init__(self, et, size, data, pieces=None):
        self.et, self.size, self.data, self.pieces = et, size, data, pieces

    def __repr__(self):
        if self.pieces is not None:
            return 'VecP%r' % (self.pieces,)
        return 'Vec[%s]%r' % (self.size, self.data)


class SetV:
    """std::set / IndexSet: characteristic function (Arr of Bool, possibly logged)."""
    __slots__ = ('et', 'chi', 'name')

    def __init__(self, et, chi, name=None):
        self.et, self.chi, self.name = et, chi, name


class MapV:
    """tidy: the data of absent keys is value-initialised (operator[] need not write it)."""
    __slots__ = ('kt', 'vt', 'data', 'dom', 'tidy')

    def __init__(self, kt, vt, data, dom, tidy=False):
        self.kt, self.vt, self.data, self.dom, self.tidy = kt, vt, data, dom, tidy


class LogV:
    """An aggregate plus a log of symbolic writes.

    events: ('w', path, guard, op, val)          op in set/add
            ('b', binder, dom, (events...))      one generic iteration of a loop"""
    __slots__ = ('base', 'ev')

    def __init__(self, base, ev):
        self.base, self.ev = base, ev

    def __repr__(self):
        return 'LogV(%r, %d events)' % (self.base, len(self.ev))


class Hav:
    """Unknown contents with the shape of `shape` (reads give fresh symbols)."""
    __slots__ = ('shape', 'tok')

    def __init__(self, shape, tok):
        self.shape, self.tok = shape, tok


class Ptr:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return 'Ptr(%s%r)' % (self.cell, self.path)

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell == o.cell and _pk(self.path) == _pk(o.path)

    def __hash__(self):
        return hash((self.cell, _pk(self.path)))


def _pk(path):
    return tuple(p if isinstance(p, str) else tuple(x.id for x in p) for p in path)


NULL = Ptr(None)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class LV:
    """lvalue: cell + path"""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return 'LV(%s%r)' % (self.cell, self.path)


class Fn:
    """function / member-function pointer"""
    __slots__ = ('cls', 'name', 'sig')

    def __init__(self, cls, name, sig):
        self.cls, self.name, self.sig = cls, name, sig

    def __repr__(self):
        return 'Fn(%s::%s)' % (self.cls, self.name)


class Lam:
    __slots__ = ('node', 'frame', 'caps', 'bound')

    def __init__(self, node, frame, caps, bound=None):
        self.node, self.frame, self.caps, self.bound = node, frame, caps, bound


class Bind:
    """std::bind / mem_fn result"""
    __slots__ = ('fn', 'args')

    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class It:
    """iterator: kind in begin/end/el/find/pos ; c = container LV or Val; x = element term"""
    __slots__ = ('kind', 'c', 'x', 'ck')

    def __init__(self, kind, c, x=None, ck=None):
        self.kind, self.c, self.x, self.ck = kind, c, x, ck

    def __repr__(self):
        return 'It(%s,%r,%s)' % (self.kind, self.c, self.x)


class Obj:
    """Object of an external class: an uninterpreted state plus modelled fields."""
    __slots__ = ('cls', 'term', 'f')

    def __init__(self, cls, term, f=None):
        self.cls, self.term, self.f = cls, term, f or {}

    def __repr__(self):
        return 'Obj(%s %s %s)' % (self.cls, self.term, self.f)


class Void:
    pass


VOID = Void()


def guard_events(g, evs):
    """Conjoin a guard to every event (pushed inside blocks)."""
    if g is t.TRUE:
        return evs
    out = []
    for e in evs:
        if e[0] == 'w':
            out.append(('w', e[1], t.and_(g, e[2]), e[3], e[4]))
        else:
            out.append(('b', e[1], t.and_(g, e[2]), e[3]))
    return tuple(out)


def guard_pieces(g, ps):
    if g is t.TRUE:
        return ps
    out = []
    for p in ps:
        if p[0] == 'el':
            out.append(('el', t.and_(g, p[1]), p[2]))
        elif p[0] == 'sub':
            out.append(('sub', p[1], t.and_(g, p[2]), p[3]))
        else:
            out.append(('gall', t.and_(g, p[1]), p[2]) if p[0] == 'gall' else ('gall', g, p[1]))
    return tuple(out)


def pieces_of(v):
    """Vec -> pieces."""
    if v.pieces is not None:
        return v.pieces
    if v.size.op == 'c':
        n = int(v.size.val)
        from .access import vget
        return tuple(('el', t.TRUE, vget(v, ((t.I(i),),))) for i in range(n))
    return (('gall', t.TRUE, v),)


# ------------------------------------------------------------------ substitution
def vsubst(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return t.subst(v, m)
    if isinstance(v, Cx):
        return Cx(t.subst(v.re, m), t.subst(v.im, m))
    if isinstance(v, Tup):
        return Tup([vsubst(x, m) for x in v.items])
    if isinstance(v, Struct):
        lz = v.lazy
        return Struct(v.cls, {k: vsubst(x, m) for k, x in v.f.items()},
                      (lambda k: vsubst(lz(k), m)) if lz else None)
    if isinstance(v, Arr):
        b = v.base
        return Arr(v.et, lambda k: vsubst(b(k), m), {k: vsubst(x, m) for k, x in v.items.items()}, v.name)
    if isinstance(v, Vec):
        return Vec(v.et, vsubst(v.size, m) if v.size is not None else None,
                   vsubst(v.data, m) if v.data is not None else None,
                   None if v.pieces is None else tuple(psubst(p, m) for p in v.pieces))
    if isinstance(v, SetV):
        return SetV(v.et, vsubst(v.chi, m), v.name)
    if isinstance(v, MapV):
        return MapV(v.kt, v.vt, vsubst(v.data, m), vsubst(v.dom, m), v.tidy)
    if isinstance(v, LogV):
        return LogV(vsubst(v.base, m), tuple(esubst(e, m) for e in v.ev))
    if isinstance(v, Ptr):
        return Ptr(v.cell, pathsubst(v.path, m))
    if isinstance(v, LV):
        return LV(v.cell, pathsubst(v.path, m))
    if isinstance(v, PIte):
        return PIte(t.subst(v.c, m), vsubst(v.a, m), vsubst(v.b, m))
    if isinstance(v, It):
        return It(v.kind, vsubst(v.c, m) if not isinstance(v.c, str) else v.c,
                  vsubst(v.x, m) if v.x is not None else None, v.ck)
    if isinstance(v, Obj):
        return Obj(v.cls, t.subst(v.term, m), {k: vsubst(x, m) for k, x in v.f.items()})
    return v


def psubst(p, m):
    if p[0] == 'el':
        return ('el', t.subst(p[1], m), vsubst(p[2], m))
    if p[0] == 'gall':
        return ('gall', t.subst(p[1], m), vsubst(p[2], m))
    return ('sub', p[1], t.subst(p[2], m), tuple(psubst(q, m) for q in p[3]))


def pathsubst(path, m):
    return tuple(p if isinstance(p, str) else tuple(t.subst(x, m) for x in p) for p in path)


def esubst(e, m):
    if e[0] == 'w':
        return ('w', pathsubst(e[1], m), t.subst(e[2], m), e[3], vsubst(e[4], m))
    return ('b', e[1], t.subst(e[2], m), tuple(esubst(x, m) for x in e[3]))


def vterms(v, seen=None):
    """All terms occurring in a value (lazy parts excluded)."""
    if isinstance(v, T):
        yield v
    elif isinstance(v, Cx):
        yield v.re
        yield v.im
    elif isinstance(v, Tup):
        for x in v.items:
            yield from vterms(x)
    elif isinstance(v, Struct):
        for x in v.f.values():
            yield from vterms(x)
    elif isinstance(v, Arr):
        for x in v.items.values():
            yield from vterms(x)
    elif isinstance(v, Vec):
        if v.size is not None:
            yield v.size
        if v.data is not None:
            yield from vterms(v.data)
        for p in v.pieces or ():
            yield from pterms(p)
    elif isinstance(v, SetV):
        yield from vterms(v.chi)
    elif isinstance(v, MapV):
        yield from vterms(v.data)
        yield from vterms(v.dom)
    elif isinstance(v, LogV):
        yield from vterms(v.base)
        for e in v.ev:
            yield from eterms(e)
    elif isinstance(v, Hav):
        yield v.tok
    elif isinstance(v, (Ptr, LV)):
        for p in v.path:
            if not isinstance(p, str):
                yield from p
    elif isinstance(v, PIte):
        yield v.c
        yield from vterms(v.a)
        yield from vterms(v.b)
    elif isinstance(v, It):
        if v.x is not None:
            yield from vterms(v.x)
        if not isinstance(v.c, str):
            yield from vterms(v.c)
    elif isinstance(v, Obj):
        yield v.term
        for x in v.f.values():
            yield from vterms(x)


def pterms(p):
    if p[0] in ('el', 'gall'):
        yield p[1]
        yield from vterms(p[2])
    else:
        yield p[2]
        for q in p[3]:
            yield from pterms(q)


def eterms(e):
    if e[0] == 'w':
        for p in e[1]:
            if not isinstance(p, str):
                yield from p
        yield e[2]
        yield from vterms(e[4])
    else:
        yield e[2]
        for x in e[3]:
            yield from eterms(x)
