"""Inferred inductive summaries of loops with symbolic bounds.

One generic iteration is executed from an arbitrary loop state: every location
an iteration can change starts with an unconstrained symbol, the loop binder
ranges over the iteration domain.  A location is then summarised as

  * a closed form          (induction variable: constant step)
  * a sum over the domain  (accumulation whose increment does not depend on it)
  * a flag                 (existential over the domain)
  * its last value         (overwritten in every iteration before being read)
  * a block of writes      (container: the write events of one iteration, for
                            every iteration of the domain)
  * pushes                 (sequence: the pieces appended by every iteration)

and otherwise becomes unknown (a fresh symbol).  Reads of a container that the
loop also writes are resolved to the value before the loop only when no other
iteration can write the location read; otherwise they are unknown."""
from . import terms as t, smt, access
from .terms import T
from .vals import *
from .access import *

MARK = 'mark'


def St(*a, **k):
    from .exec import St as S
    return S(*a, **k)


# ------------------------------------------------------------------ term maps
class Rewriter:
    """Applies f to application terms bottom-up (memoised)."""

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, x):
        memo = self.memo
        r = memo.get(x.id)
        if r is not None:
            return r
        st = [x]
        while st:
            y = st[-1]
            if y.id in memo:
                st.pop()
                continue
            todo = [a for a in y.args if a.id not in memo]
            if todo:
                st.extend(todo)
                continue
            args = [memo[a.id] for a in y.args]
            z = y if all(p is q for p, q in zip(args, y.args)) else t.rebuild(y, args)
            w = self.f(z) if z.op in ('app', 'v') else None
            memo[y.id] = w if w is not None else z
            st.pop()
        return memo[x.id]


def vmap(v, f):
    """Rewrite all terms of a value, lazily for lazy parts."""
    if isinstance(v, T):
        return f(v)
    if isinstance(v, Cx):
        return Cx(f(v.re), f(v.im))
    if isinstance(v, Tup):
        return Tup([vmap(x, f) for x in v.items])
    if isinstance(v, Struct):
        lz = v.lazy
        return Struct(v.cls, {k: vmap(x, f) for k, x in v.f.items()}, (lambda k: vmap(lz(k), f)) if lz else None)
    if isinstance(v, Arr):
        b = v.base
        return Arr(v.et, lambda k: vmap(b(k), f), {k: vmap(x, f) for k, x in v.items.items()}, v.name)
    if isinstance(v, Vec):
        return Vec(v.et, f(v.size) if v.size is not None else None, vmap(v.data, f) if v.data is not None else None,
                   None if v.pieces is None else tuple(pmap(p, f) for p in v.pieces))
    if isinstance(v, SetV):
        return SetV(v.et, vmap(v.chi, f), v.name)
    if isinstance(v, MapV):
        return MapV(v.kt, v.vt, vmap(v.data, f), vmap(v.dom, f), v.tidy)
    if isinstance(v, LogV):
        return LogV(vmap(v.base, f), tuple(emap(e, f) for e in v.ev))
    if isinstance(v, Hav):
        return Arr(None, lambda k: vmap(vget(v, (k,)), f))
    if isinstance(v, (Ptr, LV)):
        return type(v)(v.cell, tuple(p if isinstance(p, str) else tuple(f(x) for x in p) for p in v.path))
    if isinstance(v, PIte):
        return PIte(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, It):
        if v.x is None:
            return v
        r = It(v.kind, vmap(v.c, f) if isinstance(v.c, LV) else v.c, vmap(v.x, f), v.ck)
        return r
    if isinstance(v, Obj):
        return Obj(v.cls, f(v.term), {k: vmap(x, f) for k, x in v.f.items()})
    return v


def pmap(p, f):
    if p[0] in ('el', 'gall'):
        return (p[0], f(p[1]), vmap(p[2], f))
    if p[0] == 'sub':
        return ('sub', p[1], f(p[2]), tuple(pmap(q, f) for q in p[3]))
    return p


def emap(e, f):
    if e[0] == 'w':
        return ('w', tuple(p if isinstance(p, str) else tuple(f(x) for x in p) for p in e[1]), f(e[2]), e[3], vmap(e[4], f))
    return ('b', e[1], f(e[2]), tuple(emap(x, f) for x in e[3]))


# ------------------------------------------------------------------ leaves
def same(a, b):
    return a is b


def leaf_diffs(a, b, path=()):
    """Paths of the maximal units in which two values differ."""
    if a is b:
        return
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            yield from leaf_diffs(x, y, path + ((t.I(i),),))
        return
    if isinstance(a, Cx) and isinstance(b, Cx):
        if a.re is not b.re:
            yield path + ('re',)
        if a.im is not b.im:
            yield path + ('im',)
        return
    if isinstance(a, Struct) and isinstance(b, Struct):
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f:
                yield from leaf_diffs(a.f[k], b.f[k], path + (k,))
            elif k in b.f:
                yield from leaf_diffs(a.get(k), b.f[k], path + (k,))
        return
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.term is not b.term:
            yield path
            return
        for k in set(a.f) | set(b.f):
            if k in a.f and k in b.f:
                yield from leaf_diffs(a.f[k], b.f[k], path + (k,))
            else:
                yield path
                return
        return
    if isinstance(a, T) and isinstance(b, T):
        yield path
        return
    if isinstance(a, SetV) and isinstance(b, SetV):
        if a.chi is not b.chi:
            yield path
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.data is not b.data or a.dom is not b.dom:
            yield path
        return
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.size is b.size and a.data is b.data and a.pieces is b.pieces:
            return
        if a.pieces is not None and b.pieces is not None and len(a.pieces) == len(b.pieces) and all(access._samepiece(p, q) for p, q in zip(a.pieces, b.pieces)):
            return
        if access.has_back(a) and access.has_back(b) and len(a.pieces) == len(b.pieces) and all(p is q or access._samepiece(p, q) for p, q in zip(a.pieces[:-1], b.pieces)):
            yield from leaf_diffs(access.back(a), access.back(b), path + ('#back',))
            return
        yield path
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
        return
    yield path


def rawget(v, path):
    for p in path:
        if isinstance(v, Tup):
            v = v.items[int(p[0].val)]
        elif isinstance(v, Struct):
            v = v.get(p)
        elif isinstance(v, Obj):
            v = v.f[p]
        elif isinstance(v, Cx):
            v = v.re if p == 're' else v.im
        elif p == '#back':
            v = access.back(v)
        else:
            raise Unsupported('leaf path')
    return v


def rawset(v, path, x):
    if not path:
        return x
    p = path[0]
    if isinstance(v, Tup):
        it = list(v.items)
        it[int(p[0].val)] = rawset(it[int(p[0].val)], path[1:], x)
        return Tup(it)
    if isinstance(v, Struct):
        f = dict(v.f)
        f[p] = rawset(v.get(p), path[1:], x)
        return Struct(v.cls, f, v.lazy)
    if isinstance(v, Obj):
        f = dict(v.f)
        f[p] = rawset(v.f[p], path[1:], x)
        return Obj(v.cls, v.term, f)
    if isinstance(v, Cx):
        return Cx(x, v.im) if p == 're' else Cx(v.re, x)
    if p == '#back':
        return Vec(v.et, None, None, v.pieces[:-1] + (('el', t.TRUE, rawset(access.back(v), path[1:], x)),))
    raise Unsupported('leaf path')


def pkey(cell, path):
    return (cell, tuple(p if isinstance(p, str) else tuple(int(x.val) for x in p) for p in path))


class Leaf:
    __slots__ = ('cell', 'path', 'v0', 'kind', 'gen', 'sym', 'tok', 'step', 'inv')

    def __init__(self, cell, path, v0):
        self.cell, self.path, self.v0 = cell, path, v0
        self.step = None
        self.inv = None             # loop invariant given by the contract
        self.sym = self.tok = None


def make_generic(lf, shape2=None):
    """A generic (arbitrary) value for a leaf."""
    v = lf.v0
    if isinstance(v, T):
        lf.kind = 'T'
        lf.sym = t.fresh('lp', v.sort)
        lf.gen = lf.sym
        return
    if isinstance(v, Obj):
        lf.kind = 'O'
        if v.cls.startswith('FEValues'):
            # only reinit changes it: what it was built from stays
            base = v.term
            while base.op == 'app' and base.val == 'FEValues.at':
                base = base.args[0]
            lf.sym = t.fresh('lp', 'I')
            lf.gen = Obj(v.cls, t.app('FEValues.at', (base, lf.sym), v.term.sort), {})
            return
        lf.sym = t.fresh('lp', v.term.sort)
        lf.gen = Obj(v.cls, lf.sym, {})
        return
    if isinstance(v, It) and isinstance(v.x, T) and v.kind == 'pos':
        lf.kind = 'P'
        lf.sym = t.fresh('lp', v.x.sort)
        lf.gen = It('pos', v.c, lf.sym, v.ck)
        return
    lf.tok = t.fresh('tok', 'Tok')
    if isinstance(v, SetV):
        lf.kind = 'S'
        lf.gen = SetV(v.et, Hav(v.chi, lf.tok), v.name)
        return
    if isinstance(v, MapV):
        lf.kind = 'M'
        tk2 = lf.tok
        lf.gen = MapV(v.kt, v.vt, Hav(v.data, lf.tok), Hav(v.dom, t.var(lf.tok.val + '.dom', 'Tok')), v.tidy)
        return
    if isinstance(v, Vec):
        if shape2 == 'push':
            lf.kind = 'Q'
            lf.gen = Vec(v.et, None, None, ((MARK, lf.tok),))
        else:
            lf.kind = 'V'
            lf.gen = Vec(v.et, v.size, Hav(v.data, lf.tok), v.pieces)
        return
    if isinstance(v, (Arr, LogV, Hav)):
        lf.kind = 'A'
        lf.gen = Hav(v, lf.tok)
        return
    # pointers, lambdas ...: only allowed when overwritten before being read
    lf.kind = 'X'
    lf.gen = Poison(type(v).__name__)


class Poison:
    """Value of a location that must not be read."""

    def __init__(self, what):
        self.what = what


# ------------------------------------------------------------------ driver
class Domain:
    """Iteration domain: binder, guard; ordered sequences know 'before'."""

    def __init__(self, b, guard, first=None, last=None, before=None):
        self.b, self.guard, self.first, self.last, self.before = b, guard, first, last, before
        self.ordered = False        # elements come in increasing order


_cache = {}


def comprehend(ex, node, st, fr, dom, run, setup=None, loopvars=None):
    """Summarise 'for b in dom: run(s)'.

    run(s) executes one iteration on s and returns the list of (state, flow).
    loopvars: leaves whose value at the start of iteration b is known:
    {pkey: (cell, path, value at b)}; they are left out of the summary."""
    ex.summaries += 1
    npc = len(st.pc)
    loopvars = loopvars or {}
    known = _cache.get(id(node), {})
    leaves = {}
    for k, sh in known.items():
        cell, path = sh[0], sh[1]
        if cell in st.store or cell[0] == '*':
            try:
                v0 = rawget(ex.load_cell(st, cell), path)
            except (Unsupported, KeyError, IndexError, AttributeError):
                continue
            lf = Leaf(cell, path, v0)
            try:
                make_generic(lf, sh[2])
            except Unsupported:
                continue
            leaves[k] = lf
    for rnd in range(12):
        P = St(dict(st.store), st.pc)
        P.assume(dom.guard)
        for k, lf in leaves.items():
            if k in loopvars:
                continue
            if lf.inv is not None:
                val = lf.inv.before(t.sub(dom.b, dom.first))
            elif lf.step is not None:
                val = stepval(lf, dom)
            else:
                val = lf.gen
            P.store[lf.cell] = rawset(P.store[lf.cell] if lf.cell in P.store else ex.load_cell(P, lf.cell), lf.path, val)
        for cell, path, val in loopvars.values():
            P.store[cell] = rawset(P.store[cell], path, val)
        base = dict(P.store)
        nob, nden = len(ex.obls), len(ex.denoms)
        streams = ex.streams
        outs = run(P)
        streams = ex.streams - streams
        cont = [s for s, f in outs if f is None or f[0] == 'continue']
        bad = [f for s, f in outs if f is not None and f[0] not in ('continue', 'throw')]
        if bad and all(f[0] in ('break', 'ret') for f in bad) and not leaves:
            r = search(ex, node, st, dom, P, base, outs)
            if r is not None:
                return r
        if bad:
            raise Unsupported('loop left by %s (line %s)' % (bad[0][0], node.a.get('line')))
        if not cont:
            raise Unsupported('loop body never completes')
        E = cont[0] if len(cont) == 1 else ex.merge_many(P, cont)
        # lazily loaded cells: load them before the loop
        again = False
        for c, v in E.store.items():
            if c not in base:
                if c[0] in ('*', 'G', 'S'):
                    if c not in st.store:
                        if c[0] == '*':
                            ex.load_cell(st, c)
                        elif isinstance(v, T) and v.op == 'c':
                            st.store[c] = v
                        else:
                            # first value seen becomes the pre-state (globals, statics)
                            st.store[c] = v
                        again = True
        new = {}
        for c, v in E.store.items():
            if c not in base or base[c] is v:
                continue
            for path in leaf_diffs(base[c], v):
                k = pkey(c, path)
                if k in loopvars:
                    continue
                # a leaf inside / above an already known one
                if k in leaves:
                    continue
                new[k] = (c, path)
        # a unit that turned out to be pushed to
        repush = []
        for k, lf in leaves.items():
            if lf.kind == 'V':
                e = rawget(E.store[lf.cell], lf.path)
                if isinstance(e, Vec) and (e.pieces is not None) != (lf.v0.pieces is not None):
                    repush.append(k)
        if repush:
            for k in repush:
                lf = leaves[k]
                make_generic(lf, 'push')
            again = True
        for k, (c, path) in new.items():
            # drop leaves below the new one
            for k2 in [k2 for k2 in leaves if k2[0] == c and k2[1][:len(k[1])] == k[1]]:
                del leaves[k2]
            up = [k2 for k2 in leaves if k2[0] == c and k[1][:len(k2[1])] == k2[1]]
            if '#back' in path and up and all('#back' not in leaves[k2].path and access.has_back(leaves[k2].v0) for k2 in up):
                for k2 in up:       # (only its last element is changed)
                    del leaves[k2]
                up = []
            if up:
                continue
            lf = Leaf(c, path, rawget(st.store[c], path))
            e = rawget(E.store[c], path)
            sh = None
            if isinstance(lf.v0, Vec) and isinstance(e, Vec) and (e.pieces is not None or (e.size is not lf.v0.size)):
                sh = 'push'
            make_generic(lf, sh)
            leaves[k] = lf
            again = True
        # invariants given by the contract
        for rule in ex.loop_rules:
            if dom.first is not None and not new and not again:
                for k, f in (rule(ex, st, dom, leaves, streams) or {}).items():
                    if leaves[k].inv is None:
                        leaves[k].inv = f
                        again = True
        # induction variables
        for k, lf in leaves.items():
            if lf.inv is None and lf.kind in ('T', 'P') and lf.step is None and lf.gen is not None and not new and not again:
                e = rawget(E.store[lf.cell], lf.path)
                x = e.x if isinstance(e, It) else e
                if isinstance(x, T) and x.sort in ('I',) and lf.sym is not None:
                    d = t.sub(x, lf.sym)
                    if d.op == 'c' and d.val != 0 and dom.first is not None:
                        lf.step = d
                        again = True
        if not again and not new:
            break
        del ex.obls[nob:]
        del ex.denoms[nden:]
    else:
        raise Unsupported('loop state does not stabilise (line %s)' % node.a.get('line'))
    _cache[id(node)] = {k: (lf.cell, lf.path, 'push' if lf.kind == 'Q' else None) for k, lf in leaves.items()}
    # ---------------------------------------------------------------- classify
    ends = {k: rawget(E.store[lf.cell], lf.path) for k, lf in leaves.items()}
    for k, lf in leaves.items():
        if isinstance(lf.v0, MapV) and lf.v0.tidy and not (isinstance(ends[k], MapV) and ends[k].tidy):
            raise Unsupported('a map whose absent entries are unknown')
    for k, lf in leaves.items():
        if lf.inv is not None:
            pos = t.sub(dom.b, dom.first)
            for pc, l, x, y in [(st.pc, 'initially', lf.v0, lf.inv.before(t.I(0)))] + [(E.pc, 'by every iteration', ends[k], lf.inv.after(pos))]:
                eqs = list(value_eqs(ex, x, y))
                if not eqs:
                    raise Unsupported('loop invariant without observations')
                for what, g, x1, y1 in eqs:
                    ex.oblige('loop invariant established %s: %s%s' % (l, lf.inv.name, what), St({}, tuple(pc) + g), t.eq(t.toR(x1), t.toR(y1)) if x1.sort in 'IR' else t.eq(x1, y1))
    R = resolver(ex, st, dom, {k: lf for k, lf in leaves.items() if lf.inv is None}, ends)
    post = St(dict(st.store), st.pc)
    ne = nonempty(dom)
    for k, lf in leaves.items():
        if lf.inv is not None:
            n = count(dom)
            if n is None:
                raise Unsupported('loop invariant for a loop of unknown length')
            v = lf.inv.before(n)
        elif lf.step is not None:
            n = count(dom)
            v = t.add(lf.v0.x if isinstance(lf.v0, It) else lf.v0, t.mul(lf.step, n)) if n is not None else t.fresh('unk', 'I')
            v = It('pos', lf.v0.c, v, lf.v0.ck) if isinstance(lf.v0, It) else v
        else:
            v = final_value(ex, st, dom, lf, ends[k], R, ne, leaves)
        post.store[lf.cell] = rawset(post.store[lf.cell], lf.path, v)
    # keep obligations of the generic iteration, with reads resolved
    for o in ex.obls[nob:]:
        o.pc = tuple(R(c) for c in o.pc)
        o.cond = R(o.cond)
    ex.last_loop = (leaves, ends, R)
    return [(post, None)]


class Inv:
    """A loop invariant: the value of a location before iteration 0, 1, 2, ...
    after(i) is before(i + 1), possibly with a definition unfolded."""

    def __init__(self, name, before, after=None):
        self.name, self.before = name, before
        self.after = after or (lambda i: before(t.add(i, t.I(1))))


def value_eqs(ex, x, y, what='', g=()):
    """(which part, conditions, x part, y part) that make two values equal."""
    if isinstance(x, T):
        yield what, g, x, y
    elif isinstance(x, Tup):
        for i, (p, q) in enumerate(zip(x.items, y.items)):
            yield from value_eqs(ex, p, q, '%s(%d)' % (what, i), g)
    elif isinstance(x, Struct):
        for f in ex.prog.records[x.cls]:
            yield from value_eqs(ex, x.get(f), y.get(f), what + '.' + f, g)
    elif isinstance(x, Vec):
        sx, sy = vget(x, ('#size',)), vget(y, ('#size',))
        yield what + '.size', g, sx, sy
        i = t.fresh('i', 'I')
        yield from value_eqs(ex, vget(x, ((i,),)), vget(y, ((i,),)), what + '[]', g + (t.le(t.I(0), i), t.lt(i, sy)))
    else:
        raise Unsupported('loop invariant for a %s' % type(x).__name__)


def search(ex, node, st, dom, P, base, outs):
    """A loop that changes nothing until it is left: the effect of the first
    iteration that leaves it, if there is one."""
    npc = len(P.pc)
    changed = lambda s: [(c, p) for c, v in s.store.items() if c in st.store and base.get(c) is not v for p in leaf_diffs(base[c], v)]
    stay = [s for s, f in outs if f is None or f[0] == 'continue']
    if any(changed(s) for s in stay):
        return None
    # paths may share conditions only through the path condition suffix
    leave = [(s, f, t.and_(*s.pc[npc:])) for s, f in outs if f is not None and f[0] in ('break', 'ret')]
    B = t.or_(*[c for _, _, c in leave])
    E0 = t.exists(dom.b, t.and_(dom.guard, B))
    sk = None
    res, groups = [], {}
    for s, f, c in leave:
        groups.setdefault(f[0] if f[0] == 'break' else ('ret', id(f)), []).append((s, f, c))
    if len([1 for f in groups if f != 'break']) > 1:
        return None
    fv = [v for v in t.free_vars(t.and_(dom.guard, B)) if v is not dom.b and '#' in str(v.val)]
    ex.nsk = getattr(ex, 'nsk', 0) + 1
    first = t.app('first!%d' % ex.nsk, tuple(sorted(fv, key=lambda v: v.id)), dom.b.sort)
    used = [False]
    if dom.b.sort == 'I' and dom.first is not None and dom.first.op == 'c' and dom.first.val >= 0:
        t.COUNTERS.add(first.val)
    if dom.b.sort == 'I' and not any(v.sort == 'Tok' for v in fv):
        inst = lambda x: t.subst(x, {dom.b: first})
        here = t.and_(dom.guard, B)
        facts_ = t.and_(inst(dom.guard), inst(B))
        if dom.ordered:
            facts_ = t.and_(facts_, t.forall(dom.b, t.implies(here, t.le(first, dom.b))))
        smt.define(first.val, first.args, t.implies(E0, facts_))

    def back(s, f):
        z = St(dict(st.store), st.pc)
        for c, v in s.store.items():
            if c in st.store and base.get(c) is v:
                continue
            if c not in st.store and c[0] in ('L', 't'):
                continue
            z.store[c] = v if not depends_on(v, dom.b) else vsubst(v, {dom.b: first})
            used[0] |= z.store[c] is not v
        z.store.update({c: v for c, v in s.store.items() if c[0] in ('h', 't') and c not in st.store})
        return z
    facts = lambda: [t.subst(dom.guard, {dom.b: first}), t.subst(B, {dom.b: first})] if used[0] else []
    nots = St(dict(st.store), st.pc)
    nots.assume(t.not_(E0))
    out = [(nots, None)]
    for k, g in groups.items():
        ss = [(back(s, f), f, c) for s, f, c in g]
        z = ss[-1][0]
        for s2, f2, c2 in reversed(ss[:-1]):
            z = ex.merge(t.subst(c2, {dom.b: first}) if dom.b in t.free_vars(c2) else c2, s2, z, st.pc)
            used[0] |= dom.b in t.free_vars(c2)
        z = St(z.store, st.pc)
        Ek = E0 if len(groups) == 1 else t.exists(dom.b, t.and_(dom.guard, t.or_(*[c for _, _, c in g])))
        if len(groups) > 1:
            return None
        z.assume(E0)
        for x in facts():
            z.assume(x)
        f = g[0][1]
        if k != 'break':
            if depends_on(f[1], dom.b) if len(f) > 1 and f[1] is not None else False:
                f = (f[0], vsubst(f[1], {dom.b: first})) + tuple(f[2:])
            out.append((z, f))
        else:
            out.append((z, None))
    if len(out) == 2 and out[1][1] is None:
        m = ex.merge(E0, out[1][0], nots, st.pc)
        m = St(m.store, st.pc)
        if used[0]:
            m.assume(t.or_(t.not_(E0), t.and_(*facts())))
        return [(m, None)]
    return out


def depends_on(v, b):
    if isinstance(v, T):
        return b in t.free_vars(v)
    try:
        if any(b in t.free_vars(x) for x in vterms(v)):
            return True
    except Unsupported:
        return True
    # lazily defined parts may mention it
    return isinstance(v, (Arr, Vec, SetV, MapV, LogV, Hav, Struct))


def stepval(lf, dom):
    """Value of an induction variable at iteration b."""
    n = t.sub(dom.b, dom.first)
    x0 = lf.v0.x if isinstance(lf.v0, It) else lf.v0
    x = t.add(x0, t.mul(lf.step, n))
    return It('pos', lf.v0.c, x, lf.v0.ck) if isinstance(lf.v0, It) else x


def count(dom):
    if dom.first is None or dom.last is None:
        return None
    n = t.add(t.sub(dom.last, dom.first), t.I(1))
    return t.ite(t.lt(n, t.I(0)), t.I(0), n) if n.op != 'c' else t.tmax(n, t.I(0))


def nonempty(dom):
    if dom.first is not None and dom.last is not None:
        return t.le(dom.first, dom.last)
    return t.exists(dom.b, dom.guard)


def writes_of(v, guard=t.TRUE, binders=()):
    """(path, guard, op, val, binders) write events of the end value of a container."""
    if isinstance(v, LogV):
        yield from ev_writes(v.ev, guard, binders)
        if isinstance(v.base, LogV):
            yield from writes_of(v.base, guard, binders)


def ev_writes(evs, guard, binders):
    for e in evs:
        if e[0] == 'w':
            yield e[1], t.and_(guard, e[2]), e[3], e[4], binders
        else:
            yield from ev_writes(e[3], t.and_(guard, e[2]), binders + (e[1],))


def logs_in(lf, e):
    """The logged containers of the end value of a leaf: [(token var, prefix, log)]."""
    if lf.kind == 'S':
        return [(lf.tok, e.chi if isinstance(e, SetV) else None)]
    if lf.kind == 'M':
        return [(lf.tok, e.data), (t.var(lf.tok.val + '.dom', 'Tok'), e.dom)]
    if lf.kind == 'V':
        return [(lf.tok, e.data if isinstance(e, Vec) and e.pieces is None else None)]
    if lf.kind == 'A':
        return [(lf.tok, e)]
    return []


def resolver(ex, st, dom, leaves, ends):
    """Rewrites symbols of the generic loop state into values before the loop."""
    syms = {}
    toks = {}
    for k, lf in leaves.items():
        if lf.sym is not None and lf.step is None:
            syms[lf.sym] = (k, lf)
        if lf.tok is not None and lf.kind != 'Q':
            for tk, log in logs_in(lf, ends[k]):
                toks[tk] = (k, lf, log)
    prefix = {}

    def pre_read(lf, tk, name, keys):
        """Value before the loop of the location a token symbol stands for."""
        # re-read the pre-loop container along the path encoded in the name
        path = decode(name[len(tk.val):], keys)
        v = lf.v0
        if lf.kind == 'S':
            v = v.chi
        elif lf.kind == 'M':
            v = v.dom if tk.val.endswith('.dom') else v.data
        elif lf.kind == 'V':
            v = v.data
        return vget(v, path)

    def on(x):
        if x.op == 'v':
            s = syms.get(x)
            if s is None:
                return None
            r = prefix.get(x)
            if r is None:
                prefix[x] = r = start_value(s[1], ends[s[0]])
            return r
        tk = next((y for y in reversed(x.args) if y.sort == 'Tok' and y in toks), None)
        if x.op != 'app' or tk is None:
            return None
        k, lf, log = toks[tk]
        keys = tuple(y for y in x.args if y is not tk)
        try:
            path = decode(x.val[len(tk.val):], keys)
        except Unsupported:
            return unknown(x)
        if clobbered(log, path):
            return unknown(x)
        try:
            v = pre_read(lf, tk, x.val, keys)
        except Unsupported:
            return unknown(x)
        if isinstance(v, T):
            return v
        return unknown(x)

    def unknown(x):
        return t.app('unk!' + x.val, tuple(y for y in x.args if y.sort != 'Tok' or y not in toks) + (dom.b,), x.sort)

    def start_value(lf, e):
        """Value of a scalar leaf at the start of iteration b."""
        v0 = lf.v0.term if isinstance(lf.v0, Obj) else lf.v0.x if isinstance(lf.v0, It) else lf.v0
        if isinstance(e, T) and e.sort in 'IR' and dom.before is not None:
            d = gain(e, lf.sym)
            if not depends(d, syms, toks):
                j = t.fresh('j', dom.b.sort)
                return t.add(v0, t.sum_(j, t.and_(t.subst(dom.guard, {dom.b: j}), dom.before(j, dom.b)), t.subst(d, {dom.b: j})))
        return t.app('unk!%s' % lf.sym.val, (dom.b,), lf.sym.sort)

    def clobbered(log, path):
        """Can an earlier iteration write the location read in iteration b?"""
        if log is None:
            return True
        if isinstance(log, Hav):
            return False
        if not isinstance(log, LogV) or not isinstance(log.base, Hav):
            return True
        j = t.fresh('j', dom.b.sort)
        m = {dom.b: j}
        for wpath, g, op, val, bs in writes_of(log):
            wp = pathsubst(wpath, m)
            c = rel(path, wp)
            if c is None:
                continue
            cond = [t.subst(dom.guard, m), dom.guard, c, t.subst(g, m), t.not_(t.eq(j, dom.b))]
            if dom.before is not None:
                cond.append(dom.before(j, dom.b))
            if smt.check_sat(list(st.pc) + cond, 3000) != 'unsat':
                return True
        return False
    rw = Rewriter(on)
    # resolving may itself introduce symbols that need no further rewriting
    rw.syms, rw.toks = syms, toks
    return rw


def gain(e, x):
    """e - x, also where e is x on one branch"""
    if e.op == 'ite':
        return t.ite(e.args[0], gain(e.args[1], x), gain(e.args[2], x))
    return t.sub(e, x)


def depends(x, syms, toks):
    for y in t.subterms(x):
        if y in syms or (y.op == 'v' and y in toks):
            return True
    return False


def decode(name, keys):
    """Path encoded by access.vget on a Hav: '[]', '.f', '.3' ... with keys."""
    import re
    path = []
    ks = list(keys)
    pos = 0
    for m in re.finditer(r'\[\]|\.[A-Za-z_#]\w*|\.\d+', name):
        if m.start() != pos:
            raise Unsupported('location name')
        pos = m.end()
        s = m.group(0)
        if s == '[]':
            if not ks:
                raise Unsupported('location name')
            path.append(None)
        elif s[1:].isdigit():
            path.append((t.I(int(s[1:])),))
        else:
            path.append({'.has': None, '.size': '#size'}.get(s, s[1:]) if s not in ('.has',) else None)
    if pos != len(name):
        raise Unsupported('location name')
    nb = sum(1 for p in path if p is None)
    if nb == 0:
        if ks:
            raise Unsupported('location name')
        return tuple(path)
    if nb == len(ks):
        it = iter(ks)
        return tuple((next(it),) if p is None else p for p in path)
    if nb == 1:
        return tuple(tuple(ks) if p is None else p for p in path)
    raise Unsupported('location name')


def final_value(ex, st, dom, lf, e, R, ne, leaves):
    own = lf.sym
    if lf.kind in ('T', 'O', 'P'):
        if lf.kind == 'O':
            v0, x = lf.v0.term, e.term if isinstance(e, Obj) else None
        elif lf.kind == 'P':
            v0, x = lf.v0.x, e.x if isinstance(e, It) else None
        else:
            v0, x = lf.v0, e if isinstance(e, T) else None

        def back(y):
            return Obj(lf.v0.cls, y, {}) if lf.kind == 'O' else It('pos', lf.v0.c, y, lf.v0.ck) if lf.kind == 'P' else y
        if x is None:
            return back(t.fresh('unk', v0.sort))
        if own not in t.free_vars(x):
            y = R(x)
            if dom.b not in t.free_vars(y):
                return back(t.ite(ne, y, v0))
            if dom.last is not None and dom.first is not None:
                return back(t.ite(ne, t.subst(y, {dom.b: dom.last}), v0))
            return back(t.fresh('unk', v0.sort))
        if x.sort in ('I', 'R'):
            d = t.sub(x, own)
            d = push_ite(x, own) if own in t.free_vars(d) else d
            if d is not None and own not in t.free_vars(d):
                return back(t.add(v0, t.sum_(dom.b, dom.guard, R(d))))
        # flag
        g = flag(x, own)
        if g is not None:
            c, val = g
            c = R(c)
            val = R(val)
            if dom.b not in t.free_vars(val):
                return back(t.ite(t.exists(dom.b, t.and_(dom.guard, c)), val, v0))
        if lf.kind == 'T' and x.sort in ('I', 'R'):
            for sign in (1, -1):
                m = extremum(ex, x, own, sign)
                if m is not None:
                    els = [((dom.b,) + bs, R(t.and_(dom.guard, q)), R(y)) for bs, q, y in m]
                    fv = tuple(sorted(set().union(*[t.free_vars(z) - set(bs) for bs, q, y in els for z in (q, y)]), key=lambda z: z.id))
                    name = 'extremum!%d' % len(ex.folds)
                    ex.folds[name] = (sign, els, fv)
                    return t.app(name, (v0,) + fv, x.sort)
        return back(t.fresh('unk', v0.sort))
    if lf.kind == 'X':
        if isinstance(e, Poison):
            raise Unsupported('conditionally assigned pointer in a loop')
        return e if not any(dom.b in t.free_vars(y) for y in vterms(e)) else Poison('loop-dependent pointer')
    if lf.kind == 'Q':
        if not isinstance(e, Vec):
            raise Unsupported('sequence replaced in a loop')
        if e.pieces is None or not e.pieces or e.pieces[0] != (MARK, lf.tok) and e.pieces[0][0] != MARK:
            # rebuilt in every iteration
            if has_mark(e, lf.tok):
                raise Unsupported('sequence rearranged in a loop')
            e2 = vmap(e, R)
            if dom.last is not None:
                z = vsubst(e2, {dom.b: dom.last})
                return vite(ne, z, lf.v0)
            return Unk(e2)
        new = tuple(pmap(p, R) for p in e.pieces[1:])
        if any(p[0] == MARK for p in new):
            raise Unsupported('sequence rearranged in a loop')
        if not new:
            return lf.v0
        return Vec(lf.v0.et, None, None, pieces_of(lf.v0) + (('sub', dom.b, dom.guard, new),))
    parts = []
    for (tk, log), old in zip(logs_in(lf, e), {'S': lambda: [lf.v0.chi], 'M': lambda: [lf.v0.data, lf.v0.dom],
                                              'V': lambda: [lf.v0.data], 'A': lambda: [lf.v0]}[lf.kind]()):
        parts.append(final_log(dom, tk, log, old, R, ne))
    if lf.kind == 'S':
        return SetV(lf.v0.et, parts[0], lf.v0.name)
    if lf.kind == 'M':
        return MapV(lf.v0.kt, lf.v0.vt, parts[0], parts[1], lf.v0.tidy)
    if lf.kind == 'V':
        sz = e.size if isinstance(e, Vec) else None
        if sz is not lf.v0.size:
            sz = R(sz)
            sz = t.ite(ne, t.subst(sz, {dom.b: dom.last}), lf.v0.size) if dom.last is not None else t.fresh('unk.size', 'I')
        return Vec(lf.v0.et, sz, parts[0])
    return parts[0]


class Unk:
    def __init__(self, v):
        self.v = v


def has_mark(e, tok):
    if e.pieces is None:
        return False
    return any(p[0] == MARK for p in e.pieces)


def final_log(dom, tk, log, old, R, ne):
    if isinstance(log, Hav):
        return old
    if isinstance(log, LogV) and isinstance(log.base, Hav) and log.base.tok is tk:
        evs = tuple(emap(e, R) for e in log.ev)
        return append_events(old, (('b', dom.b, dom.guard, evs),))
    if log is None:
        raise Unsupported('container replaced in a loop')
    # overwritten as a whole in every iteration
    z = vmap(log, R)
    if dom.last is not None:
        z = vsubst(z, {dom.b: dom.last})
        return vite(ne, z, old)
    u = t.fresh('unk', 'Tok')
    return Hav(old, u)


def elements(ex, x):
    _, els, fv = ex.folds[x.val]
    m = {v: a for v, a in zip(fv, x.args[1:]) if v is not a}
    return [(bs, t.subst(q, m), t.subst(y, m)) for bs, q, y in els]


def extremum(ex, x, own, sign):
    """x >= own, and x >= y for the y found in x, as [(binders, guard, y)]; <= for sign -1."""
    if x is own:
        return []
    above = lambda a, b: t.le(b, a) if sign > 0 else t.le(a, b)
    if x.op == 'app' and x.val in ex.folds and ex.folds[x.val][0] == sign:
        m = extremum(ex, x.args[0], own, sign)
        return None if m is None else m + elements(ex, x)
    if x.op == 'ite':
        a, b = x.args[1:]
        if smt.check_sat([t.not_(t.and_(above(x, a), above(x, b)))], 2000) != 'unsat':
            return None
        r = []
        for y in (a, b):
            if own in t.free_vars(y):
                m = extremum(ex, y, own, sign)
                if m is None:
                    return None
                r += m
            else:
                r.append(((), t.TRUE, y))
        return r if any(own in t.free_vars(y) for y in (a, b)) else None
    return None


def dominated(ex, x, pick):
    """Facts about the extrema in x: every extremum bounds its start and, for
    each of its elements, the instances of the binders that `pick` gives."""
    facts, done, todo = [], set(), [x]
    while todo:
        for y in t.subterms(todo.pop()):
            if y.op == 'app' and y.val in ex.folds and y.id not in done:
                done.add(y.id)
                sign, els = ex.folds[y.val][0], elements(ex, y)
                above = lambda b: t.le(b, y) if sign > 0 else t.le(y, b)
                facts.append(above(y.args[0]))
                for bs, g, e in els:
                    for m in pick(bs):
                        facts.append(t.or_(t.not_(t.subst(g, m)), above(t.subst(e, m))))
    return tuple(facts)


def push_ite(x, own):
    """x as own + d where x is a tree of ites with leaves own + const."""
    if x is own:
        return t.const(0, x.sort)
    if x.op == 'ite':
        if own in t.free_vars(x.args[0]):
            return None
        a, b = push_ite(x.args[1], own), push_ite(x.args[2], own)
        return None if a is None or b is None else t.ite(x.args[0], a, b)
    d = t.sub(x, own)
    return d if own not in t.free_vars(d) else None


def flag(x, own):
    """(condition, value) with x = condition ? value : own."""
    if x.sort == 'B':
        if x.op == 'or' and any(a is own for a in x.args):
            rest = t.or_(*[a for a in x.args if a is not own])
            return (rest, t.TRUE) if own not in t.free_vars(rest) else None
        if x.op == 'and' and any(a is own for a in x.args):
            rest = t.and_(*[a for a in x.args if a is not own])
            return (t.not_(rest), t.FALSE) if own not in t.free_vars(rest) else None
        if own.sort == 'B':
            r0, r1 = (t.subst(x, {own: v}) for v in (t.FALSE, t.TRUE))
            if r1 is t.TRUE:
                return r0, t.TRUE
            if r0 is t.FALSE:
                return t.not_(r1), t.FALSE
    if x.op == 'ite':
        c, a, b = x.args
        if own in t.free_vars(c):
            return None
        if b is own and own not in t.free_vars(a):
            return c, a
        if a is own and own not in t.free_vars(b):
            return t.not_(c), b
        ra, rb = (flag(a, own) if a is not own else (t.FALSE, None)), (flag(b, own) if b is not own else (t.FALSE, None))
        if own not in t.free_vars(a):
            ra = (t.TRUE, a)
        if own not in t.free_vars(b):
            rb = (t.TRUE, b)
        if ra and rb:
            va, vb = ra[1], rb[1]
            if va is None or vb is None or va is vb:
                v = va if va is not None else vb
                return t.or_(t.and_(c, ra[0]), t.and_(t.not_(c), rb[0])), v
    return None


# ------------------------------------------------------------------ loop forms
def summarise(ex, n, st, fr, condf, incf, body, c0):
    """for / while loops whose bound is symbolic."""
    # find the loop variable: run one generic iteration on the entry state
    S = St(dict(st.store), st.pc)
    S.assume(c0)
    nob, nden = len(ex.obls), len(ex.denoms)
    base = dict(S.store)
    # only the increment and the condition determine the loop variable
    I0 = St(dict(st.store), st.pc)
    incf(I0)
    cand = []
    for c, v in I0.store.items():
        if c in st.store and st.store[c] is not v:
            for path in leaf_diffs(st.store[c], v):
                cand.append((c, path))
    del ex.obls[nob:]
    del ex.denoms[nden:]
    if not cand:
        return summarise_while(ex, n, st, fr, condf, incf, body, c0)
    if len(cand) > 1:
        # the one the condition looks at; the others are found as induction variables
        for i, (c, path) in enumerate(cand):
            v0 = rawget(st.store[c], path)
            b = t.fresh('i', 'I')
            G = St(dict(st.store), st.pc)
            try:
                G.store[c] = rawset(G.store[c], path, It('pos', v0.c, b, v0.ck) if isinstance(v0, It) and v0.kind == 'pos' else b if isinstance(v0, T) else v0)
                q = condf(G)
            except Unsupported:
                continue
            if isinstance(q, T) and b in t.free_vars(q):
                cand.insert(0, cand.pop(i))
                break
        del ex.obls[nob:]
        del ex.denoms[nden:]
    c, path = cand[0]
    v0 = rawget(st.store[c], path)
    if isinstance(v0, It) and v0.kind in ('begin', 'bnd'):
        return iterate_elements(ex, n, st, fr, condf, incf, body, c, path, v0, cand[1:])
    sort = 'I'
    b = t.fresh('i', sort)

    def setvar(s, x):
        val = It('pos', v0.c, x, v0.ck) if isinstance(v0, It) else Ptr(v0.cell, v0.path[:-1] + ((x,),)) if isinstance(v0, Ptr) else x
        s.store[c] = rawset(s.store[c], path, val)
    if not ((isinstance(v0, T) and v0.sort == 'I') or (isinstance(v0, It) and v0.kind == 'pos') or (isinstance(v0, Ptr) and v0.path)):
        raise Unsupported('loop variable of type %s (line %s)' % (type(v0).__name__, n.a.get('line')))
    x0 = v0 if isinstance(v0, T) else v0.x if isinstance(v0, It) else v0.path[-1][0]
    G = St(dict(st.store), st.pc)
    setvar(G, b)
    cb = condf(G)
    incf(G)
    nv = rawget(G.store[c], path)
    nx = nv if isinstance(nv, T) else nv.x if isinstance(nv, It) else nv.path[-1][0]
    step = t.sub(nx, b)
    del ex.obls[nob:]
    del ex.denoms[nden:]
    if step.op != 'c' or step.val == 0:
        raise Unsupported('loop step %s' % step)
    dom = domain(b, x0, cb, int(step.val), ex, st)
    if dom is None:
        raise Unsupported('loop condition %s (line %s)' % (cb, n.a.get('line')))

    def run(s):
        outs = ex.stmt(body, s, fr)
        res = []
        for s2, f in outs:
            if f is None or f[0] == 'continue':
                # the body must not change the loop variable
                if rawget(s2.store[c], path) is not rawget(s.store[c], path) and not _same_lv(rawget(s2.store[c], path), cur[0]):
                    raise Unsupported('loop variable changed in the body')
                incf(s2)
                s2.store[c] = rawset(s2.store[c], path, cur[0])
            res.append((s2, f))
        return res
    val_b = It('pos', v0.c, dom.b, v0.ck) if isinstance(v0, It) else Ptr(v0.cell, v0.path[:-1] + ((dom.val,),)) if isinstance(v0, Ptr) else dom.val
    if isinstance(v0, It):
        val_b = It('pos', v0.c, dom.val, v0.ck)
    cur = [val_b]
    outs = comprehend(ex, n, st, fr, dom, run, loopvars={pkey(c, path): (c, path, val_b)})
    for s, f in outs:
        fin = final_index(dom, x0, int(step.val))
        val = It('pos', v0.c, fin, v0.ck) if isinstance(v0, It) else Ptr(v0.cell, v0.path[:-1] + ((fin,),)) if isinstance(v0, Ptr) else fin
        s.store[c] = rawset(s.store[c], path, val)
    return outs


def _same_lv(a, b):
    if a is b:
        return True
    if isinstance(a, It) and isinstance(b, It):
        return a.x is b.x
    return isinstance(a, Ptr) and a == b


def domain(b, x0, cb, step, ex, st):
    """Iteration domain of b = x0, x0+step, ... while cb(b)."""
    hi = lo = None
    extra = []
    for q in (cb.args if cb.op == 'and' else (cb,)):
        if b not in t.free_vars(q):
            extra.append(q)
            continue
        if q.op == '<=' and q.sort == 'B':
            d = t.sub(q.args[1], q.args[0])      # 0 <= d
            k, rest = split(d, b)
            if k == -1:
                hi = rest if hi is None else t.tmin(hi, rest)
            elif k == 1:
                lo = t.neg(rest) if lo is None else t.tmax(lo, t.neg(rest))
            else:
                return None
        elif q.op == 'not' and q.args[0].op == '=':
            d = t.sub(q.args[0].args[0], q.args[0].args[1])
            k, rest = split(d, b)
            if k not in (1, -1):
                return None
            e = t.neg(rest) if k == 1 else rest          # b != e
            if step == 1:
                hi = t.sub(e, t.I(1))
            elif step == -1:
                lo = t.add(e, t.I(1))
            else:
                return None
        else:
            return None
    if extra:
        g0 = t.and_(*extra)
        if ex.decide(st, g0) is not True:
            return None
    if step == 1 and hi is not None and lo is None:
        d = Domain(b, t.and_(t.le(x0, b), t.le(b, hi)), x0, hi, lambda j, i: t.lt(j, i))
        d.val = b
        return d
    if step == -1 and lo is not None and hi is None:
        d = Domain(b, t.and_(t.le(lo, b), t.le(b, x0)), x0, lo, lambda j, i: t.lt(i, j))
        d.val = b
        d.down = True
        # count() and stepval() assume an upward binder: flip it
        k = t.fresh('k', 'I')
        n = t.sub(x0, lo)
        d2 = Domain(k, t.and_(t.le(t.I(0), k), t.le(k, n)), t.I(0), n, lambda j, i: t.lt(j, i))
        d2.val = t.sub(x0, k)
        return d2
    if step > 1 and hi is not None and lo is None:
        k = t.fresh('k', 'I')
        n = t.idiv(t.sub(hi, x0), t.I(step))
        d = Domain(k, t.and_(t.le(t.I(0), k), t.le(t.add(x0, t.scale(step, k)), hi)), t.I(0), None, lambda j, i: t.lt(j, i))
        d.val = t.add(x0, t.scale(step, k))
        return d
    return None


def split(d, b):
    if d is b:
        return 1, t.I(0)
    if d.op == 'lin':
        m = dict(zip(d.args, d.val[1]))
        if b in m:
            rest = t.sub(d, t.scale(m[b], b))
            if b not in t.free_vars(rest):
                return int(m[b]), rest
    return 0, None


def final_index(dom, x0, step):
    n = count(dom)
    if n is None:
        return t.fresh('unk', 'I')
    if step == 1 and dom.last is not None:
        e = t.add(dom.last, t.I(1))
        return t.ite(t.le(x0, e), e, x0) if t.le(x0, e) is not t.TRUE else e
    return t.add(x0, t.scale(step, n))


def summarise_while(ex, n, st, fr, condf, incf, body, c0):
    raise Unsupported('while loop with a symbolic bound (line %s)' % n.a.get('line'))


# ---------------------------------------------------------------- containers
def el_binder(ex, v, ck, c=None):
    """(binder term(s), value of the element, membership guard)."""
    M = ex.models
    if ck == 'cells':
        return M.cell_domain(ex, c)
    et = v.kt if isinstance(v, MapV) else v.et
    srt = M.el_sort(et)
    b = t.fresh('e', srt)
    g = vget(v.dom if isinstance(v, MapV) else v, ((b,),))
    return b, (ex.key_value(et, (b,))), g


def iterate_elements(ex, n, st, fr, condf, incf, body, c, path, v0, others):
    """for (it = X.begin(); it != X.end(); ++it) over sets, maps, cells."""
    v = ex.read(st, v0.c) if isinstance(v0.c, LV) else None
    b, el, g = el_binder(ex, v, v0.ck, v0.c)
    nob = len(ex.obls)
    q = condf(St(dict(st.store), st.pc))
    del ex.obls[nob:]
    rng = ex.models.iter_cmp.get(q.args[0]) if q.op == 'not' else None
    if rng is None:
        raise Unsupported('loop over elements with condition %s (line %s)' % (q, n.a.get('line')))
    if rng[0].kind == 'bnd':
        g = t.and_(g, t.le(rng[0].x, b))
    if rng[1].kind == 'bnd':
        g = t.and_(g, t.lt(b, rng[1].x))
    dom = Domain(b, g)
    dom.ordered = isinstance(v, SetV) and b.sort == 'I'
    if v0.ck == 'cells':
        dom.before = lambda j, i: t.app('cell.before', (j, i), 'B')
    it = It('el', v0.c, el, v0.ck)
    lvs = {pkey(c, path): (c, path, it)}
    # iterators advanced in lock step over the same collection of cells
    for c2, p2 in others:
        w = rawget(st.store[c2], p2)
        if isinstance(w, It) and w.kind == 'begin' and w.ck == 'cells':
            lvs[pkey(c2, p2)] = (c2, p2, It('el', w.c, el, w.ck))

    def run(s):
        outs = ex.stmt(body, s, fr)
        res = []
        for s2, f in outs:
            if f is None or f[0] == 'continue':
                for (cc, pp, vv) in lvs.values():
                    if rawget(s2.store[cc], pp) is not vv:
                        raise Unsupported('iterator changed in the body')
            res.append((s2, f))
        return res
    outs = comprehend(ex, n, st, fr, dom, run, loopvars=lvs)
    for s, f in outs:
        for (cc, pp, vv) in lvs.values():
            s.store[cc] = rawset(s.store[cc], pp, It('end', vv.c, None, vv.ck))
    return outs


def range_for(ex, n, st, fr, rlv, var, body):
    from .exec import is_ref
    v = ex.rv(st, rlv)
    vid = var.a['id']
    byref = is_ref(var.type or '')

    def bind(s, x):
        """Bind the loop variable to an lvalue or value."""
        if byref:
            fr.env[vid] = x if isinstance(x, LV) else ex.tmp(s, x)
        else:
            cell = ('L', fr.id, vid)
            s.store[cell] = ex.rv(s, x)
            fr.env[vid] = LV(cell)
        for i, bd in enumerate(x2 for x2 in var.inner if x2.kind == 'BindingDecl'):
            b0 = fr.env[vid]
            fr.env[bd.a['id']] = LV(b0.cell, b0.path + ((t.I(i),),)) if not (len(b0.path) >= 2 and b0.path[-2] == '#el') else (
                ex.tmp(s, ex.key_value('', b0.path[-1])) if i == 0 else LV(b0.cell, b0.path[:-2] + (b0.path[-1],)))

    def step(states, x):
        """One concrete iteration on every live state."""
        live, done = [], []
        for s in states:
            bind(s, x(s))
            outs = ex.stmt(body, s, fr)
            cont = []
            for s2, f in outs:
                if f is None or f[0] == 'continue':
                    cont.append(s2)
                elif f[0] == 'break':
                    done.append((s2, None))
                else:
                    done.append((s2, f))
            if len(cont) > 1:
                cont = [ex.merge_many(s, cont)]
            live += cont
        return live, done
    if isinstance(v, Tup) or (isinstance(v, Vec) and v.pieces is None and v.size.op == 'c'):
        k = len(v.items) if isinstance(v, Tup) else int(v.size.val)
        live, done = [st], []
        for i in range(k):
            live, d = step(live, lambda s: LV(rlv.cell, rlv.path + ((t.I(i),),)))
            done += d
            ex.unrolled += 1
        return finish(ex, st, live, done)
    if isinstance(v, Vec) and v.pieces is None:
        b = t.fresh('i', 'I')
        last = t.sub(v.size, t.I(1))
        dom = Domain(b, t.and_(t.le(t.I(0), b), t.le(b, last)), t.I(0), last, lambda j, i: t.lt(j, i))

        def run(s):
            bind(s, LV(rlv.cell, rlv.path + ((b,),)))
            return ex.stmt(body, s, fr)
        return comprehend(ex, n, st, fr, dom, run)
    if isinstance(v, Vec):
        return over_pieces(ex, n, st, fr, v.pieces, bind, body)
    if isinstance(v, (SetV, MapV)):
        b, el, g = el_binder(ex, v, 'set')
        dom = Domain(b, g)
        dom.ordered = isinstance(v, SetV) and b.sort == 'I'
        if isinstance(v, SetV):
            def run(s):
                bind(s, el)
                return ex.stmt(body, s, fr)
        else:
            def run(s):
                if byref:
                    fr.env[vid] = LV(rlv.cell, rlv.path + ('#el', (b,)))
                    for i, bd in enumerate(x2 for x2 in var.inner if x2.kind == 'BindingDecl'):
                        fr.env[bd.a['id']] = ex.tmp(s, el) if i == 0 else LV(rlv.cell, rlv.path + ((b,),))
                else:
                    bind(s, Tup([el, ex.read(s, LV(rlv.cell, rlv.path + ((b,),)))]))
                return ex.stmt(body, s, fr)
        return comprehend(ex, n, st, fr, dom, run)
    from . import fem
    if isinstance(v, fem.Tup2):
        b = t.fresh('i', 'I')
        last = t.sub(fem.NCELLS, t.I(1))
        dom = Domain(b, t.and_(t.le(t.I(0), b), t.le(b, last)), t.I(0), last, lambda j, i: t.lt(j, i))

        def run(s):
            bind(s, It('pos', v.c, b, 'cells'))
            return ex.stmt(body, s, fr)
        return comprehend(ex, n, st, fr, dom, run)
    raise Unsupported('range-for over %s (line %s)' % (type(v).__name__, n.a.get('line')))


def pieced(v, found, depth=0):
    if isinstance(v, Vec):
        if v.pieces is not None and v.pieces not in found:
            found.append(v.pieces)
    elif isinstance(v, Struct) and depth < 3:
        for x in v.f.values():
            pieced(x, found, depth + 1)


def by_index(ex, n, st, fr, condf, incf, body):
    """for (i = 0; i < v.size(); ++i) over a sequence known by its pieces:
    the body for every element in order; i itself is some index."""
    found = []
    for x in st.store.values():
        pieced(x, found)
    I0 = St(dict(st.store), st.pc)
    nob, nden = len(ex.obls), len(ex.denoms)
    incf(I0)
    cand = [(c, path) for c, v in I0.store.items() if c in st.store and st.store[c] is not v for path in leaf_diffs(st.store[c], v)]
    if len(cand) != 1:
        return None
    c, path = cand[0]
    v0 = rawget(st.store[c], path)
    v1 = rawget(I0.store[c], path)
    if not (isinstance(v0, T) and v0.op == 'c' and v0.val == 0 and isinstance(v1, T) and v1.op == 'c' and v1.val == 1):
        return None
    b = t.fresh('i', 'I')
    G = St(dict(st.store), st.pc)
    G.store[c] = rawset(G.store[c], path, b)
    cb = condf(G)
    dom = domain(b, v0, cb, 1, ex, st)
    del ex.obls[nob:]
    del ex.denoms[nden:]
    if dom is None or dom.last is None:
        return None
    p = access.SIZED.get(t.add(dom.last, t.I(1)).id)
    found = ([p[0]] if p is not None else []) + found
    found = [p for p in found if not all(q[0] == 'el' and q[1] is t.TRUE for q in p) and all(q[0] != MARK for q in p)]
    hit = [p for p in found if t.sub(access.pieces_size(p), dom.last) is t.I(1)]
    if not hit:
        return None
    pieces = hit[0]

    def bind(s, x):
        val = ex.rv(s, x)
        fv = [y for y in (t.free_vars(val) if isinstance(val, T) else ()) if y.sort == 'I']
        idx = t.app(t.fresh('index', 'I').val, tuple(fv), 'I')
        access.PIECE_AT[idx.id] = (pieces, val)
        keep.append(idx)
        s.store[c] = rawset(s.store[c], path, idx)
    keep = ex.__dict__.setdefault('kept', [])
    outs = over_pieces(ex, n, st, fr, pieces, bind, body)
    for s, f in outs:
        s.store[c] = rawset(s.store[c], path, t.add(dom.last, t.I(1)))
    return outs


def over_pieces(ex, n, st, fr, pieces, bind, body):
    """Iterate a sequence given as pieces."""
    live, done = [st], []
    for p in pieces:
        nxt = []
        for s in live:
            if p[0] == 'el':
                g = p[1]
                d = ex.decide(s, g)
                if d is False:
                    nxt.append(s)
                    continue
                s1 = s if d is True else s.fork(g)
                bind(s1, p[2])
                outs = ex.stmt(body, s1, fr)
                if any(f is not None and f[0] != 'continue' for _, f in outs):
                    raise Unsupported('loop over a conditional sequence left early')
                c1 = [x for x, f in outs]
                e1 = c1[0] if len(c1) == 1 else ex.merge_many(s1, c1)
                if d is True:
                    nxt.append(e1)
                else:
                    s2 = s.fork(t.not_(g))
                    m = ex.merge(g, e1, s2, s.pc)
                    nxt.append(m)
            elif p[0] == 'sub':
                b2 = t.fresh('e', p[1].sort)
                m = {p[1]: b2}
                dom = Domain(b2, t.subst(p[2], m))
                inner = tuple(psubst(q, m) for q in p[3])
                node = n

                def run(s3):
                    return over_pieces(ex, n, s3, fr, inner, bind, body)
                o = comprehend(ex, _Sub(n, p), s, fr, dom, run)
                nxt += [x for x, f in o]
            elif p[0] == 'gall':
                v = p[2]
                b2 = t.fresh('i', 'I')
                last = t.sub(v.size, t.I(1))
                dom = Domain(b2, t.and_(p[1], t.le(t.I(0), b2), t.le(b2, last)), before=lambda j, i: t.lt(j, i))

                def run(s3):
                    bind(s3, vget(v, ((b2,),)))
                    return ex.stmt(body, s3, fr)
                o = comprehend(ex, _Sub(n, p), s, fr, dom, run)
                nxt += [x for x, f in o]
            else:
                raise Unsupported('piece')
        live = nxt
    return [(s, None) for s in live] + done


class _Sub:
    def __init__(self, n, p):
        self.a = n.a


def finish(ex, st, live, done):
    brk = [s for s, f in done if f is None]
    rest = [(s, f) for s, f in done if f is not None]
    live = live + brk
    if len(live) > 1:
        live = [ex.merge_many(st, live)]
    return [(s, None) for s in live] + rest


# ---------------------------------------------------------------- WorkStream
def workstream(ex, st, fr, args, n):
    """WorkStream::run(begin, end, [object,] worker, copier, scratch, copy):
    for every item: worker(item, scratch, copy); copier(copy).  Scratch and copy
    objects are reused between items, so their contents are arbitrary."""
    if len(args) < 6:
        raise Unsupported('WorkStream::run with %d arguments' % len(args))
    b0, e0 = ex.rv(st, args[0]), ex.rv(st, args[1])
    worker, copier = ex.rv(st, args[2]), ex.rv(st, args[3])
    scratch, copy = ex.tmp(st, ex.rv(st, args[4])), ex.tmp(st, ex.rv(st, args[5]))
    b = t.fresh('i', 'I')
    if isinstance(b0, T) and isinstance(e0, T):
        lo, hi = b0, e0
        item = b
    elif isinstance(b0, It) and isinstance(e0, It) and b0.kind == e0.kind == 'pos' and b0.ck == e0.ck:
        lo, hi = b0.x, e0.x
        item = It('pos', b0.c, b, b0.ck)
    else:
        raise Unsupported('WorkStream::run over %s' % type(b0).__name__)
    ex.streams += 1
    ex.models.trust('WorkStream::run: worker then copier for every item of the range')
    if lo.op == 'c' and hi.op == 'c' and hi.val - lo.val <= 64:
        live = st
        for i in range(int(lo.val), int(hi.val)):
            x = t.I(i) if item is b else It('pos', b0.c, t.I(i), b0.ck)
            ex.apply(live, worker, [ex.tmp(live, x), scratch, copy], n)
            ex.apply(live, copier, [copy], n)
        return VOID
    last = t.sub(hi, t.I(1))
    dom = Domain(b, t.and_(t.le(lo, b), t.le(b, last)), lo, last, lambda j, i: t.lt(j, i))

    def run(s):
        ex.apply(s, worker, [ex.tmp(s, item), scratch, copy], n)
        ex.apply(s, copier, [copy], n)
        return [(s, None)]
    outs = comprehend(ex, n, st, fr, dom, run)
    if len(outs) != 1 or outs[0][1] is not None:
        raise Unsupported('WorkStream::run: %d outcomes' % len(outs))
    s = outs[0][0]
    if s is not st:
        st.store, st.pc = s.store, s.pc
    return VOID


def parallel_for(ex, st, fr, args, n):
    """tbb::parallel_for(blocked_range, body): the body on the whole range
    (bodies are specified range by range, so any split gives the same)."""
    r = ex.rv(st, args[0])
    if not isinstance(r, Struct) or r.cls != 'blocked_range':
        raise Unsupported('parallel_for over %s' % type(r).__name__)
    ex.models.trust('tbb::parallel_for: the body for the ranges of a partition')
    ex.apply(st, args[1], [ex.tmp(st, r)], n)
    return VOID
