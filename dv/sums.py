"""Equality of terms with sums: flat normal form, one-point rule, matching."""
import itertools
from . import terms as t, smt
from .terms import T


def has_sum(x):
    return t.contains(x, lambda y: y.op == 'sum')


def flatten(x):
    """x as a list of (binders, guard, body): x = sum of Sum{binders | guard} body."""
    out = []

    def go(y, bs, g, coef, k):
        """Add coef * y, summed over bs under g, where k continues with the rest."""
        if g is t.FALSE or (y.op == 'c' and y.val == 0):
            return
        if y.op == 'lin':
            if y.val[0] != 0:
                k(bs, g, t.mul(coef, t.const(y.val[0], 'R')))
            for c, z in zip(y.val[1], y.args):
                go(z, bs, g, t.mul(coef, t.R(c)), k)
        elif y.op == 'toR':
            z = y.args[0]
            if z.op == 'sum':
                go(t.sum_(z.args[0], z.args[1], t.toR(z.args[2])), bs, g, coef, k)
            elif z.op == 'ite':
                go(t.ite(z.args[0], t.toR(z.args[1]), t.toR(z.args[2])), bs, g, coef, k)
            else:
                k(bs, g, t.mul(coef, y))
        elif y.op == 'sum':
            b = t.fresh('b', y.args[0].sort)
            m = {y.args[0]: b}
            go(t.toR(t.subst(y.args[2], m)), bs + (b,), t.and_(g, t.subst(y.args[1], m)), coef, k)
        elif y.op == 'ite':
            go(t.toR(y.args[1]), bs, t.and_(g, y.args[0]), coef, k)
            go(t.toR(y.args[2]), bs, t.and_(g, t.not_(y.args[0])), coef, k)
        elif y.op == '*' and any(z.op in ('sum', 'lin', 'ite', 'toR') or has_sum(z) for z in y.args) and needs(y):
            a = list(y.args)
            i = next(i for i, z in enumerate(a) if needs(z))
            h = a.pop(i)
            rest = t.R(1)
            for z in a:
                rest = t.mul(rest, t.toR(z))
            go(t.toR(h), bs, g, t.R(1), lambda bs2, g2, f: go(rest, bs2, g2, t.mul(coef, f), k))
        elif y.op == '/' and needs(y.args[0]) and not has_sum(y.args[1]):
            go(t.toR(y.args[0]), bs, g, t.div(coef, t.toR(y.args[1])), k)
        else:
            k(bs, g, t.mul(coef, t.toR(y)))
    go(t.toR(x), (), t.TRUE, t.R(1), lambda bs, g, f: out.append((bs, g, f)))
    return out


def conj(c):
    return c.args if c.op == 'and' else (c,)


def settle(x, pc=()):
    """x with its conditionals decided by the guards they stand under, and sums over one point taken."""
    def known(f, cs):
        d = dict(f)
        for c in cs:
            d[c.id] = True
            n = t.not_shallow(c)
            if n is not None:
                d[n.id] = False
        return d

    def cond(c, f, memo):
        if c.op == 'and':
            return t.and_(*[cond(y, f, memo) for y in c.args])
        if c.op == 'or':
            return t.or_(*[cond(y, f, memo) for y in c.args])
        if c.op == 'not':
            return t.not_(cond(c.args[0], f, memo))
        c = go(c, f, memo)
        return t.const(f[c.id], 'B') if c.id in f else c

    def go(y, f, memo):
        if not y.args or not t.contains(y, lambda z: z.op in ('ite', 'sum')):
            return y
        r = memo.get(y.id)
        if r is not None:
            return r
        if y.op == 'ite':
            c = cond(y.args[0], f, memo)
            a = go(y.args[1], known(f, conj(c)), {}) if c is not t.FALSE else None
            b = go(y.args[2], f if c.op == 'and' else known(f, [t.not_(c)]), {}) if c is not t.TRUE else None
            r = a if b is None else b if a is None else t.ite(c, a, b)
        elif y.op == 'sum':
            b, g, e = y.args
            g = go(g, f, memo)
            e = go(e, known(f, conj(g)), {})
            r = None
            if e.op == 'ite' and e.args[2].op == 'c' and e.args[2].val == 0:
                g, e = t.and_(g, e.args[0]), e.args[1]
            for c in conj(g):
                s = solve(c, b)
                if s is not None:
                    m = {b: s}
                    r = go(t.ite(t.subst(g, m), t.subst(e, m), t.const(0, e.sort)), f, {})
                    break
            if r is None and b.sort == 'I' and b not in t.free_vars(e):
                i = t.interval(b, g)
                if i is not None:       # the number of its terms
                    n = t.add(t.sub(i[1], i[0]), t.I(1))
                    r = go(t.ite(t.le(n, t.I(0)), t.const(0, e.sort), t.mul(e, n if e.sort == 'I' else t.toR(n))), f, {})
            if r is None:
                r = t.sum_(b, g, e)
        else:
            r = t.rebuild(y, [go(z, f, memo) for z in y.args])
        memo[y.id] = r
        return r
    return go(x, known({}, [z for c in pc for z in conj(c)]), {})


def needs(y):
    return t.contains(y, lambda z: z.op == 'sum' or (z.op == 'ite' and z.sort != 'B'))


def preimage(c, b):
    """c is 'F(b) = e' for an injection F and e free of b: the inverse of F at e."""
    if c.op != '=' or b.sort != 'I' or c.args[0].sort != 'I':
        return None
    d = t.sub(*c.args)
    for z, k in (zip(d.args, d.val[1]) if d.op == 'lin' else ((d, 1),)):
        if z.op == 'app' and abs(k) == 1 and b in t.free_vars(z):
            rest = t.scale(-1 / k, t.sub(d, t.scale(k, z)))
            if b not in t.free_vars(rest):
                from . import access
                return access.invert(z, b, rest)
    return None


def onepoint(e, pc=()):
    """Remove binders fixed by an equality in the guard."""
    bs, g, f = e
    again = True
    while again:
        again = False
        cs = g.args if g.op == 'and' else (g,)
        for b in bs:
            for c in cs:
                s = solve(c, b)
                if s is None:
                    s = preimage(c, b)
                    if s is not None and (b in t.free_vars(s) or smt.check_sat(list(pc) + [g, t.not_(t.eq(b, s))], 3000) != 'unsat'):
                        s = None
                if s is not None:
                    m = {b: s}
                    bs = tuple(x for x in bs if x is not b)
                    g, f = t.subst(g, m), t.subst(f, m)
                    again = True
                    break
            if again:
                break
    return bs, g, f


def alpha(x, memo=None):
    """x with the binders of its sums named by their nesting height."""
    if memo is None:
        memo = {}

    def go(y):
        if not y.args or not has_sum(y):
            return y, 0
        r = memo.get(y.id)
        if r is None:
            if y.op == 'sum':
                b = y.args[0]
                (g, h1), (f, h2) = go(y.args[1]), go(y.args[2])
                h = 1 + max(h1, h2)
                c = t.var('%s$%d' % (b.sort, h), b.sort)
                m = {b: c}
                r = t.sum_(c, t.subst(g, m), t.subst(f, m)), h
            else:
                rs = [go(a) for a in y.args]
                r = t.rebuild(y, [a for a, _ in rs]), max(h for _, h in rs)
            memo[y.id] = r
        return r
    return go(x)[0]


def opaque(x):
    """x (in alpha form) with its sums replaced by the unknowns they are."""
    if not has_sum(x):
        return x
    if x.op == 'sum':
        fv = sorted(t.free_vars(x), key=lambda v: v.id)
        return t.app('sum!%d' % x.id, tuple(fv), x.sort)
    if x.op == 'ex':
        return x
    return t.rebuild(x, [opaque(a) for a in x.args])


def solve(c, b):
    """c is 'b = e' with e free of b: return e."""
    if c.op == 'v' and c is b and b.sort == 'B':
        return t.TRUE
    if c.op != '=':
        return None
    x, y = c.args
    if x is b and b not in t.free_vars(y):
        return y
    if y is b and b not in t.free_vars(x):
        return x
    if b.sort != 'I' or x.sort != 'I':
        return None
    d = t.sub(x, y)
    if d.op == 'lin':
        m = dict(zip(d.args, d.val[1]))
        if b in m and abs(m[b]) == 1:
            rest = t.sub(d, t.scale(m[b], b))
            if b not in t.free_vars(rest):
                return t.scale(-1 / m[b], rest) if m[b] != 1 else t.neg(rest)
    return None


def disjuncts(e):
    """Split a guard with a disjunction that fixes binders into disjoint parts."""
    bs, g, f = e
    cs = list(g.args) if g.op == 'and' else [g]
    for i, c in enumerate(cs):
        if c.op == 'or' and any(solve(q, b) is not None for a in c.args for q in (a.args if a.op == 'and' else (a,)) for b in bs):
            rest = cs[:i] + cs[i + 1:]
            out, neg = [], []
            for a in c.args:
                out += disjuncts((bs, t.and_(*(rest + neg + [a])), f))
                neg.append(t.not_(a))
            return out
    return [e]


def normal(x, pc=()):
    r = []
    for e in flatten(x):
        for q in disjuncts(e):
            q = onepoint(q, pc)
            if q[1] is not t.FALSE and not (q[2].op == 'c' and q[2].val == 0):
                r.append(q)
    return r


def closed(bs, g, f):
    """The value of a sum of equal terms over an interval."""
    if len(bs) != 1 or bs[0].sort != 'I' or bs[0] in t.free_vars(f):
        return None
    ins = [c for c in conj(g) if bs[0] in t.free_vars(c)]
    i = t.interval(bs[0], t.and_(*ins)) if ins else None
    if i is None:
        return None
    n = t.add(t.sub(i[1], i[0]), t.I(1))
    return t.ite(t.and_(t.le(t.I(1), n), *[c for c in conj(g) if c not in ins]), t.mul(t.toR(n), f), t.R(0))


def prove(pc, a, b, counter):
    es = normal(t.sub(t.toR(a), t.toR(b)), pc)
    plain = t.R(0)
    groups = {}
    for bs, g, f in es:
        if not bs:
            plain = t.add(plain, t.ite(g, f, t.R(0)))
        else:
            groups.setdefault(tuple(sorted(x.sort for x in bs)), []).append((bs, g, f))
    for key, gs in list(groups.items()):
        ns = [closed(*x) for x in gs]
        if all(n is not None for n in ns):
            for n in ns:
                plain = t.add(plain, n)
            del groups[key]
    if has_sum(plain):
        plain = opaque(alpha(plain))
    if has_sum(plain):
        return smt.Proof(False, 'sum', 'sum in a non-linear position: %s' % str(plain)[:500])
    p = smt.prove_eq(pc, plain, t.R(0), counter=counter)
    if not p.ok:
        return p
    by = {p.by}
    for key, gs in groups.items():
        p = group(pc, gs, counter)
        if not p.ok:
            return p
        by.add(p.by)
    return smt.Proof(True, 'sum[' + '+'.join(sorted(by)) + ']')


def perms(bs, ref):
    """Renamings of bs onto ref respecting sorts."""
    for q in itertools.permutations(ref):
        if all(x.sort == y.sort for x, y in zip(bs, q)):
            yield dict(zip(bs, q))


def heads(x):
    return {y.id for y in t.subterms(x) if y.op == 'app'}


def zero(pc, es, counter):
    if len(es) > 1 and all(smt.prove_eq(tuple(pc) + (g,), f, t.R(0), counter=[counter[0]]).ok for g, f in es):
        return smt.Proof(True, 'each')
    tot = t.R(0)
    dom = []
    for g, f in es:
        dom.append(g)
        tot = t.add(tot, t.ite(g, f, t.R(0)))
    d = t.or_(*dom)
    c = [counter[0]]
    p = smt.prove_eq(tuple(pc) + ((d,) if d is not t.TRUE else ()), tot, t.R(0), counter=c)
    return p


def equivalent(g, h):
    r = EQUIV.get((g.id, h.id))
    if r is None:
        r = EQUIV[g.id, h.id] = not t.contains(t.and_(g, h), lambda y: y.op in ('sum', 'ex')) and smt.check_sat([t.or_(t.and_(g, t.not_(h)), t.and_(h, t.not_(g)))], 1000) == 'unsat'
    return r


EQUIV = {}


def cancel(al):
    """Add up the terms that have the same guard."""
    d = {}
    for g, f in al:
        d[g] = t.add(d.get(g, t.R(0)), t.toR(f))
    while len(d) > 1:       # guards that say the same
        gs = list(d)
        same = next(((g, h) for i, g in enumerate(gs) for h in gs[:i] if t.free_vars(g) == t.free_vars(h) and equivalent(g, h)), None)
        if same is None:
            break
        d[same[1]] = t.add(d[same[1]], d.pop(same[0]))
    return [(g, f) for g, f in d.items() if not (f.op == 'c' and f.val == 0)]


def group(pc, gs, counter):
    # drop empty sums
    live = []
    for bs, g, f in gs:
        if smt.check_sat(list(pc) + [g], 1500) == 'unsat':
            continue
        live.append((bs, g, f))
    if not live:
        return smt.Proof(True, 'empty')
    ref = [t.fresh('k', b.sort) for b in live[0][0]]
    m0 = dict(zip(live[0][0], ref))
    al = [(t.subst(live[0][1], m0), t.subst(live[0][2], m0))]
    h0 = heads(al[0][1]) | heads(al[0][0])
    for bs, g, f in live[1:]:
        best = None
        for m in perms(bs, ref):
            g2, f2 = t.subst(g, m), t.subst(f, m)
            sc = len((heads(f2) | heads(g2)) & h0)
            if best is None or sc > best[0]:
                best = (sc, g2, f2)
        if best is None:
            return smt.Proof(False, 'sum', 'binders do not match')
        al.append((best[1], best[2]))
        h0 |= heads(best[1]) | heads(best[2])
    if any(has_sum(g) or has_sum(f) for g, f in al):
        al = [(opaque(alpha(g)), opaque(alpha(f))) for g, f in al]
    al = cancel(al)
    if not al:
        return smt.Proof(True, 'pairs')
    p = zero(pc, al, counter)
    if p.ok:
        return p
    if p.by == 'numeric' and len(ref) == 1:
        return p
    # greedy pairs over all renamings
    todo = list(live)
    while todo:
        bs0, g0, f0 = todo.pop(0)
        if zero(pc, [(g0, f0)], counter).ok:
            continue
        hit = False
        for i, (bs, g, f) in enumerate(todo):
            for m in perms(bs, bs0):
                if zero(pc, [(g0, f0), (t.subst(g, m), t.subst(f, m))], counter).ok:
                    todo.pop(i)
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return smt.Proof(False, 'sum', 'unmatched sum over {%s | %s}: %s\n%s' % (', '.join(map(str, bs0)), str(g0)[:1500], str(f0)[:1500], p.why[:1500]))
    return smt.Proof(True, 'pairs')
