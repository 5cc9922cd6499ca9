"""SMT back end (z3): linear integer/real arithmetic with uninterpreted
functions, plus the combination with the exact ring normal form of poly.py."""
import time
import math
import z3
from . import terms as t, poly, numeric
from .terms import T
from .vals import DEADLINE, Unsupported

stats = {'queries': 0, 'seconds': 0.0, 'ring': 0, 'smt': 0, 'splits': 0}
TIMEOUT = 4000
_sorts = {}
_tr = {}
_tr_full, _tr_abs = _tr, {}
_abs = [False]    # products as uninterpreted functions
_ufs = {}


def sort(s):
    if s == 'I':
        return z3.IntSort()
    if s == 'R':
        return z3.RealSort()
    if s == 'B':
        return z3.BoolSort()
    r = _sorts.get(s)
    if r is None:
        r = _sorts[s] = z3.DeclareSort('S_' + s)
    return r


def uf(name, argsorts, s):
    k = (name, tuple(argsorts), s)
    f = _ufs.get(k)
    if f is None:
        f = _ufs[k] = z3.Function('%s/%d' % (name, len(_ufs)), *([sort(a) for a in argsorts] + [sort(s)]))
    return f


def tr(x):
    r = _tr.get(x.id)
    if r is not None:
        return r
    stack = [x]
    while stack:
        y = stack[-1]
        if y.id in _tr:
            stack.pop()
            continue
        todo = [a for a in y.args if a.id not in _tr]
        if todo and y.op != 'sum':
            stack.extend(todo)
            continue
        _tr[y.id] = _tr1(y)
        stack.pop()
    return _tr[x.id]


def num(v, s):
    if s == 'I':
        return z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(str(v))
    return z3.RealVal(str(v))


def _tr1(x):
    o = x.op
    a = [_tr.get(y.id) for y in x.args]
    if o == 'c':
        if x.sort == 'B':
            return z3.BoolVal(x.val)
        if x.sort in ('I', 'R'):
            return num(x.val, x.sort)
        return z3.Const('const_%s' % x.val, sort(x.sort))
    if o == 'v':
        return z3.Const(x.val, sort(x.sort))
    if o == 'lin':
        if x.sort == 'I' and any(c.denominator != 1 for c in x.val[1] + (x.val[0],)):
            return z3.Const('lin!%d' % x.id, z3.IntSort())
        r = [num(c, x.sort) * y if c != 1 else y for c, y in zip(x.val[1], a)]
        if x.val[0] != 0:
            r.append(num(x.val[0], x.sort))
        return z3.Sum(r) if len(r) > 1 else r[0]
    if o == '*' and _abs[0]:
        r = a[0]
        for y in a[1:]:
            r = uf('mul', [x.sort, x.sort], x.sort)(r, y)
        return r
    if o == '*':
        r = a[0]
        for y in a[1:]:
            r = r * y
        return r
    if o == '/':
        return a[0] / a[1]
    if o == 'powi':
        n = x.val
        if abs(n) <= 4:
            r = a[0]
            for _ in range(abs(n) - 1):
                r = r * a[0]
            return r if n > 0 else 1 / r
        return uf('powi%d' % n, [x.args[0].sort], x.sort)(a[0])
    if o == 'app':
        return uf(x.val, [y.sort for y in x.args], x.sort)(*a) if a else z3.Const('app_' + x.val, sort(x.sort))
    if o == 'ite':
        return z3.If(*a)
    if o in ('=', '<', '<=') and any(y.op == 'lin' and y.sort == 'I' and any(c.denominator != 1 for c in y.val[1]) for y in x.args):
        # integers with rational coefficients: multiplied out
        m = math.lcm(*[c.denominator for y in x.args if y.op in ('lin', 'c') for c in ((y.val[0],) + tuple(y.val[1]) if y.op == 'lin' else (y.val,))])
        a = [tr(t.scale(m, y)) for y in x.args]
    if o == '=':
        return a[0] == a[1]
    if o == '<':
        return a[0] < a[1]
    if o == '<=':
        return a[0] <= a[1]
    if o == 'not':
        return z3.Not(a[0])
    if o == 'and':
        return z3.And(*a)
    if o == 'or':
        return z3.Or(*a)
    if o == 'toR':
        return z3.ToReal(a[0])
    if o == 'idiv':
        return a[0] / a[1]
    if o == 'imod':
        return a[0] % a[1]
    if o == 'ex':
        return z3.Exists([a[0]], a[1])
    if o == 'sum':
        from .sums import alpha
        y = alpha(x)
        fv = sorted(t.free_vars(y), key=lambda v: v.id)
        if fv:
            return uf('sum!%d' % y.id, [v.sort for v in fv], x.sort)(*[tr(v) for v in fv])
        return z3.Const('sum!%d' % y.id, sort(x.sort))
    return z3.Const('opq!%d' % x.id, sort(x.sort))


def axioms(ts):
    """Facts about interpreted symbols occurring in the query."""
    out = []
    seen = set()
    todo = list(ts)
    apps, paired = {}, set()
    n = 0
    while n < len(todo):
        x = todo[n]
        n += 1
        for y in t.subterms(x):
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.op == 'app' and y.val in _fax and n <= len(ts) + 40:
                vs, fact = _fax[y.val]
                f = t.subst(fact, dict(zip(vs, y.args))) if vs else fact
                todo.append(f)
                out.append(tr(f))
            if y.op == 'app' and y.val in _rel_names and n <= len(ts) + 40:
                for (f1, f2), (vs, fact) in _rel.items():
                    if y.val not in (f1, f2):
                        continue
                    apps.setdefault(y.val, []).append(y)
                    for z in apps.get(f2 if y.val == f1 else f1, ()):
                        p, q = (y, z) if y.val == f1 else (z, y)
                        if (p.id, q.id, f1, f2) not in paired:
                            paired.add((p.id, q.id, f1, f2))
                            f = t.subst(fact, dict(zip(vs, p.args + q.args)))
                            todo.append(f)
                            out.append(tr(f))
            if y.op == 'app' and y.val == 'sqrt' and y.sort == 'R':
                out.append(tr(y) >= 0)
                z = tr(y.args[0])
                out.append(z3.Implies(z >= 0, tr(y) * tr(y) == z))
                out.append(z3.Implies(z > 0, tr(y) > 0))
            elif y.op == 'app' and y.sort == 'I' and (y.val.endswith('size') or y.val in _nat):
                out.append(tr(y) >= 0)
            elif y.op == 'imod' and y.args[1].op == 'c':
                pass
    return out


_nat = set()
_fax = {}         # defined symbol -> (parameters, fact that holds for all of them)


def define(name, params, fact):
    """A symbol introduced by the executor and the fact that characterises it."""
    _fax[name] = (tuple(params), fact)


def relate(f1, f2, params, fact):
    """A fact that holds for all arguments of two symbols (those of f1, then those of f2)."""
    _rel[(f1, f2)] = (tuple(params), fact)
    _rel_names.update((f1, f2))


_rel, _rel_names = {}, set()
_memo = {}
_bg = []          # background axioms (z3 expressions), e.g. well-formedness of inputs
_bound = set()


def _quantified_products(cs):
    q = p = False
    for c in cs:
        for y in t.subterms(c):
            if y.op == '*':
                p = True
            elif y.op == 'ex' or (y.op == 'app' and y.val in _fax):
                q = True
        if p and q:
            return True
    return False


def check_sat(conds, timeout=None):
    """'sat' / 'unsat' / 'unknown' for a conjunction of terms."""
    cs = [c for c in conds if c is not t.TRUE]
    if any(c is t.FALSE for c in cs):
        return 'unsat'
    key = (tuple(sorted({c.id for c in cs})), len(_bg), len(_fax), len(_rel))
    r = _memo.get(key)
    if r is not None:
        return r
    t0 = time.time()
    stats['queries'] += 1
    cs = [miniscope(c) for c in cs]
    if any(c is t.FALSE for c in cs):
        _memo[key] = 'unsat'
        return 'unsat'
    if _quantified_products(cs):
        # products under quantifiers: try the weaker theory first
        global _tr
        _abs[0], _tr = True, _tr_abs
        try:
            s = z3.Solver()
            s.set('timeout', timeout or TIMEOUT)
            for c in cs:
                s.add(tr(c))
            for a in axioms(cs):
                s.add(a)
            if str(s.check()) == 'unsat':
                stats['seconds'] += time.time() - t0
                _memo[key] = 'unsat'
                return 'unsat'
        finally:
            _abs[0], _tr = False, _tr_full
    if (timeout or TIMEOUT) >= 10000 and any(t.contains(c, lambda y: y.op == 'ex') for c in cs):
        r = _plain(cs, min(timeout or TIMEOUT, 500))
        if r == 'unknown' and _plain(ground(cs), min(timeout or TIMEOUT, 5000)) == 'unsat':
            r = 'unsat'
        if r == 'unknown' and (timeout or TIMEOUT) > 500:
            r = _plain(cs, timeout or TIMEOUT)
    else:
        r = _plain(cs, timeout or TIMEOUT)
    stats['seconds'] += time.time() - t0
    _memo[key] = r
    return r


def _plain(cs, timeout):
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in cs:
        s.add(tr(c))
    for a in axioms(cs):
        s.add(a)
    for b in _bg:
        s.add(b)
    return str(s.check())


_mini = {}


def miniscope(c):
    """An equivalent of c in which quantifiers are decided where that is immediate:
    a value given by an equation, a number that is only bounded."""
    r = _mini.get(c)
    if r is not None:
        return r
    if c.op == 'not':
        r = t.not_(miniscope(c.args[0]))
    elif c.op in ('and', 'or'):
        r = (t.and_ if c.op == 'and' else t.or_)(*[miniscope(x) for x in c.args])
    elif c.op == 'ex':
        r = _scope(c.args[0], miniscope(c.args[1]))
    else:
        r = c
    _mini[c] = r
    return r


def _scope(b, body):
    if b not in t.free_vars(body):
        return body
    if body.op == 'or':
        return t.or_(*[_scope(b, x) for x in body.args])
    parts = list(body.args) if body.op == 'and' else [body]
    out = [x for x in parts if b not in t.free_vars(x)]
    ins = [x for x in parts if b in t.free_vars(x)]
    for x in ins:
        if x.op == '=' and x.args[0].sort == b.sort and b.sort in ('I', 'R'):
            d, k = _affine(t.sub(x.args[0], x.args[1]), b)
            if d is not None and (b.sort == 'R' or abs(k) == 1):
                v = t.scale(-1 / k, d)
                if _integral(v) or b.sort == 'R':
                    return miniscope(t.and_(*out, *[t.subst(y, {b: v}) for y in ins if y is not x]))
    if b.sort == 'I':
        low, up = [], []
        for x in ins:
            if x.op not in ('<=', '<'):
                break
            d, k = _affine(t.sub(x.args[1], x.args[0]), b)
            if d is None or abs(k) != 1 or not _integral(d):
                break
            if x.op == '<':
                d = t.sub(d, t.I(1))
            (low if k > 0 else up).append(t.neg(d) if k > 0 else d)
        else:
            return t.and_(*out, *[t.le(x, y) for x in low for y in up])
    if out:
        return t.and_(*out, t.exists(b, t.and_(*ins)))
    return t.exists(b, body)


def _affine(d, b):
    """(rest, coefficient of b) when b occurs once, outside products"""
    if d is b:
        return t.I(0) if b.sort == 'I' else t.R(0), 1
    if d.op != 'lin':
        return None, None
    for z, k in zip(d.args, d.val[1]):
        if z is b:
            r = t.sub(d, t.scale(k, b))
            if b not in t.free_vars(r):
                return r, k
    return None, None


def _integral(d):
    """an integer combination of integers"""
    if d.sort != 'I':
        return False
    if d.op == 'lin':
        return all(k == int(k) for k in d.val[1]) and d.val[0] == int(d.val[0])
    return True


def ground(cs):
    """A consequence of cs in which existentials are named and universals are
    instantiated at the terms that occur."""
    budget = [400]
    seen = {}

    def collect(x):
        stack, done = [x], set()
        while stack:
            y = stack.pop()
            if y.id in done or y.op in ('ex', 'sum'):
                continue
            done.add(y.id)
            if y.op == 'app' and y.args:
                seen.setdefault((y.val, len(y.args)), {})[y.args] = 1
            stack.extend(y.args)

    def name(c, pol):
        """existentials replaced by constants"""
        if c.op == 'not':
            return t.not_(name(c.args[0], not pol))
        if c.op in ('and', 'or'):
            f = t.and_ if c.op == 'and' else t.or_
            return f(*[name(x, pol) for x in c.args])
        if c.op == 'ex' and pol:
            b = c.args[0]
            return name(t.subst(c.args[1], {b: t.fresh(b.val.split('#')[0] + '!', b.sort)}), True)
        return c

    def candidates(b, body):
        out = {}
        stack, done = [body], set()
        while stack:
            y = stack.pop()
            if y.id in done:
                continue
            done.add(y.id)
            if b not in t.free_vars(y):
                continue
            if y.op == 'app':
                for k, x in enumerate(y.args):
                    if b is x:
                        for g in seen.get((y.val, len(y.args)), ()):
                            out[g[k]] = 1
            if y.op == '=' and y.args[0].sort in ('I', 'R'):
                d = t.sub(y.args[0], y.args[1])
                if d.op == 'lin':
                    for z, k in zip(d.args, d.val[1]):
                        if z is b and abs(k) == 1:
                            r = t.scale(-1 / k, t.sub(d, t.scale(k, b)))
                            if b not in t.free_vars(r):
                                out[r] = 1
            stack.extend(y.args)
        return list(out)

    def inst(c, pol):
        if c.op == 'not':
            return t.not_(inst(c.args[0], not pol))
        if c.op in ('and', 'or'):
            f = t.and_ if c.op == 'and' else t.or_
            return f(*[inst(x, pol) for x in c.args])
        if c.op == 'ex':
            b, body = c.args
            if pol:
                return inst(t.subst(body, {b: t.fresh(b.val.split('#')[0] + '!', b.sort)}), True)
            r = []
            bound = {y.args[0] for y in t.subterms(body) if y.op == 'ex'}
            for v in candidates(b, body):
                if t.free_vars(v) & bound:
                    continue
                budget[0] -= 1
                if budget[0] < 0:
                    break
                r.append(inst(t.subst(body, {b: v}), False))
            return t.or_(*r) if r else t.FALSE
        return c
    out = [name(c, True) for c in cs]
    for c in out:
        collect(c)
    return [inst(c, True) for c in out]


def model(conds, timeout=None):
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    for c in conds:
        s.add(tr(c))
    for a in axioms(conds):
        s.add(a)
    for b in _bg:
        s.add(b)
    if str(s.check()) == 'sat':
        return s.model()
    return None


def _relevant(pc, c):
    """Path facts connected with c (all of them; kept as a hook)."""
    return list(pc)


def decide(pc, c):
    if c.op == 'c':
        return c.val
    pcs = set(pc)
    if c in pcs:
        return True
    n = t.not_(c)
    if n in pcs:
        return False
    # cheap syntactic propagation only for conjunctions / disjunctions
    if c.op == 'and' and all(x in pcs for x in c.args):
        return True
    if c.op == 'or' and any(x in pcs for x in c.args):
        return True
    if check_sat(list(pc) + [n], 2000) == 'unsat':
        return True
    if check_sat(list(pc) + [c], 2000) == 'unsat':
        return False
    return None


# ------------------------------------------------------------------ proving
class Proof:
    __slots__ = ('ok', 'by', 'why')

    def __init__(self, ok, by, why=''):
        self.ok, self.by, self.why = ok, by, why


MAXLEAF = 4000


def conds_in(x, out, seen, bound=frozenset()):
    """Boolean atoms of ite conditions not under a binder."""
    st = [x]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op in ('sum', 'ex'):
            continue
        if y.op == 'ite' and y.sort != 'B':
            out.append(y.args[0])
            st.extend(y.args)
        else:
            st.extend(y.args)


def atoms_of(c):
    st = [c]
    while st:
        y = st.pop()
        if y.op in ('and', 'or', 'not'):
            st.extend(y.args)
        elif y.op == 'ite' and y.sort == 'B':
            st.extend(y.args)
        else:
            return_inner = None
            yield y


def assign(x, atom, val):
    """x with a Boolean atom decided; the complementary comparison follows."""
    m = {atom: t.TRUE if val else t.FALSE}
    n = t.not_(atom)
    if n.op != 'not':
        m[n] = t.FALSE if val else t.TRUE
    r = t.subst(x, m)
    if val and atom.op == '=' :
        a, b = atom.args
        if a.op == 'v' and a not in t.free_vars(b):
            r = t.subst(r, {a: b})
        elif b.op == 'v' and b not in t.free_vars(a):
            r = t.subst(r, {b: a})
        elif b.op == 'c' and a.op == 'app':
            r = t.subst(r, {a: b})
    return r


def prove(pc, cond):
    """Is cond valid under the path condition?"""
    if cond is t.TRUE:
        return Proof(True, 'trivial')
    if cond.op == '=' and cond.args[0].sort in ('R',):
        return prove_eq(pc, cond.args[0], cond.args[1])
    if cond.op == 'and':
        by = []
        for c in cond.args:
            p = prove(pc, c)
            if not p.ok:
                return p
            by.append(p.by)
        return Proof(True, '+'.join(sorted(set(by))))
    r = check_sat(list(pc) + [t.not_(cond)], 20000)
    if r == 'unsat':
        stats['smt'] += 1
        return Proof(True, 'z3')
    return Proof(False, 'z3:' + r, str(cond)[:2000])


def prove_eq(pc, a, b, depth=0, counter=None):
    """a = b for real (or integer) terms under the path condition."""
    if counter is None:
        counter = [0]
    if a is b:
        return Proof(True, 'trivial')
    counter[0] += 1
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Unsupported('time budget used up')
    if counter[0] > MAXLEAF:
        return Proof(False, 'limit', 'case split limit')
    if t.contains(a, lambda y: y.op == 'sum') or t.contains(b, lambda y: y.op == 'sum'):
        from . import sums
        p = sums.prove(pc, a, b, counter)
        if p.ok:
            return p
        if depth > 0 or True:
            return p
    if numeric.ENABLED:
        w = numeric.differs(pc, a, b)
        if w is not None:
            return Proof(False, 'numeric', 'differs at %s' % str(w)[:1500])
    cs, seen = [], set()
    conds_in(a, cs, seen)
    conds_in(b, cs, seen)
    if cs:
        # innermost atoms first: choose an atom without nested ite
        ats = []
        sa = set()
        for c in cs:
            for x in atoms_of(c):
                if x.id not in sa and x.op != 'c':
                    sa.add(x.id)
                    nested = t.contains(x, lambda y: y.op == 'ite')
                    ats.append((nested, x))
        ats.sort(key=lambda p: (p[0], p[1].id))
        at = ats[0][1]
        stats['splits'] += 1
        for val in (True, False):
            c = at if val else t.not_(at)
            if check_sat(list(pc) + [c], 3000) == 'unsat':
                continue
            a2, b2 = assign(a, at, val), assign(b, at, val)
            if a2 is a and b2 is b:
                return Proof(False, 'split', 'cannot decide %s' % at)
            p = prove_eq(tuple(pc) + (c,), a2, b2, depth + 1, counter)
            if not p.ok:
                return p
        return Proof(True, 'ring+split')
    # leaf
    a, b = reduce_bools(pc, a), reduce_bools(pc, b)
    if t.contains(a, lambda y: y.op == 'sum') or t.contains(b, lambda y: y.op == 'sum'):
        return prove_sum_eq(pc, a, b, counter)
    try:
        if poly.equal(a, b):
            stats['ring'] += 1
            return Proof(True, 'ring')
    except poly.TooBig:
        return Proof(False, 'ring', 'normal form too large')
    except ZeroDivisionError:
        return Proof(False, 'ring', 'division by an expression that is identically zero')
    # substitute equalities of the path condition
    m = {}
    for c in pc:
        if c.op == '=' and c.args[0].sort in ('R', 'I'):
            x, y = c.args
            if x.op in ('app', 'v') and y.op == 'c':
                m[x] = y
            elif x.op == 'v' and x not in t.free_vars(y):
                m[x] = y
            elif x.op == 'lin' and y.op == 'c':
                # solve for one atomic addend
                for z, k in zip(x.args, x.val[1]):
                    if z.op in ('app', 'v') and z not in m and abs(k) == 1:
                        rest = t.sub(y, t.sub(x, t.scale(k, z)))
                        if not t.contains(rest, lambda w: w is z):
                            m[z] = t.scale(1 / k, rest)
                            break
    if m:
        a2, b2 = t.subst(a, m), t.subst(b, m)
        if a2 is not a or b2 is not b:
            if poly.equal(a2, b2):
                stats['ring'] += 1
                return Proof(True, 'ring')
    try:
        d = t.eq(a, b)
        if size(d) < 400 and check_sat(list(pc) + [t.not_(d)], 3000) == 'unsat':
            stats['smt'] += 1
            return Proof(True, 'z3')
    except z3.Z3Exception:
        pass
    diff = poly.padd(poly.nf(a), poly.nf(b), -1)
    return Proof(False, 'ring', 'difference %s   under %s' % (poly.pshow(diff, 4), [str(c)[:160] for c in list(pc)[-14:]]))


def size(x, lim=2000):
    n = 0
    for _ in t.subterms(x):
        n += 1
        if n > lim:
            break
    return n


def reduce_bools(pc, x):
    return x


# ------------------------------------------------------------------ sums
def lin_parts(x):
    """x as list of (coef term, sum-or-None) by distributing products over sums."""
    out = []

    def go(y, coef):
        if y.op == 'lin':
            if y.val[0] != 0:
                out.append((t.mul(coef, t.R(y.val[0])), None))
            for c, z in zip(y.val[1], y.args):
                go(z, t.scale(c, coef))
        elif y.op == 'toR' and y.args[0].op == 'sum':
            s = y.args[0]
            out.append((coef, t.sum_(s.args[0], s.args[1], t.toR(s.args[2]))))
        elif y.op == 'sum':
            out.append((coef, y))
        elif y.op == '*':
            has = [z for z in y.args if t.contains(z, lambda w: w.op == 'sum')]
            if not has:
                out.append((t.mul(coef, y), None))
                return
            h = has[0]
            rest = coef
            done = False
            for z in y.args:
                if z is h and not done:
                    done = True
                    continue
                rest = t.mul(rest, z)
            go(h, rest)
        elif y.op == '/':
            if t.contains(y.args[0], lambda w: w.op == 'sum') and not t.contains(y.args[1], lambda w: w.op == 'sum'):
                go(y.args[0], t.div(coef, y.args[1]))
            else:
                out.append((t.mul(coef, y), None))
        else:
            out.append((t.mul(coef, y), None))
    go(x, t.R(1) if x.sort == 'R' else t.I(1))
    return out


def prove_sum_eq(pc, a, b, counter):
    d = t.sub(t.toR(a), t.toR(b))
    parts = lin_parts(d)
    groups = {}
    plain = t.R(0)
    for coef, s in parts:
        if s is None:
            plain = t.add(plain, coef)
        else:
            bs, g, body = s.args
            groups.setdefault(bs.sort, []).append((bs, g, t.mul(t.toR(body), coef)))
    if t.contains(plain, lambda y: y.op == 'sum'):
        return Proof(False, 'sum', 'sum in a non-linear position: %s' % plain)
    p = prove_eq(pc, plain, t.R(0), counter=counter)
    if not p.ok:
        return p
    by = [p.by]
    for s, gs in groups.items():
        # try: one binder, pointwise zero
        p = _pointwise(pc, s, gs, counter)
        if not p.ok:
            # cancel alpha-equal sums pairwise, then drop empty sums
            p2 = _match(pc, s, gs, counter)
            if not p2.ok:
                return p
            p = p2
        by.append(p.by)
    return Proof(True, 'sum[' + '+'.join(sorted(set(by))) + ']')


def _pointwise(pc, s, gs, counter):
    v = t.fresh('k', s)
    tot = t.R(0)
    dom = []
    for bs, g, body in gs:
        m = {bs: v}
        g2 = t.subst(g, m)
        dom.append(g2)
        tot = t.add(tot, t.ite(g2, t.subst(body, m), t.R(0)))
    return prove_eq(tuple(pc) + ((t.or_(*dom),) if t.or_(*dom) is not t.TRUE else ()), tot, t.R(0), counter=counter)


def _match(pc, s, gs, counter):
    """Sums over possibly different ranges: pair them off pointwise, greedy."""
    todo = list(gs)
    while todo:
        first = todo.pop(0)
        # a sum whose body is pointwise zero or whose domain is empty
        if _pointwise(pc, s, [first], counter).ok:
            continue
        for i, other in enumerate(todo):
            if _pointwise(pc, s, [first, other], counter).ok:
                todo.pop(i)
                break
        else:
            return Proof(False, 'sum', 'unmatched sum over {%s | %s}: %s' % (first[0], first[1], str(first[2])[:800]))
    return Proof(True, 'pairs')
