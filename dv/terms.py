"""Hash-consed first-order terms: the language of verification conditions.

Sorts: 'I' mathematical integer, 'R' mathematical real, 'B' Boolean, anything
else is an uninterpreted sort (a cell, a string, an opaque library object).
Machine doubles are treated as reals; machine integers as integers (the
executor applies modular wrap-around to *constant* unsigned arithmetic)."""
from fractions import Fraction
import itertools

_table = {}
_ctr = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', '_fv', '_hv')

    def __repr__(self):
        return show(self)


def mk(op, args, sort, val=None):
    k = (op, tuple(a.id for a in args), sort, val)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.val, t.id = op, tuple(args), sort, val, next(_ctr)
        t._fv = None
        t._hv = None
        _table[k] = t
    return t


def show(t, d=0):
    if d > 12:
        return '...'
    o = t.op
    if o == 'c':
        return str(t.val)
    if o == 'v':
        return t.val
    if o == 'lin':
        c0, cs = t.val
        parts = [] if c0 == 0 else [str(c0)]
        for c, a in zip(cs, t.args):
            parts.append(show(a, d + 1) if c == 1 else '%s*%s' % (c, show(a, d + 1)))
        return '(' + ' + '.join(parts) + ')'
    if o == 'app':
        return '%s(%s)' % (t.val, ', '.join(show(a, d + 1) for a in t.args)) if t.args else str(t.val)
    if o == 'sum':
        return 'Sum{%s:%s | %s}(%s)' % (t.args[0].val, t.args[0].sort, show(t.args[1], d + 1), show(t.args[2], d + 1))
    if o == 'ex':
        return 'Exists{%s | %s}' % (t.args[0].val, show(t.args[1], d + 1))
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(show(a, d + 1) for a in t.args)
    if o in ('=', '<', '<=', '*', 'and', 'or', '/'):
        return '(' + (' %s ' % o).join(show(a, d + 1) for a in t.args) + ')'
    if o == 'powi':
        return '%s^%s' % (show(t.args[0], d + 1), t.val)
    return '%s(%s)' % (o if t.val is None else '%s:%s' % (o, t.val), ', '.join(show(a, d + 1) for a in t.args))


def const(v, sort=None):
    if isinstance(v, bool):
        return mk('c', (), 'B', v)
    if isinstance(v, str):
        return mk('c', (), sort or 'S', v)
    if sort is None:
        sort = 'I'
    return mk('c', (), sort, Fraction(v))


TRUE = const(True)
FALSE = const(False)


def I(v):
    return const(v, 'I')


def R(v):
    return const(v, 'R')


def var(name, sort):
    return mk('v', (), sort, name)


_fresh = itertools.count()


def fresh(base, sort):
    return mk('v', (), sort, '%s#%d' % (base, next(_fresh)))


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


INVERSE = {}      # names of total bijections of the integers, with the name of the inverse


LINEAR = set()     # functions linear in their first argument


def app(f, args, sort):
    h = _app_hooks.get(f)
    if h is not None:
        return h(f, tuple(args), sort)
    if f in INVERSE and args[0].op == 'app' and args[0].val == INVERSE[f]:
        return args[0].args[0]
    if f in LINEAR and args[0].op == 'c' and args[0].val == 0:
        return args[0]
    return mk('app', args, sort, f)


def is_c(t):
    return t.op == 'c'


def is_num(t):
    return t.sort in ('I', 'R')


# ---------------------------------------------------------------- arithmetic
def _aslin(t):
    if t.op == 'c':
        return t.val, {}
    if t.op == 'lin':
        return t.val[0], dict(zip(t.args, t.val[1]))
    return Fraction(0), {t: Fraction(1)}


def _mklin(c0, d, sort):
    it = [(a, c) for a, c in d.items() if c != 0]
    if not it:
        return mk('c', (), sort, c0)
    if c0 == 0 and len(it) == 1 and it[0][1] == 1:
        return it[0][0]
    it.sort(key=lambda x: x[0].id)
    return mk('lin', [a for a, c in it], sort, (c0, tuple(c for a, c in it)))


def _num(a):
    return a if isinstance(a, T) else R(a) if isinstance(a, (float,)) else I(a)


def _sort2(a, b):
    return 'R' if 'R' in (a.sort, b.sort) else 'I'


def toR(a):
    """Integer term seen as a real."""
    if a.sort == 'R':
        return a
    if a.sort == 'B':
        return ite(a, R(1), R(0))
    if a.op == 'c':
        return mk('c', (), 'R', a.val)
    if a.op == 'lin':
        return _mklin(a.val[0], {toR(x): c for x, c in zip(a.args, a.val[1])}, 'R')
    if a.op == 'ite':
        return ite(a.args[0], toR(a.args[1]), toR(a.args[2]))
    return mk('toR', (a,), 'R')


def _coerce(a, b):
    a, b = _num(a), _num(b)
    if a.sort != b.sort:
        if a.sort == 'B':
            a = toI(a)
        if b.sort == 'B':
            b = toI(b)
        if a.sort != b.sort:
            a, b = toR(a), toR(b)
    elif a.sort == 'B':
        a, b = toI(a), toI(b)
    return a, b


def toI(b):
    return b if b.sort == 'I' else ite(b, I(1), I(0))


def add(a, b):
    a, b = _coerce(a, b)
    if a.op == 'c' and b.op == 'c':
        return mk('c', (), a.sort, a.val + b.val)
    if a.op == 'c' and a.val == 0:
        return b
    if b.op == 'c' and b.val == 0:
        return a
    c1, d1 = _aslin(a)
    c2, d2 = _aslin(b)
    if len(d1) < len(d2):
        d1, d2 = d2, d1
    for k, c in d2.items():
        d1[k] = d1.get(k, 0) + c
    return _mklin(c1 + c2, d1, a.sort)


def scale(c, a):
    c = Fraction(c)
    if c == 1:
        return a
    if a.op == 'c':
        return mk('c', (), a.sort, a.val * c)
    if c == 0:
        return mk('c', (), a.sort, Fraction(0))
    c0, d = _aslin(a)
    return _mklin(c0 * c, {k: v * c for k, v in d.items()}, a.sort)


def neg(a):
    return scale(-1, _num(a))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = _coerce(a, b)
    if a.op == 'c':
        return scale(a.val, b)
    if b.op == 'c':
        return scale(b.val, a)
    c = Fraction(1)
    fs = []
    for x in (a, b):
        if x.op == 'lin' and x.val[0] == 0 and len(x.args) == 1:
            c *= x.val[1][0]
            x = x.args[0]
        if x.op == '*':
            fs.extend(x.args)
        else:
            fs.append(x)
    fs.sort(key=lambda x: x.id)
    return scale(c, mk('*', fs, a.sort))


def div(a, b):
    """Real division."""
    a, b = toR(_num(a)), toR(_num(b))
    if b.op == 'c':
        if b.val == 0:
            return mk('/', (a, b), 'R')
        return scale(1 / b.val, a)
    if a.op == 'c' and a.val == 0:
        return a          # 0/b with b != 0 (recorded as a definedness obligation)
    if a is b:
        return R(1)
    return mk('/', (a, b), 'R')


def idiv(a, b):
    """C++ integer division (truncating; operands are non-negative unless constant)."""
    a, b = _num(a), _num(b)
    if a.op == 'c' and b.op == 'c' and b.val != 0:
        q = abs(int(a.val)) // abs(int(b.val))
        return I(q if (a.val >= 0) == (b.val > 0) else -q)
    if b.op == 'c' and b.val == 1:
        return a
    if a.op == 'lin' and b.op == 'c' and b.val > 0 and all(c.denominator == 1 and c % b.val == 0 for c in a.val[1]):
        q = I(int(a.val[0]) // int(b.val))
        for c, x in zip(a.val[1], a.args):
            q = add(q, scale(c / b.val, x))
        return q
    return mk('idiv', (a, b), 'I')


def imod(a, b):
    a, b = _num(a), _num(b)
    if a.op == 'c' and b.op == 'c' and b.val != 0:
        q = abs(int(a.val)) % abs(int(b.val))
        return I(q if a.val >= 0 else -q)
    if b.op == 'c' and b.val == 1:
        return I(0)
    if a.op == 'lin' and b.op == 'c' and b.val > 0 and all(c.denominator == 1 and c % b.val == 0 for c in a.val[1]):
        return I(int(a.val[0]) % int(b.val))
    return mk('imod', (a, b), 'I')


def powi(a, n):
    """a**n for a constant integer n."""
    n = int(n)
    if n == 0:
        return mk('c', (), a.sort, Fraction(1))
    if n == 1:
        return a
    if a.op == 'c' and (a.val != 0 or n > 0):
        return mk('c', (), a.sort, a.val ** n)
    if a.op == 'powi':
        return powi(a.args[0], n * a.val)
    return mk('powi', (a,), a.sort, n)


# ------------------------------------------------------------------ booleans
def not_(a):
    if a.op == 'c':
        return FALSE if a.val else TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == '<=':
        return lt(a.args[1], a.args[0])
    if a.op == '<':
        return le(a.args[1], a.args[0])
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    return mk('not', (a,), 'B')


def and_(*xs):
    out = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x.op == 'c':
            if not x.val:
                return FALSE
            continue
        if x.op == 'and':
            st.extend(x.args[::-1])
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        if not_shallow(x) is not None and not_shallow(x).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('and', out, 'B')


def not_shallow(x):
    if x.op == 'not':
        return x.args[0]
    if x.op == '<=':
        return lt(x.args[1], x.args[0])
    if x.op == '<':
        return le(x.args[1], x.args[0])
    return mk('not', (x,), 'B') if x.op not in ('and', 'or', 'c') else None


def or_(*xs):
    out = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x.op == 'c':
            if x.val:
                return TRUE
            continue
        if x.op == 'or':
            st.extend(x.args[::-1])
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
    for x in out:
        n = not_shallow(x)
        if n is not None and n.id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return mk('or', out, 'B')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c.op == 'c':
        return a if c.val else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort != b.sort and is_num(a) and is_num(b):
        a, b = _coerce(a, b)
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b), a.sort)


COUNTERS = set()       # symbols whose value is that of a loop counter: 0 or more, and below the largest unsigned


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B' and b.sort == 'B':
        if a.op == 'c':
            return b if a.val else not_(b)
        if b.op == 'c':
            return a if b.val else not_(a)
        if a.id > b.id:
            a, b = b, a
        return mk('=', (a, b), 'B')
    if INVERSE and a.sort == 'I' and b.sort == 'I':
        if a.op == 'app' and b.op == 'app' and a.val == b.val and a.val in INVERSE:
            return eq(a.args[0], b.args[0])
        for x, y in ((a, b), (b, a)):
            if x.op == 'app' and x.val in INVERSE and x.val[-1] != '~':
                return eq(x.args[0], app(INVERSE[x.val], (y,), 'I'))
    if is_num(a) or is_num(b) or a.sort == 'B' or b.sort == 'B':
        a, b = _coerce(a, b)
        d = sub(a, b)
        if d.op == 'c':
            return TRUE if d.val == 0 else FALSE
        if d.op == 'lin':          # normalise the sign / scale
            k = d.val[1][0]
            d = scale(1 / abs(k) if k > 0 else -1 / abs(k), d)
            if d.op != 'lin':
                return mk('=', (d, mk('c', (), d.sort, Fraction(0))), 'B')
            if d.sort == 'I' and len(d.args) == 1 and d.val[0].denominator != 1:
                return FALSE
            # a == -c0 form
            if len(d.args) == 1 and d.val[1][0] == 1:
                if d.args[0].op == 'app' and d.args[0].val in COUNTERS and not 0 <= -d.val[0] < 2 ** 32 - 1:
                    return FALSE
                return mk('=', (d.args[0], mk('c', (), d.sort, -d.val[0])), 'B')
            return mk('=', (d, mk('c', (), d.sort, Fraction(0))), 'B')
        return mk('=', (d, mk('c', (), d.sort, Fraction(0))), 'B')
    if a.op == 'c' and b.op == 'c':
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('=', (a, b), 'B')


def _cmp(op, a, b):
    a, b = _coerce(a, b)
    d = sub(b, a)
    if d.op == 'c':
        return TRUE if (d.val > 0 if op == '<' else d.val >= 0) else FALSE
    if d.sort == 'I' and op == '<' and all(
            c.denominator == 1 for c in _aslin(d)[1].values()) and _aslin(d)[0].denominator == 1:
        d = sub(d, I(1))
        op = '<='
    # 0 op d ; move the constant to the left side
    c0, ds = _aslin(d)
    g = None
    for c in ds.values():
        g = abs(c) if g is None else _gcd(g, abs(c))
    lhs = mk('c', (), d.sort, -c0 / g)
    rhs = _mklin(Fraction(0), {k: c / g for k, c in ds.items()}, d.sort)
    if d.sort == 'I':
        lv = lhs.val
        if lv.denominator != 1:   # ceil
            lhs = I(-((-lv.numerator) // lv.denominator))
    if rhs.op == 'lin' and len(rhs.args) == 1 and rhs.val[1][0] == -1:
        # lhs <= -x  ==>  x <= -lhs
        return mk(op, (rhs.args[0], mk('c', (), d.sort, -lhs.val)), 'B')
    return mk(op, (lhs, rhs), 'B')


def _gcd(a, b):
    from math import gcd
    n = gcd(a.numerator * b.denominator, b.numerator * a.denominator)
    return Fraction(n, a.denominator * b.denominator)


def lt(a, b):
    return _cmp('<', a, b)


def le(a, b):
    return _cmp('<=', a, b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def iabs(a):
    if a.op == 'c':
        return mk('c', (), a.sort, abs(a.val))
    return ite(le(mk('c', (), a.sort, Fraction(0)), a), a, neg(a))


def tmax(a, b):
    a, b = _coerce(a, b)
    if a.op == 'c' and b.op == 'c':
        return a if a.val >= b.val else b
    return ite(lt(a, b), b, a)


def tmin(a, b):
    a, b = _coerce(a, b)
    if a.op == 'c' and b.op == 'c':
        return a if a.val <= b.val else b
    return ite(lt(b, a), b, a)


def sum_(binder, guard, body):
    if guard is FALSE or (body.op == 'c' and body.val == 0):
        return mk('c', (), body.sort, Fraction(0))
    return mk('sum', (binder, guard, body), body.sort)


def interval(b, dom):
    """(lo, hi) if dom says lo <= b <= hi and nothing else."""
    lo = hi = None
    for c in dom.args if dom.op == 'and' else (dom,):
        if c.op != '<=':
            return None
        d = sub(c.args[1], c.args[0])
        co = dict(zip(d.args, d.val[1])).get(b) if d.op == 'lin' else 1 if d is b else None
        if co not in (1, -1):
            return None
        rest = sub(d, scale(co, b))
        if b in free_vars(rest) or (lo if co == 1 else hi) is not None:
            return None
        if co == 1:
            lo = neg(rest)
        else:
            hi = rest
    return None if lo is None or hi is None else (lo, hi)


def exists(binder, cond):
    if cond is FALSE:
        return FALSE
    if binder not in free_vars(cond):
        # domain non-emptiness is part of cond by construction
        return cond
    return mk('ex', (binder, cond), 'B')


def forall(binder, cond):
    return not_(exists(binder, not_(cond)))


# ------------------------------------------------------------------ traversal
def free_vars(t):
    if t._fv is not None:
        return t._fv
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if a._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == 'v':
            s = frozenset((x,))
        else:
            s = frozenset().union(*[a._fv for a in x.args]) if x.args else frozenset()
            if x.op in ('sum', 'ex'):
                s = s - {x.args[0]}
        x._fv = s
        stack.pop()
    return t._fv


def rebuild(t, args):
    o = t.op
    if o == 'lin':
        r = mk('c', (), t.sort, t.val[0])
        for c, a in zip(t.val[1], args):
            r = add(r, scale(c, a))
        return r
    if o == '*':
        r = args[0]
        for a in args[1:]:
            r = mul(r, a)
        return r
    if o == '/':
        return div(*args)
    if o == 'powi':
        return powi(args[0], t.val)
    if o == 'ite':
        return ite(*args)
    if o == '=':
        return eq(*args)
    if o == '<':
        return lt(*args)
    if o == '<=':
        return le(*args)
    if o == 'not':
        return not_(*args)
    if o == 'and':
        return and_(*args)
    if o == 'or':
        return or_(*args)
    if o == 'toR':
        return toR(*args)
    if o == 'idiv':
        return idiv(*args)
    if o == 'imod':
        return imod(*args)
    if o == 'sum':
        return sum_(*args)
    if o == 'ex':
        return exists(*args)
    if o == 'app':
        return app(t.val, tuple(args), t.sort)
    return mk(o, args, t.sort, t.val)


_app_hooks = {}


def app_hook(name, f):
    """Register the constructor f(name, args, sort) of an application that is simplified when built."""
    _app_hooks[name] = f


def subst(t, m):
    """Capture-avoiding substitution (binders are globally fresh)."""
    if not m:
        return t
    memo = {}
    keys = frozenset(m)

    def go(x):
        if x in m:
            return m[x]
        if not x.args:
            return x
        if all(k.op == 'v' for k in keys) and not (free_vars(x) & keys):
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, [go(a) for a in x.args])
            memo[x] = r
        return r
    return go(t)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))
