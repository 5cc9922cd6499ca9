"""Exact normal forms for real-valued terms and an exact zero test.

A normal form is a dict {monomial: Fraction}; a monomial is a sorted tuple of
(atom-id, exponent) with integer (possibly negative) exponents.  Atoms are
variables, uninterpreted applications, square roots of non-constant
polynomials, square roots of primes, and non-monomial denominators.  The zero
test clears denominators (assuming them non-zero: the definedness side
condition recorded by the caller), reduces even powers of square roots, and
accepts only the identically zero polynomial: it is a decision by ring
normalisation, not by sampling."""
from fractions import Fraction
from . import terms as t

_atoms = []            # id -> descriptor
_atom_ix = {}
_memo = {}
stats = {'zero_tests': 0, 'max_monomials': 0}


def reset():
    _atoms.clear()
    _atom_ix.clear()
    _memo.clear()
    _trig.clear()


class TooBig(Exception):
    pass


LIMIT = 400000


def atom(key, info=None):
    i = _atom_ix.get(key)
    if i is None:
        i = len(_atoms)
        _atom_ix[key] = i
        _atoms.append((key, info))
    return i


def padd(a, b, c=1):
    if len(a) < len(b) and c == 1:
        a, b = b, a
    r = dict(a)
    for m, k in b.items():
        v = r.get(m)
        if v is None:
            r[m] = k * c
        else:
            v = v + k * c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def mmul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    c = 1
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    for a in list(d):
        k = _atoms[a][0]
        if k[0] == 'sqrtp':
            e = d[a]
            if e != 1:
                q, r = divmod(e, 2)
                c *= Fraction(k[1]) ** q
                if r:
                    d[a] = 1
                else:
                    del d[a]
    return tuple(sorted(d.items())), c


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > LIMIT * 10:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, c = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2 * c
            r[m] = v
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def ppow(a, n):
    if n < 0:
        return ppow(pinv(a), -n)
    r = pconst(1)
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def key_of(a):
    return tuple(sorted(a.items()))


def content(a):
    """(rational, monomial) content of a non-zero polynomial, sign from the
    first monomial in sorted order."""
    ms = sorted(a)
    from math import gcd
    num, den = 0, 1
    for c in a.values():
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    g = Fraction(num, den)
    exps = None
    for m in ms:
        d = dict(m)
        if exps is None:
            exps = d
        else:
            exps = {x: min(exps.get(x, 0), d.get(x, 0)) for x in set(exps) | set(d)}
            exps = {x: e for x, e in exps.items() if e}
    mono = tuple(sorted((exps or {}).items()))
    # leave constant square roots in place: dividing by them is exact anyway
    return g, mono


def minv(m):
    return tuple((a, -e) for a, e in m)


def pinv(a):
    if not a:
        raise ZeroDivisionError('division by a term that is identically zero')
    if len(a) == 1:
        (m, c), = a.items()
        m2, k = _nm(minv(m))
        return {m2: Fraction(1) / c * k}
    g, mono = content(a)
    mi, k = _nm(minv(mono))
    q = pmul(a, {mi: Fraction(1) / g * k})
    lead = q[min(q)]
    s = 1
    if lead < 0:
        s = -1
        q = {m: -c for m, c in q.items()}
    at = atom(('P', key_of(q)), q)
    mm, kk = mmul(mi, ((at, -1),))
    return {mm: Fraction(s) / g * k * kk}


def _nm(m):
    d = dict(m)
    c = Fraction(1)
    for a in list(d):
        k = _atoms[a][0]
        if k[0] == 'sqrtp' and d[a] != 1:
            q, r = divmod(d[a], 2)
            c *= Fraction(k[1]) ** q
            if r:
                d[a] = 1
            else:
                del d[a]
    return tuple(sorted(d.items())), c


def _factor(n):
    f = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


_fac_memo = {}


def sqrt_const(q):
    """Normal form of sqrt(q) for a rational q >= 0."""
    q = Fraction(q)
    if q < 0:
        return {((atom(('sqrtneg', q)), 1),): Fraction(1)}
    if q == 0:
        return {}
    r = Fraction(1)
    m = {}
    for part, sgn in ((q.numerator, 1), (q.denominator, -1)):
        if part not in _fac_memo:
            _fac_memo[part] = _factor(part)
        for p, e in _fac_memo[part].items():
            r *= Fraction(p) ** (sgn * (e // 2))
            if e % 2:
                if sgn < 0:
                    r /= p
                m[atom(('sqrtp', p))] = 1
    return {tuple(sorted(m.items())): r}


_trig = {}
EXPAND_TRIG = False


def psqrt(a):
    if not a:
        return {}
    if len(a) == 1 and () in a:
        return sqrt_const(a[()])
    g, mono = content(a)
    mi, k = _nm(minv(mono))
    q = pmul(a, {mi: Fraction(1) / g * k})
    # even part of the monomial content may only come out if its base is known
    # non-negative (norms); keep it inside otherwise
    out = pconst(1)
    inside = pmul(q, pconst(1))
    for at, e in mono:
        if _atoms[at][0][0] in ('sqrt', 'pos') or _is_nonneg(at):
            h, r = divmod(e, 2)
            if h:
                out = pmul(out, {((at, h),): Fraction(1)})
            if r:
                inside = pmul(inside, {((at, 1),): Fraction(1)})
        else:
            inside = pmul(inside, {((at, e),): Fraction(1)})
    res = pmul(sqrt_const(g), out) if g > 0 else None
    if res is None:
        return {((atom(('sqrt', key_of(a)), a), 1),): Fraction(1)}
    if inside == {(): Fraction(1)}:
        return res
    return pmul(res, {((atom(('sqrt', key_of(inside)), inside), 1),): Fraction(1)})


_nonneg_atoms = set()


def declare_nonneg(term):
    """State that an atomic term is >= 0 (from a precondition)."""
    _nonneg_atoms.add(term.id)


def _is_nonneg(at):
    k, info = _atoms[at]
    return k[0] == 't' and k[1] in _nonneg_atoms


def cheb(k, th):
    """(cos k th, sin k th) as polynomials in cos th, sin th (sin^2 reduced)."""
    if (k, th) in _trig:
        return _trig[(k, th)]
    c = {((atom(('app', 'cos', th)), 1),): Fraction(1)}
    s = {((atom(('app', 'sin', th)), 1),): Fraction(1)}
    if k == 0:
        r = (pconst(1), {})
    elif k == 1:
        r = (c, s)
    else:
        cc, ss = cheb(k - 1, th)
        r = (padd(pmul(cc, c), pmul(ss, s), -1), padd(pmul(ss, c), pmul(cc, s)))
    r = (_red_sin(r[0], th), _red_sin(r[1], th))
    _trig[(k, th)] = r
    return r


def _red_sin(p, th):
    sa = atom(('app', 'sin', th))
    ca = atom(('app', 'cos', th))
    while True:
        ch = False
        r = {}
        for m, c in p.items():
            d = dict(m)
            if d.get(sa, 0) >= 2:
                ch = True
                d[sa] -= 2
                if not d[sa]:
                    del d[sa]
                m0 = tuple(sorted(d.items()))
                r[m0] = r.get(m0, 0) + c
                d[ca] = d.get(ca, 0) + 2
                m1 = tuple(sorted(d.items()))
                r[m1] = r.get(m1, 0) - c
            else:
                r[m] = r.get(m, 0) + c
        p = {m: c for m, c in r.items() if c}
        if not ch:
            return p


def nf(x):
    r = _memo.get(x.id)
    if r is not None:
        return r
    # iterative post-order for long chains
    stack = [x]
    while stack:
        y = stack[-1]
        if y.id in _memo:
            stack.pop()
            continue
        if y.op in ('lin', '*', '/', 'powi', 'toR') or (y.op == 'app' and y.args):
            todo = [a for a in y.args if a.id not in _memo and a.sort in ('I', 'R')]
            if todo:
                stack.extend(todo)
                continue
        _memo[y.id] = _nf1(y)
        stack.pop()
    return _memo[x.id]


def _nf1(x):
    o = x.op
    if o == 'c':
        return pconst(x.val)
    if o == 'lin':
        acc = {}
        if x.val[0]:
            acc[()] = x.val[0]
        for c, a in zip(x.val[1], x.args):
            for m, k in nf(a).items():
                acc[m] = acc.get(m, 0) + k * c
        return {m: k for m, k in acc.items() if k}
    if o == '*':
        fs = sorted((nf(a) for a in x.args), key=len)
        r = fs[0]
        for f in fs[1:]:
            r = pmul(r, f)
        return r
    if o == '/':
        return pmul(nf(x.args[0]), pinv(nf(x.args[1])))
    if o == 'powi':
        return ppow(nf(x.args[0]), x.val)
    if o == 'toR':
        return nf(x.args[0])
    if o == 'app':
        f = x.val
        if f == 'sqrt':
            return psqrt(nf(x.args[0]))
        if f in ('cos', 'sin'):
            a = nf(x.args[0])
            if not a:
                return pconst(1) if f == 'cos' else {}
            s = 1
            if a[min(a)] < 0:
                a = {m: -c for m, c in a.items()}
                s = -1
            if EXPAND_TRIG:
                g, mono = content(a)
                if g.denominator == 1:
                    th = key_of({m: c / g for m, c in a.items()})
                    c_, s_ = cheb(int(g), th)
                    return c_ if f == 'cos' else {m: c * s for m, c in s_.items()}
            at = atom(('app', f, key_of(a)))
            return {((at, 1),): Fraction(s if f == 'sin' else 1)}
        if f == 'abs':
            a = nf(x.args[0])
            if len(a) == 1 and () in a:
                return pconst(abs(a[()]))
            if a and a[min(a)] < 0:
                a = {m: -c for m, c in a.items()}
            return {((atom(('app', 'abs', key_of(a))), 1),): Fraction(1)}
        ks = tuple(key_of(nf(a)) if a.sort in ('I', 'R') else ('t', a.id) for a in x.args)
        return {((atom(('app', f) + ks, x), 1),): Fraction(1)}
    return {((atom(('t', x.id), x), 1),): Fraction(1)}


def is_zero_nf(p):
    stats['zero_tests'] += 1
    for _ in range(60):
        if not p:
            return True
        stats['max_monomials'] = max(stats['max_monomials'], len(p))
        # clear negative exponents
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0 and e < neg.get(a, 0):
                    neg[a] = e
        if neg:
            p = pmul(p, {tuple(sorted((a, -e) for a, e in neg.items())): Fraction(1)})
        # expand denominators that now occur with positive exponent, and even
        # powers of square roots
        changed = False
        r = {}
        for m, c in p.items():
            exp = None
            rest = []
            for a, e in m:
                k, info = _atoms[a]
                if k[0] == 'P' and e > 0:
                    f = ppow(info, e)
                    exp = f if exp is None else pmul(exp, f)
                elif k[0] == 'sqrt' and e >= 2:
                    f = ppow(info, e // 2)
                    exp = f if exp is None else pmul(exp, f)
                    if e % 2:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            if exp is None:
                r[m] = r.get(m, 0) + c
            else:
                changed = True
                for mm, cc in pmul(exp, {tuple(rest): c}).items():
                    r[mm] = r.get(mm, 0) + cc
        p = {m: c for m, c in r.items() if c}
        if not neg and not changed:
            break
    return not p


def equal(a, b):
    global EXPAND_TRIG
    if a is b:
        return True
    d = padd(nf(a), nf(b), -1)
    if is_zero_nf(d):
        return True
    if t.contains(a, lambda y: y.op == 'app' and y.val in ('cos', 'sin')) or \
       t.contains(b, lambda y: y.op == 'app' and y.val in ('cos', 'sin')):
        save = dict(_memo)
        EXPAND_TRIG = True
        _memo.clear()
        try:
            d = padd(nf(a), nf(b), -1)
            d2 = {}
            for m, c in d.items():
                d2[m] = c
            ths = {_atoms[x][0][2] for m in d2 for x, e in m if _atoms[x][0][:2] == ('app', 'sin')}
            for th in ths:
                d2 = _red_sin(d2, th)
            return is_zero_nf(d2)
        except TooBig:
            return False
        finally:
            EXPAND_TRIG = False
            _memo.clear()
            _memo.update(save)
    return False


def pshow(p, n=6):
    out = []
    for m, c in list(sorted(p.items()))[:n]:
        s = str(c)
        for a, e in m:
            k, info = _atoms[a]
            nm = ('sqrt(%s)' % k[1]) if k[0] == 'sqrtp' else (str(info) if isinstance(info, t.T) else str(k[:2])[:60])
            s += '*' + nm + ('' if e == 1 else '^%d' % e)
        out.append(s)
    return ' + '.join(out) + (' + ...[%d terms]' % len(p) if len(p) > n else '')
