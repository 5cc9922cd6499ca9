"""Quick refutation: a point at which two terms differ although the assumptions hold.

Only ever used to give up early on an obligation; never to accept one."""
import math
import random
from . import terms as t

ENABLED = False
FUN = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt, 'log': math.log, 'exp': math.exp, 'abs': abs, 'fabs': abs, 'atan2': math.atan2, 'pow': math.pow}


class Skip(Exception):
    pass


class Point:
    def __init__(self, seed, fixed):
        self.rng, self.val, self.memo = random.Random(seed), dict(fixed), {}

    def draw(self, key, sort):
        r = self.val.get(key)
        if r is None:
            if sort == 'I':
                r = self.rng.randrange(0, 6)
            elif sort == 'R':
                r = self.rng.uniform(0.05, 0.95) * self.rng.choice((1, 1, -1))
            elif sort == 'B':
                r = self.rng.random() < .5
            else:
                r = key
            self.val[key] = r
        return r

    def ev(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self.go(x)
        return r

    def go(self, x):
        o, e = x.op, self.ev
        if o == 'c':
            return float(x.val) if x.sort == 'R' else int(x.val) if x.sort == 'I' else x.val
        if o == 'v':
            return self.draw(x.id, x.sort)
        if o == 'lin':
            return float(x.val[0]) * (x.sort == 'R') + int(x.val[0]) * (x.sort != 'R') + sum((float(c) if x.sort == 'R' else c) * e(a) for c, a in zip(x.val[1], x.args))
        if o == '*':
            return math.prod(e(a) for a in x.args)
        if o == '/':
            return e(x.args[0]) / e(x.args[1])
        if o == 'powi':
            return e(x.args[0]) ** x.val
        if o == 'toR':
            return float(e(x.args[0]))
        if o == 'ite':
            return e(x.args[1]) if e(x.args[0]) else e(x.args[2])
        if o == 'and':
            return all(e(a) for a in x.args)
        if o == 'or':
            return any(e(a) for a in x.args)
        if o == 'not':
            return not e(x.args[0])
        if o == '=':
            return e(x.args[0]) == e(x.args[1])
        if o == '<':
            return e(x.args[0]) < e(x.args[1])
        if o == '<=':
            return e(x.args[0]) <= e(x.args[1])
        if o == 'app':
            if x.val == 'pi':
                return math.pi
            a = tuple(e(y) for y in x.args)
            if x.val in FUN:
                return FUN[x.val](*a)
            return self.draw((x.val,) + a, x.sort)
        raise Skip(o)


def differs(pc, a, b, tries=300):
    fixed = {}
    for c in pc:
        for z in (c.args if c.op == 'and' else (c,)):
            if z.op == '=' and z.args[1].op == 'c' and z.args[0].op in ('app', 'v') and not z.args[0].args:
                k = z.args[0]
                fixed[k.id if k.op == 'v' else (k.val,)] = float(z.args[1].val) if k.sort == 'R' else int(z.args[1].val) if k.sort == 'I' else z.args[1].val
    hits = 0
    for seed in range(tries):
        p = Point(seed, fixed)
        try:
            if not all(p.ev(c) for c in pc):
                continue
            x, y = p.ev(a), p.ev(b)
        except Skip:
            return None
        except (ArithmeticError, ValueError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        d = t.sub(a, b)
        size = max([abs(x), abs(y)] + [abs(float(c) * p.ev(z)) for c, z in zip(d.val[1], d.args)] if d.op == 'lin' else [abs(x), abs(y)])
        if abs(x - y) > 1e-6 * size:
            return {str(k): v for k, v in p.val.items()}
        hits += 1
        if hits > 3:
            return None
    return None
