"""Assumed contracts of the external libraries (C++ standard library, deal.II,
Trilinos): what each operation used by the repository means.  Everything used
from here is reported in the evidence as trusted."""
import re
from fractions import Fraction
from . import terms as t
from .terms import T
from .vals import *
from .access import *
from .extract import norm_type

VECS = {'TrilinosWrappers::MPI::Vector', 'Vector', 'MPI::Vector', 'LinearAlgebra::distributed::Vector', 'TrilinosWrappers::Vector'}
PATS = {'TrilinosWrappers::SparsityPattern', 'SparsityPattern', 'DynamicSparsityPattern'}
MATS = {'TrilinosWrappers::SparseMatrix', 'SparseMatrix', 'FullMatrix', 'LAPACKFullMatrix', 'LAPACKFullMatrix_'}

_pi = '3.14159265358979323846264338327950288'
PI_CONST = Fraction(_pi)


def flat(v):
    """A value as a tuple of terms (map / set key, uninterpreted argument)."""
    if isinstance(v, T):
        return (v,)
    if isinstance(v, Cx):
        return (v.re, v.im)
    if isinstance(v, Tup):
        r = ()
        for x in v.items:
            r += flat(x)
        return r
    if isinstance(v, Obj):
        return (v.term,)
    if isinstance(v, Ptr):
        r = (t.const(str(v.cell), 'S'),)
        for p in v.path:
            r += (t.const(p, 'S'),) if isinstance(p, str) else tuple(p)
        return r
    if isinstance(v, It) and v.x is not None:
        return flat(v.x)
    if isinstance(v, PIte):
        a, b = flat(v.a), flat(v.b)
        if len(a) == len(b):
            return tuple(t.ite(v.c, x, y) for x, y in zip(a, b))
    raise Unsupported('cannot use a %s as a key' % type(v).__name__)


def same_container(a, b):
    if isinstance(a, LV) and isinstance(b, LV):
        return (a.cell, a.path) == (b.cell, b.path)
    return type(a) is type(b)


class Models:
    def __init__(self, ex):
        self.iter_cmp = {}
        self.ex = ex
        self.enums = set()
        self.vector_types = VECS
        self.matrix_types = MATS
        self.pattern_types = PATS
        self.set_size = {}       # name of an index set -> its size()
        self.firsts, self.firsts_keep = {}, []
        self.ext_methods = {}     # (class name or None, method) -> handler(ex, st, lv, args, node)
        self.ext_funcs = {}       # name -> handler(ex, st, args, node)
        self.enumvals = {}
        self.pi = t.app('pi', (), 'R')

    def trust(self, what):
        self.ex.trusted[what] = self.ex.trusted.get(what, 0) + 1

    # ------------------------------------------------------------ arithmetic
    def real_to_int(self, v):
        self.trust('floating to integer conversion')
        return t.app('trunc', (v,), 'I')

    def cxmul(self, a, b):
        if isinstance(a, T):
            a, b = b, a
        if isinstance(b, T):
            b = t.toR(b)
            return Cx(t.mul(a.re, b), t.mul(a.im, b))
        return Cx(t.sub(t.mul(a.re, b.re), t.mul(a.im, b.im)), t.add(t.mul(a.re, b.im), t.mul(a.im, b.re)))

    def cxdiv(self, a, b):
        if isinstance(b, T):
            b = t.toR(b)
            self.den(b)
            a = tocx(a)
            return Cx(t.div(a.re, b), t.div(a.im, b))
        a = tocx(a)
        d = t.add(t.mul(b.re, b.re), t.mul(b.im, b.im))
        self.den(d)
        n = self.cxmul(a, Cx(b.re, t.neg(b.im)))
        return Cx(t.div(n.re, d), t.div(n.im, d))

    def den(self, x):
        if x.op != 'c':
            self.ex.denoms.append(x)

    def sqrt(self, x):
        x = t.toR(x)
        if x.op == 'c':
            v = x.val
            if v >= 0:
                from math import isqrt
                a, b = isqrt(v.numerator), isqrt(v.denominator)
                if a * a == v.numerator and b * b == v.denominator:
                    return t.R(Fraction(a, b))
        return t.app('sqrt', (x,), 'R')

    def cos(self, x):
        if x.op == 'c' and x.val == 0:
            return t.R(1)
        return t.app('cos', (t.toR(x),), 'R')

    def sin(self, x):
        if x.op == 'c' and x.val == 0:
            return t.R(0)
        return t.app('sin', (t.toR(x),), 'R')

    def cexp(self, z):
        e = t.R(1) if (z.re.op == 'c' and z.re.val == 0) else t.app('exp', (z.re,), 'R')
        return Cx(t.mul(e, self.cos(z.im)), t.mul(e, self.sin(z.im)))

    def pow(self, a, b):
        if isinstance(a, Cx):
            if isinstance(b, T) and b.op == 'c' and b.val.denominator == 1 and 0 <= b.val <= 60:
                r = Cx(t.R(1), t.R(0))
                for _ in range(int(b.val)):
                    r = self.cxmul(r, a)
                return r
            if isinstance(b, T) and b.op == 'c' and b.val.denominator == 1 and -60 <= b.val < 0:
                return self.cxdiv(Cx(t.R(1), t.R(0)), self.pow(a, t.I(-int(b.val))))
            raise Unsupported('complex pow')
        a = t.toR(a)
        if b.op == 'c' and b.val.denominator == 1:
            n = int(b.val)
            if n < 0 and a.op != 'c':
                self.den(a)
            if n < 0:
                return t.div(t.R(1), t.powi(a, -n)) if a.op != 'c' else t.R(a.val ** n)
            return t.powi(a, n)
        if b.op == 'c' and b.val == Fraction(1, 2):
            return self.sqrt(a)
        if a.op == 'c' and a.val == -1 and b.sort in 'IR':
            return t.app('powm1', (b,), 'R')
        return t.app('pow', (a, t.toR(b)), 'R')

    def abs(self, a):
        if isinstance(a, Cx):
            return self.sqrt(t.add(t.mul(a.re, a.re), t.mul(a.im, a.im)))
        return t.iabs(a)

    def dot(self, a, b):
        r = t.R(0)
        for x, y in zip(a.items, b.items):
            r = t.add(r, t.mul(x, y))
        return r

    def tadd(self, a, b, s=1):
        if isinstance(a, Tup):
            return Tup([self.tadd(x, y, s) for x, y in zip(a.items, b.items)])
        return t.add(a, b) if s > 0 else t.sub(a, b)

    def tscale(self, a, c):
        if isinstance(a, Tup):
            return Tup([self.tscale(x, c) for x in a.items])
        return t.mul(a, c)

    def tdiv(self, a, c):
        if isinstance(a, Tup):
            return Tup([self.tdiv(x, c) for x in a.items])
        return t.div(a, c)

    # ------------------------------------------------------------ globals
    def enum_const(self, n, ref):
        return t.I(self.enum_value(ref['name'], n.type, ref))

    def enum_value(self, name, ty, ref):
        v = self.enumvals.get(name)
        if v is None:
            v = len(self.enumvals) + 1000     # distinct values: only compared
            self.enumvals[name] = v
        return v

    def global_value(self, ex, st, cls, name, decl, node):
        h = ex.hooks.get('global')
        if h:
            v = h(ex, st, cls, name, decl, node)
            if v is not None:
                return v
        if name == 'PI':
            return self.pi
        if decl is not None and decl.inner and decl.inner[0].kind != 'Null':
            ty = norm_type(decl.type)
            if 'const' in ty.split() or True:
                from .exec import Frame
                fr = Frame(0, None, None, None)
                return ex.rv(st, ex.ev(decl.inner[0], st, fr))
        ty = norm_type(node.type or (decl.type if decl is not None else ''))
        if name in ('invalid_unsigned_int',):
            return t.I(4294967295)
        return ex.mk_sym(ty, 'global.' + name)

    # ------------------------------------------------------------ initialisation
    def init_list(self, n, st, fr):
        ex = self.ex
        ty = n.type
        from .exec import strip, ptype
        x = strip(ty)
        vals = [ex.rv(st, ex.ev(c, st, fr)) for c in n.inner]
        if ex.sort_of(x) is not None:
            return vals[0] if vals else ex.default_value(x, st)
        m = re.match(r'^(.*)\[(\d+)\]$', x)
        if m:
            d = ex.default_value(m.group(1), st) if len(vals) < int(m.group(2)) else None
            return Tup(vals + [d] * (int(m.group(2)) - len(vals)))
        nm, a = ptype(x)
        if nm == 'initializer_list':
            return Tup(vals)
        if nm in ('array',):
            if len(vals) == 1 and isinstance(vals[0], Tup):
                return vals[0]
            return Tup(vals)
        if nm in ('pair', 'tuple'):
            return Tup(vals)
        if nm == 'complex':
            return Cx(vals[0], vals[1] if len(vals) > 1 else t.R(0))
        if x in ex.prog.records:
            names = list(ex.prog.records[x])
            if len(vals) == 1 and isinstance(vals[0], Struct):
                return vals[0]
            return Struct(x, dict(zip(names, vals)), lambda k: ex.default_value(ex.field_type(x, k), st))
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return ex.default_value(x, st)
        raise Unsupported('initialiser list for %s' % x)

    def construct(self, n, st, fr):
        ex = self.ex
        from .exec import strip, ptype, is_ptr, DEFAULT
        x = strip(n.type)
        x = ex.alias.get(x, x)
        nm, a = ptype(x)
        args = ex.args(n.inner, st, fr)
        if x in ex.prog.records and (ex.prog.records[x] or (x, nm.split('::')[-1]) in ex.prog.funcs) and (nm, '#ctor') not in self.ext_methods:
            return ex.construct_repo(st, x, n.a.get('ctorType') or '', args, n)
        vals = [ex.rv(st, v) for v in args]
        h = self.ext_methods.get((nm, '#ctor'))
        if h:
            return h(ex, st, n, vals)
        if nm == 'complex':
            if not vals:
                return Cx(t.R(0), t.R(0))
            if len(vals) == 1:
                return tocx(vals[0])
            return Cx(t.toR(vals[0]), t.toR(vals[1]))
        if nm == 'Point' or nm == 'Tensor':
            if not vals:
                return ex.default_value(x, st)
            if len(vals) == 1 and isinstance(vals[0], Tup):
                return vals[0]
            d = int(a[0]) if nm == 'Point' else int(a[1])
            if len(vals) == d:
                return Tup([t.toR(v) for v in vals])
            raise Unsupported('construct %s' % x)
        if nm in ('unique_ptr', 'shared_ptr', 'SmartPointer'):
            return vals[0] if vals else NULL
        if nm.split('::')[-1] == 'blocked_range' and len(vals) >= 2:
            return Struct('blocked_range', {'begin': vals[0], 'end': vals[1]})
        if nm.split('::')[-1] == 'blocked_range' and len(vals) == 1 and isinstance(vals[0], Struct):
            return vals[0]
        if nm in ('vector', 'deque') or nm in VECS:
            et = a[0] if nm in ('vector', 'deque') else 'double'
            if not vals:
                return Vec(et, t.I(0), ex.arr_default(et, st))
            if isinstance(vals[0], Vec):
                return vals[0]
            if isinstance(vals[0], Tup):
                v = Vec(et, t.I(len(vals[0].items)), Arr(et, lambda k: ex.default_value(et, st)))
                for i, y in enumerate(vals[0].items):
                    v = vset(v, ((t.I(i),),), y)
                return v
            if isinstance(vals[0], T) and vals[0].sort == 'I':
                if len(vals) > 1 and not isinstance(vals[1], Obj):
                    y = vals[1]
                    return Vec(et, vals[0], Arr(et, lambda k: y))
                return Vec(et, vals[0], ex.arr_default(et, st))
            if isinstance(vals[0], It) and vals[0].kind == 'pos':
                a, b = vals[:2]
                if not (isinstance(b, It) and b.kind == 'pos' and isinstance(a.c, LV) and isinstance(b.c, LV) and (a.c.cell, a.c.path) == (b.c.cell, b.c.path)):
                    raise Unsupported('vector from a range')
                w = ex.read(st, a.c)
                if et != w.et and not {et, w.et} <= {'int', 'unsigned int', 'double', 'float', 'types::global_dof_index'}:
                    raise Unsupported('vector from a range of another type')
                real = t.toR if et in ('double', 'float') and w.et not in ('double', 'float') else (lambda y: y)
                return Vec(et, t.sub(b.x, a.x), Arr(et, lambda k: real(vget(w, ((t.add(a.x, k[0]),),)))))
            if nm in VECS:      # from an IndexSet (+ communicator): zero vector of its global size
                sz = self.indexset_size(st, vals[0])
                return Vec('double', sz, Arr('double', lambda k: t.R(0)))
            raise Unsupported('construct %s from %s' % (x, [type(v).__name__ for v in vals]))
        if nm in ('set', 'map', 'IndexSet', 'unordered_map', 'unordered_set'):
            if not vals:
                return ex.default_value(x, st)
            if isinstance(vals[0], (SetV, MapV)):
                return vals[0]
            if nm == 'IndexSet':
                s = ex.default_value(x, st)
                return SetV(s.et, s.chi, s.name)
            raise Unsupported('construct %s' % x)
        if nm in ('pair', 'tuple'):
            if not vals:
                return ex.default_value(x, st)
            if len(vals) == 1 and isinstance(vals[0], Tup):
                return vals[0]
            return Tup(vals)
        if nm == 'string':
            if vals and isinstance(vals[0], T):
                return vals[0]
            return t.const('', 'S')
        if nm in MATS:
            if not vals:
                return ex.default_value(x, st)
            if isinstance(vals[0], Struct):
                return vals[0]
            if all(isinstance(v, T) for v in vals):
                m = vals[0]
                nn = vals[1] if len(vals) > 1 else vals[0]
                return Struct(nm, {'m': m, 'n': nn, 'a': Arr('double', lambda k: t.R(0))})
        if nm in ('allocator', 'less', 'equal_to'):
            return VOID
        if nm == 'array' and len(vals) <= 1:
            if not vals:
                return ex.default_value(x, st)
            if isinstance(vals[0], Tup):
                return vals[0]
        if nm in ('function',):
            return args[0] if args else NULL
        if len(vals) == 1 and isinstance(vals[0], (Obj, It, Lam, Bind, Fn)):
            return vals[0]
        if not vals:
            return ex.default_value(x, st)
        # opaque object determined by its constructor arguments
        self.trust('%s constructor' % nm)
        try:
            ts = ()
            for v in vals:
                ts += flat(v) if not isinstance(v, (Vec, SetV, MapV, Struct)) else ()
        except Unsupported:
            ts = ()
        return Obj(x, t.app('new:' + nm, ts, 'Obj:' + nm))

    def indexset_size(self, st, v):
        if isinstance(v, SetV):
            if v.name in self.set_size:
                return self.set_size[v.name]
            return t.app('is.size', (t.const(str(v.name), 'S'),), 'I')
        return t.app('sz', (), 'I')

    # ------------------------------------------------------------ free calls
    def free_call(self, n, st, fr, f):
        ex = self.ex
        name = f.name
        from .exec import Throw, strip, ptype
        if name in ('issue_error_noreturn', '__throw_bad_alloc', 'abort', 'exit', 'terminate', '__assert_fail'):
            raise Throw()
        if name in ('issue_error_nothrow',):
            return VOID
        h = self.ext_funcs.get(name)
        if h is not None:
            r = h(ex, st, ex.args(n.inner[1:], st, fr), n)
            if r is not NotImplemented:
                return r
        if name == '__builtin_expect':
            return ex.rv(st, ex.ev(n.inner[1], st, fr))
        args = ex.args(n.inner[1:], st, fr)
        vals = [ex.rv(st, a) for a in args]
        if name in ('sqrt',):
            if isinstance(vals[0], Cx):
                raise Unsupported('complex sqrt')
            ex_pos = vals[0]
            return self.sqrt(vals[0])
        if name in ('cos', 'sin'):
            return getattr(self, name)(vals[0])
        if name == 'pow' or name == 'fixed_power' or name == '__pow':
            return self.pow(vals[0], vals[1])
        if name == 'exp':
            if isinstance(vals[0], Cx):
                return self.cexp(vals[0])
            v = t.toR(vals[0])
            return t.R(1) if v.op == 'c' and v.val == 0 else t.app('exp', (v,), 'R')
        if name in ('log', 'tan', 'acos', 'asin', 'atan', 'floor', 'ceil', 'round', 'log10', 'tanh', 'log2'):
            return t.app(name, (t.toR(vals[0]),), 'R')
        if name == 'atan2':
            return t.app('atan2', (t.toR(vals[0]), t.toR(vals[1])), 'R')
        if name in ('fabs', 'abs'):
            return self.abs(vals[0])
        if name in ('max', 'min'):
            g = t.tmax if name == 'max' else t.tmin
            return g(vals[0], vals[1])
        if name == 'real':
            return vals[0].re if isinstance(vals[0], Cx) else vals[0]
        if name == 'imag':
            return vals[0].im if isinstance(vals[0], Cx) else t.R(0)
        if name == 'conj':
            return Cx(vals[0].re, t.neg(vals[0].im)) if isinstance(vals[0], Cx) else tocx(vals[0])
        if name == 'norm':
            v = vals[0]
            return t.add(t.mul(v.re, v.re), t.mul(v.im, v.im)) if isinstance(v, Cx) else t.mul(v, v)
        if name == 'arg':
            return t.app('atan2', (vals[0].im, vals[0].re), 'R')
        if name == 'polar':
            return Cx(t.mul(vals[0], self.cos(vals[1])), t.mul(vals[0], self.sin(vals[1])))
        if name == 'isnan' or name == 'isinf':
            return t.FALSE
        if name in ('isfinite', 'is_finite'):
            return t.TRUE
        if name in ('move', 'forward', 'addressof', 'ref', 'cref', 'as_const'):
            if name == 'addressof':
                return Ptr(args[0].cell, args[0].path)
            return args[0]
        if name == 'swap':
            a, b = vals
            ex.write(st, args[0], b)
            ex.write(st, args[1], a)
            return VOID
        if name == 'memcpy' or name == 'memmove':
            return self.memcpy(st, vals, n)
        if name == 'memset':
            raise Unsupported('memset')
        if name == 'make_pair' or name == 'make_tuple':
            return Tup(vals)
        if name == 'get':
            m = re.search(r'\b(\d+)', str(n.inner[0].a.get('targs') or ''))
            raise Unsupported('std::get')
        if name in ('make_unique', 'make_shared'):
            ty = norm_type(n.type)
            et = ptype(ty)[1][0]
            c = ex.new_cell('h')
            if ex.prog.records.get(et):
                nm = ptype(et)[0].split('::')[-1]
                cs = [g for g in ex.prog.find(et, nm, nparams=len(args)) if g.body is not None]
                if cs and len(cs) == 1:
                    lv = LV(c)
                    st.store[c] = Struct(et, {}, lambda k: ex.field_default(et, k, st))
                    ex.call(st, cs[0], lv, args, n)
                    return Ptr(c, ())
                if not args:
                    st.store[c] = ex.default_value(et, st)
                    return Ptr(c, ())
            self.trust('make_unique<%s>' % et)
            st.store[c] = Obj(et, t.app('new:' + ptype(et)[0], sum((flat(v) for v in vals if not isinstance(v, (Vec, SetV, MapV, Struct))), ()), 'Obj:' + ptype(et)[0]))
            return Ptr(c, ())
        if name in ('copy',) and len(vals) == 3:
            return self.std_copy(st, vals, n)
        if name == 'fill' and len(vals) == 3:
            return self.std_fill(st, vals, n)
        if name == 'cross_product_3d':
            a, b = vals[0].items, vals[1].items
            return Tup([t.sub(t.mul(a[1], b[2]), t.mul(a[2], b[1])), t.sub(t.mul(a[2], b[0]), t.mul(a[0], b[2])),
                        t.sub(t.mul(a[0], b[1]), t.mul(a[1], b[0]))])
        if name == 'scalar_product':
            return self.dot(vals[0], vals[1])
        if name == 'bind':
            bs = []
            for a, nd in zip(args[1:], n.inner[2:]):
                m = self.placeholder(nd)
                bs.append(('ph', m) if m else a)
            return Bind(args[0] if not isinstance(args[0], LV) else ex.read(st, args[0]), bs)
        if name == 'to_string' or name == 'int_to_string':
            if isinstance(vals[0], T) and vals[0].op == 'c' and vals[0].sort == 'I' and len(vals) == 1:
                return t.const(str(int(vals[0].val)), 'S')
            return t.app('tostr', flat(vals[0]), 'S')
        if name in ('this_mpi_process', 'n_mpi_processes'):
            return t.app(name, (), 'I')
        if name in ('n_threads',):
            return t.app(name, (), 'I')
        if name == 'distance' and len(args) == 2:
            x, y = ex.rv(st, args[0]), ex.rv(st, args[1])
            if isinstance(x, It) and isinstance(y, It) and x.kind == y.kind == 'pos' and isinstance(x.c, LV) and isinstance(y.c, LV) and (x.c.cell, x.c.path) == (y.c.cell, y.c.path):
                return t.sub(y.x, x.x)
        if name in ('max_element', 'min_element') and len(args) == 2 and 'vecnorm' in ex.hooks:
            x, y = ex.rv(st, args[0]), ex.rv(st, args[1])
            if isinstance(x, It) and isinstance(y, It) and isinstance(x.c, LV) and isinstance(y.c, LV) and (x.c.cell, x.c.path) == (y.c.cell, y.c.path):
                v = ex.read(st, x.c)
                if x.kind == y.kind == 'pos' and isinstance(v, Vec) and x.x == t.I(0) and t.eq(y.x, v.size) == t.TRUE:
                    return It('el', x.c, ex.hooks['vecnorm'](ex, st, v, name), 'set')
        if name == 'run' and len(args) >= 6:
            return self.workstream(st, fr, args, n)
        if name == 'parallel_for' and len(args) == 2:
            from . import loops
            return loops.parallel_for(ex, st, fr, args, n)
        h = ex.hooks.get('free')
        if h is not None:
            r = h(ex, st, name, args, n)
            if r is not NotImplemented:
                return r
        raise Unsupported('call of %s (line %s)' % (name, n.a.get('line')))

    def placeholder(self, nd):
        st = [nd]
        while st:
            x = st.pop()
            r = x.a.get('ref')
            if r and re.match(r'^_\d+$', r.get('name') or ''):
                return int(r['name'][1:])
            st.extend(x.inner)
        return None

    def memcpy(self, st, vals, n):
        ex = self.ex
        d, s, nb = vals
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise Unsupported('memcpy operands')
        if nb.op != 'c':
            raise Unsupported('memcpy of symbolic length')
        if d.cell is None or s.cell is None:
            from .exec import Violated
            raise Violated('memory', 'memcpy with a null pointer')
        sv = st.store.get(s.cell)
        el = None
        v0 = ex.read(st, LV(d.cell, d.path)) if not (isinstance(st.store.get(d.cell), Vec) and st.store[d.cell].size is t.I(0)) else None
        esz = 16 if isinstance(v0, Cx) else 8
        cnt = int(nb.val) // esz
        if nb.val % esz:
            raise Unsupported('memcpy of a partial element (%s bytes of %d-byte elements)' % (nb.val, esz))
        for i in range(cnt):
            src = LV(s.cell, s.path[:-1] + ((t.add(s.path[-1][0], t.I(i)),),))
            dst = LV(d.cell, d.path[:-1] + ((t.add(d.path[-1][0], t.I(i)),),))
            ex.bounds(st, src, n)
            ex.bounds(st, dst, n)
            ex.write(st, dst, ex.read(st, src))
        return d

    def std_copy(self, st, vals, n):
        ex = self.ex
        b, e, o = vals
        if isinstance(b, Ptr) and isinstance(e, Ptr) and isinstance(o, Ptr) and b.cell == e.cell:
            k = t.sub(e.path[-1][0], b.path[-1][0])
            if k.op != 'c':
                raise Unsupported('std::copy of symbolic length')
            for i in range(int(k.val)):
                src = LV(b.cell, b.path[:-1] + ((t.add(b.path[-1][0], t.I(i)),),))
                dst = LV(o.cell, o.path[:-1] + ((t.add(o.path[-1][0], t.I(i)),),))
                ex.bounds(st, src, n)
                ex.bounds(st, dst, n)
                ex.write(st, dst, ex.read(st, src))
            return Ptr(o.cell, o.path[:-1] + ((t.add(o.path[-1][0], k),),))
        raise Unsupported('std::copy')

    def std_fill(self, st, vals, n):
        ex = self.ex
        b, e, v = vals
        if isinstance(b, Ptr) and isinstance(e, Ptr):
            k = t.sub(e.path[-1][0], b.path[-1][0])
            if k.op == 'c':
                for i in range(int(k.val)):
                    ex.write(st, LV(b.cell, b.path[:-1] + ((t.add(b.path[-1][0], t.I(i)),),)), v)
                return VOID
        if isinstance(b, It) and b.kind == 'pos' and b.x is t.I(0) and isinstance(e, It):
            c = b.c
            old = ex.read(st, c)
            if isinstance(old, Vec) and e.x is vget(old, ('#size',)):
                ex.write(st, c, Vec(old.et, old.size, Arr(old.et, lambda k: v)))
                return VOID
        raise Unsupported('std::fill')

    def workstream(self, st, fr, args, n):
        h = self.ex.hooks.get('workstream')
        if h:
            return h(self.ex, st, fr, args, n)
        from . import loops
        return loops.workstream(self.ex, st, fr, args, n)

    # ------------------------------------------------------------ iterators
    def deref(self, st, it):
        ex = self.ex
        if it.ck == 'vec':
            return LV(it.c.cell, it.c.path + ((it.x,),))
        if it.ck == 'map':
            return LV(it.c.cell, it.c.path + ('#el', flat(it.x)))
        if it.ck == 'set':
            if it.kind == 'begin':
                return ex.tmp(st, self.set_first(st, ex.read(st, it.c)))
            if it.kind == 'rbegin':
                return ex.tmp(st, self.set_first(st, ex.read(st, it.c), last=True))
            return ex.tmp(st, it.x)
        if it.ck == 'cells':
            return it
        raise Unsupported('dereference of iterator %s' % it)

    def set_first(self, st, v, last=False):
        """The smallest (largest) element of a (non-empty) set; asking for it requires one."""
        ends = ('greatest', 'last') if last else ('least', 'first')
        m = self.firsts.get((id(v.chi), last))
        if m is None:
            from . import smt
            srt = self.el_sort(v.et)
            p = t.var('probe!', srt)
            g = vget(v, ((p,),))
            fv = sorted((x for x in t.free_vars(g) if x is not p and '#' in str(x.val)), key=lambda x: x.id)
            if v.name and isinstance(v.chi, Arr) and not fv:
                m = t.app(ends[0] + ':' + v.name, (), srt)
            else:
                m = t.app('%s!%d' % (ends[0], g.id), tuple(fv), srt)
            if srt == 'I' and not any(x.sort == 'Tok' for x in fv):
                smt.define(m.val, fv, t.implies(t.exists(p, g), t.and_(t.subst(g, {p: m}), t.forall(p, t.implies(g, t.le(p, m) if last else t.le(m, p))))))
            self.firsts[id(v.chi), last] = m
            self.firsts_keep.append(v.chi)
        st.assume(vget(v, ((m,),)))
        self.trust('the %s element of a set (precondition: not empty) is its %s element' % ends[::-1])
        return m

    def it_eq(self, a, b):
        if isinstance(a, It) and isinstance(b, It):
            if a.ck in ('vec', 'cells') and a.x is not None and b.x is not None:
                return t.eq(a.x, b.x)
            if b.kind == 'end' and a.kind == 'find':
                return t.not_(a.c2)
            if a.kind == 'end' and b.kind == 'find':
                return t.not_(b.c2)
            if a.ck == b.ck and {a.kind, b.kind} <= {'begin', 'end', 'bnd'}:
                if b.kind == 'begin' or a.kind == 'end':
                    a, b = b, a
                if not same_container(a.c, b.c):
                    raise Unsupported('comparison of iterators of different containers')
                e = t.fresh('empty', 'B')
                self.iter_cmp[e] = (a, b)
                return e
        raise Unsupported('iterator comparison %s %s' % (a, b))

    def it_inc(self, st, v, d):
        if isinstance(v, It) and v.kind == 'pos' and v.ck in ('vec', 'cells'):
            return It('pos', v.c, t.add(v.x, t.I(d)), v.ck)
        if isinstance(v, It) and v.kind in ('begin', 'el', 'bnd') and d == 1:
            return It('next', v.c, None, v.ck)
        raise Unsupported('increment of %s' % (v,))

    def range_for(self, n, st, fr, rlv, var, body):
        from . import loops
        return loops.range_for(self.ex, n, st, fr, rlv, var, body)

    # ------------------------------------------------------------ methods
    def ckind(self, v):
        return 'vec' if isinstance(v, (Vec, Tup)) else 'set' if isinstance(v, SetV) else 'map' if isinstance(v, MapV) else None

    def method_call(self, n, st, fr, cls, name, lv, const_obj, argn):
        ex = self.ex
        from .exec import ptype, Throw, strip
        nm = ptype(cls)[0]
        h = self.ext_methods.get((nm, name)) or self.ext_methods.get((None, name))
        if h is not None:
            args = ex.args(argn, st, fr)
            r = h(ex, st, lv, args, n)
            if r is not NotImplemented:
                return r
        else:
            args = ex.args(argn, st, fr)
        v = ex.read(st, lv)
        if isinstance(v, (Ptr, PIte)) and nm in ('unique_ptr', 'shared_ptr', 'SmartPointer'):
            if name == 'get':
                return v
            if name == 'reset':
                hk = ex.hooks.get('delete')
                if hk:
                    hk(ex, st, v, n)
                ex.write(st, lv, ex.rv(st, args[0]) if args else NULL)
                return VOID
            if name == 'release':
                ex.write(st, lv, NULL)
                return v
            if name == 'operator bool':
                return ex.notnull(v)
        if isinstance(v, T) and name.startswith('operator '):
            return v
        if isinstance(v, Cx):
            if name == 'real':
                return v.re
            if name == 'imag':
                return v.im
        av = None

        def vals():
            return [ex.rv(st, a) for a in args]
        if isinstance(v, Tup):
            if name in ('square', 'norm_square'):
                return self.dot(v, v) if not isinstance(v.items[0], Tup) else self._frob(v)
            if name == 'norm':
                return self.sqrt(self.dot(v, v))
            if name in ('distance', 'distance_square'):
                d = self.tadd(v, vals()[0], -1)
                q = self.dot(d, d)
                return self.sqrt(q) if name == 'distance' else q
            if name in ('operator()', 'operator[]', 'at'):
                return LV(lv.cell, lv.path + ((vals()[0],),))
            if name == 'clear':
                ex.write(st, lv, self.tscale(v, t.R(0)))
                return VOID
            if name == 'size':
                return t.I(len(v.items))
            if name == 'fill':
                ex.write(st, lv, Tup([vals()[0]] * len(v.items)))
                return VOID
            if name == 'begin':
                return It('pos', lv, t.I(0), 'vec')
            if name == 'end':
                return It('pos', lv, t.I(len(v.items)), 'vec')
            if name == 'data':
                return Ptr(lv.cell, lv.path + ((t.I(0),),))
        if isinstance(v, Vec):
            r = self.vec_method(n, st, lv, v, nm, name, args, vals)
            if r is not NotImplemented:
                return r
        if isinstance(v, SetV):
            r = self.set_method(n, st, lv, v, nm, name, args, vals)
            if r is not NotImplemented:
                return r
        if isinstance(v, MapV):
            r = self.map_method(n, st, lv, v, nm, name, args, vals)
            if r is not NotImplemented:
                return r
        if isinstance(v, Struct) and v.cls == 'blocked_range' and name in ('begin', 'end'):
            return v.get(name)
        if isinstance(v, Struct) and nm in PATS:
            r = self.pat_method(n, st, lv, v, nm, name, args, vals)
            if r is not NotImplemented:
                return r
        if isinstance(v, Struct) and nm in MATS:
            r = self.mat_method(n, st, lv, v, nm, name, args, vals)
            if r is not NotImplemented:
                return r
        from . import fem
        r = fem.method(self, n, st, nm, name, lv, v, args)
        if r is not NotImplemented:
            return r
        h = ex.hooks.get('method')
        if h is not None:
            r = h(ex, st, nm, name, lv, v, args, n)
            if r is not NotImplemented:
                return r
        if isinstance(v, Obj):
            return self.opaque(n, st, lv, v, nm, name, args, const_obj)
        raise Unsupported('method %s::%s on %s (line %s)' % (nm, name, type(v).__name__, n.a.get('line')))

    def _frob(self, v):
        r = t.R(0)
        for x in v.items:
            r = t.add(r, self.dot(x, x))
        return r

    def opaque(self, n, st, lv, v, nm, name, args, const_obj):
        """Pure const method of an external class: an uninterpreted function."""
        ex = self.ex
        if nm in ('ConditionalOStream', 'ostream', 'TimerOutput', 'Timer', 'basic_ostream', 'LogStream', 'ofstream', 'basic_ofstream'):
            return lv
        mty = n.inner[0]
        if name.startswith('operator '):
            return v
        if const_obj:
            ks = (v.term,)
            for a in args:
                ks += flat(ex.rv(st, a))
            self.trust('%s::%s' % (nm, name))
            return ex.mk_sym(n.type, '%s.%s' % (nm, name), ks)
        raise Unsupported('method %s::%s (line %s)' % (nm, name, n.a.get('line')))

    def vec_method(self, n, st, lv, v, nm, name, args, vals):
        ex = self.ex
        if name in ('size', 'n', 'm', 'local_size', 'locally_owned_size'):
            return vget(v, ('#size',))
        if name == 'empty':
            return t.eq(vget(v, ('#size',)), t.I(0))
        if name in ('operator[]', 'operator()', 'at', 'local_element'):
            k = vals()[0]
            r = LV(lv.cell, lv.path + ((k,),))
            ex.bounds(st, r, n)
            return r
        if name in ('push_back', 'emplace_back'):
            x = vals()[0] if args else ex.default_value(v.et, st)
            if len(args) > 1:
                raise Unsupported('emplace_back')
            if v.pieces is None and v.size is not None and v.size.op == 'c':
                ex.write(st, lv, vpush(v, x, t.TRUE))
            else:
                ex.write(st, lv, x, 'push')
            return VOID
        if name == 'clear':
            ex.write(st, lv, Vec(v.et, t.I(0), ex.arr_default(v.et, st)))
            return VOID
        if name == 'reserve' or name == 'shrink_to_fit':
            return VOID
        if name == 'resize':
            a = vals()
            k = a[0]
            if nm in ('vector', 'deque'):
                fillv = a[1] if len(a) > 1 else None
                df = (lambda kk: fillv) if fillv is not None else ex.arr_default(v.et, st).base
                if v.pieces is None and v.size is t.I(0):
                    ex.write(st, lv, Vec(v.et, k, Arr(v.et, df)))
                    return VOID
                old = v
                if v.pieces is None:
                    osz = v.size
                    base = (lambda kk: vite(t.lt(kk[0], osz), vget(old.data, (kk,)), df(kk)))
                    if k.op == 'c' and osz.op == 'c':
                        if k.val <= osz.val:
                            ex.write(st, lv, Vec(v.et, k, v.data))
                            return VOID
                    elif t.eq(k, osz) is t.TRUE:
                        return VOID
                    ex.write(st, lv, Vec(v.et, k, Arr(v.et, base)))
                    return VOID
                if k.op == 'c' and k.val == 0:
                    ex.write(st, lv, Vec(v.et, t.I(0), ex.arr_default(v.et, st)))
                    return VOID
            raise Unsupported('resize')
        if name == 'assign' and len(args) == 2:
            a = vals()
            x = a[1]
            ex.write(st, lv, Vec(v.et, a[0], Arr(v.et, lambda k: x)))
            return VOID
        if name in ('begin', 'cbegin'):
            return It('pos', lv, t.I(0), 'vec')
        if name in ('end', 'cend'):
            return It('pos', lv, vget(v, ('#size',)), 'vec')
        if name == 'back':
            if has_back(v):
                return LV(lv.cell, lv.path + ('#back',))
            return LV(lv.cell, lv.path + ((t.sub(vget(v, ('#size',)), t.I(1)),),))
        if name == 'front':
            return LV(lv.cell, lv.path + ((t.I(0),),))
        if name == 'data':
            return Ptr(lv.cell, lv.path + ((t.I(0),),))
        if name == 'swap':
            o = args[0]
            b = ex.read(st, o)
            ex.write(st, lv, b)
            ex.write(st, o, v)
            return VOID
        if nm in VECS:
            return self.la_vector(n, st, lv, v, nm, name, args, vals)
        return NotImplemented

    # linear algebra vectors: values as functions of the global index
    def pw(self, f, *vs):
        return Arr('double', lambda k: f(*[vget(x.data, (k,)) for x in vs]))

    def la_vector(self, n, st, lv, v, nm, name, args, vals):
        ex = self.ex
        if name in ('compress', 'update_ghost_values', 'collect_sizes'):
            return VOID
        a = vals()
        if name == 'reinit':
            if isinstance(a[0], Vec):
                if len(a) > 2 and a[2] is t.TRUE:
                    # allow_different_maps: the entries are imported
                    ex.write(st, lv, Vec('double', a[0].size, a[0].data))
                    return VOID
                if len(a) > 1 and a[1] is t.TRUE:
                    tk = t.fresh('stale', 'I').val
                    ex.write(st, lv, Vec('double', a[0].size, Arr('double', lambda k: t.app(tk, k, 'R'))))
                    return VOID
                ex.write(st, lv, Vec('double', a[0].size, Arr('double', lambda k: t.R(0))))
                return VOID
            sz = a[0] if isinstance(a[0], T) else self.indexset_size(st, a[0])
            ex.write(st, lv, Vec('double', sz, Arr('double', lambda k: t.R(0))))
            return VOID
        if name == 'add':
            if len(a) == 1 and isinstance(a[0], T):
                s = a[0]
                ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda x: t.add(x, s), v)))
                return VOID
            if len(a) == 2 and isinstance(a[0], T) and isinstance(a[1], Vec):
                s = a[0]
                ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda x, y: t.add(x, t.mul(s, y)), v, a[1])))
                return VOID
            if len(a) == 4:
                s, s2 = a[0], a[2]
                ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda x, y, z: t.add(x, t.add(t.mul(s, y), t.mul(s2, z))), v, a[1], a[3])))
                return VOID
        if name == 'sadd':
            if len(a) == 2:
                s = a[0]
                ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda x, y: t.add(t.mul(s, x), y), v, a[1])))
                return VOID
            if len(a) == 3:
                s, b = a[0], a[1]
                ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda x, y: t.add(t.mul(s, x), t.mul(b, y)), v, a[2])))
                return VOID
        if name == 'scale':
            ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda x, y: t.mul(x, y), v, a[0])))
            return VOID
        if name == 'equ':
            s = a[0]
            ex.write(st, lv, Vec(v.et, v.size, self.pw(lambda y: t.mul(s, y), a[1])))
            return VOID
        if name == 'locally_owned_elements':
            h = ex.hooks.get('owned')
            if h:
                return h(ex, st, lv, v)
            return ex.mk_sym('IndexSet', 'owned')
        if name in ('l2_norm', 'linfty_norm', 'l1_norm', 'norm_sqr', 'mean_value'):
            h = ex.hooks.get('vecnorm')
            if h:
                return h(ex, st, v, name)
            return t.app('vec.' + name, (t.const(str(lv), 'S'), t.fresh('norm', 'I')), 'R')
        if name == 'vector_partitioner' or name == 'trilinos_vector':
            return Obj('Epetra', t.app('epetra', (), 'Obj:Epetra'))
        if name in ('in_local_range',):
            return t.app('owned.has', (a[0],), 'B')
        return NotImplemented

    def mat_method(self, n, st, lv, v, nm, name, args, vals):
        ex = self.ex
        a = vals()
        if name in ('m', 'n_rows'):
            return v.get('m')
        if name in ('n', 'n_cols'):
            return v.get('n')
        if name in ('compress', 'clear'):
            return VOID
        if name in ('operator()', 'el', 'diag_element'):
            if name == 'diag_element':
                a = [a[0], a[0]]
            if name == 'operator()' and nm in ('FullMatrix', 'LAPACKFullMatrix'):
                return LV(lv.cell, lv.path + ('a', (a[0], a[1])))
            return vget(v.get('a'), ((a[0], a[1]),))
        if name in ('add', 'set') and len(a) == 3 and all(isinstance(x, T) for x in a):
            if 'pat' in v.f:
                ex.oblige('matrix entry in the sparsity pattern', st, vget(v.f['pat'], ((a[0], a[1]),)), n)
            ex.write(st, LV(lv.cell, lv.path + ('a', (a[0], a[1]))), t.toR(a[2]), 'add' if name == 'add' else 'set')
            return VOID
        if name in ('vmult', 'vmult_add', 'Tvmult'):
            dst = args[0]
            src = a[1]
            d0 = a[0]
            A = v.get('a')
            tr = name == 'Tvmult'

            def base(k):
                j = t.fresh('j', 'I')
                m = vget(A, ((j, k[0]) if tr else (k[0], j),))
                s = t.sum_(j, t.and_(t.le(t.I(0), j), t.lt(j, src.size)), t.mul(m, vget(src.data, ((j,),))))
                return t.add(s, vget(d0.data, (k,))) if name == 'vmult_add' else s
            ex.write(st, dst, Vec('double', d0.size, Arr('double', base)))
            return VOID
        if name == 'reinit':
            z = Arr('double', lambda k: t.R(0))
            if len(a) == 1 and isinstance(a[0], Struct) and a[0].cls in PATS:
                ex.write(st, lv, Struct(v.cls, {'m': a[0].get('m'), 'n': a[0].get('n'), 'a': z, 'pat': a[0].get('a')}))
                return VOID
            if len(a) >= 2 and isinstance(a[0], T):
                ex.write(st, lv, Struct(v.cls, {'m': a[0], 'n': a[1], 'a': z}))
            else:
                ex.write(st, lv, Struct(v.cls, {'m': v.get('m'), 'n': v.get('n'), 'a': z}))
            return VOID
        return NotImplemented

    def pat_method(self, n, st, lv, v, nm, name, args, vals):
        ex = self.ex
        if name == 'compress':
            return VOID
        if name == 'reinit':
            ex.write(st, lv, Struct(v.cls, {'m': v.get('m'), 'n': v.get('n'), 'a': Arr('bool', lambda k: t.FALSE)}))
            return VOID
        a = vals()
        if name == 'add' and len(a) == 2:
            ex.write(st, LV(lv.cell, lv.path + ('a', (a[0], a[1]))), t.TRUE)
            return VOID
        if name == 'exists':
            return vget(v.get('a'), ((a[0], a[1]),))
        if name in ('n_nonzero_elements', 'row_length', 'max_entries_per_row'):
            return t.fresh('nnz', 'I')
        if name in ('n_rows', 'n_cols'):
            return v.get('m' if name == 'n_rows' else 'n')
        return NotImplemented

    def set_method(self, n, st, lv, v, nm, name, args, vals):
        ex = self.ex
        if name in ('insert', 'add_index', 'emplace'):
            k = flat(vals()[0])
            ex.write(st, LV(lv.cell, lv.path + (k,)), t.TRUE)
            return Tup([It('el', lv, vals()[0], 'set'), t.fresh('inserted', 'B')]) if name != 'add_index' else VOID
        if name == 'erase':
            a = vals()[0]
            k = flat(a.x if isinstance(a, It) else a)
            ex.write(st, LV(lv.cell, lv.path + (k,)), t.FALSE)
            return VOID
        if name in ('is_element', 'count', 'contains'):
            r = vget(v, (flat(vals()[0]),))
            return t.toI(r) if name == 'count' else r
        if name == 'nth_index_in_set' and vals()[0].op == 'c' and vals()[0].val == 0:
            return self.set_first(st, v)
        if name == 'find':
            x = vals()[0]
            it = FindIt(lv, x, 'set', vget(v, (flat(x),)))
            return it
        if name in ('lower_bound', 'upper_bound') and ex.sort_of(v.et) == 'I':
            x = vals()[0]       # the first element that is not less than / greater than x
            return It('bnd', lv, x if name == 'lower_bound' else t.add(x, t.I(1)), 'set')
        if name in ('begin', 'cbegin'):
            return It('begin', lv, None, 'set')
        if name in ('end', 'cend'):
            return It('end', lv, None, 'set')
        if name in ('rbegin', 'crbegin'):
            return It('rbegin', lv, None, 'set')
        if name == 'clear':
            ex.write(st, lv, SetV(v.et, Arr('bool', lambda k: t.FALSE), v.name))
            return VOID
        if name in ('compress', 'set_size'):
            return VOID
        if name in ('size', 'n_elements'):
            if nm == 'IndexSet' and name == 'size':
                return self.indexset_size(st, v)
            b = t.fresh('e', self.el_sort(v.et))
            return t.sum_(b, vget(v, ((b,),)), t.I(1))
        if name == 'empty':
            b = t.fresh('e', self.el_sort(v.et))
            return t.not_(t.exists(b, vget(v, ((b,),))))
        return NotImplemented

    def el_sort(self, et):
        s = self.ex.sort_of(et)
        from .exec import ptype, strip
        if s:
            return s
        if ptype(strip(et))[0] == 'TriaActiveIterator':
            return 'I'          # an active cell is its number
        return 'Obj:' + ptype(strip(et))[0]

    def map_method(self, n, st, lv, v, nm, name, args, vals):
        ex = self.ex
        if name in ('operator[]', 'at'):
            k = flat(vals()[0])
            return self.map_index(st, lv, v, k, name == 'operator[]')
        if name == 'find':
            x = vals()[0]
            return FindIt(lv, x, 'map', vget(v.dom, (flat(x),)))
        if name in ('count', 'contains'):
            r = vget(v.dom, (flat(vals()[0]),))
            return t.toI(r) if name == 'count' else r
        if name in ('begin', 'cbegin'):
            return It('begin', lv, None, 'map')
        if name in ('end', 'cend'):
            return It('end', lv, None, 'map')
        if name == 'clear':
            from .exec import strip
            ex.write(st, lv, MapV(v.kt, v.vt, ex.arr_default(v.vt, st), Arr('bool', lambda k: t.FALSE), True))
            return VOID
        if name in ('insert', 'emplace'):
            a = vals()
            if len(a) == 2 and all(isinstance(x, It) for x in a):
                # the elements of another map whose keys are not there yet
                if a[0].kind != 'begin' or a[1].kind != 'end' or a[0].c.cell != a[1].c.cell or a[0].c.path != a[1].c.path:
                    raise Unsupported('insertion of a part of a container into a map')
                w = ex.read(st, a[0].c)
                if not isinstance(w, MapV) or not (v.tidy and w.tidy):
                    raise Unsupported('insertion of a container into a map')
                had = lambda kk: vget(v.dom, (tuple(kk),))
                ex.write(st, lv, MapV(v.kt, v.vt, Arr(v.vt, lambda kk: vite(had(kk), vget(v.data, (tuple(kk),)), vget(w.data, (tuple(kk),)))),
                                      Arr('bool', lambda kk: t.or_(had(kk), vget(w.dom, (tuple(kk),)))), True))
                return VOID
            p = a[0] if len(a) == 1 else Tup(a)
            k = flat(p.items[0])
            has = vget(v.dom, (k,))
            old = vget(v.data, (k,))
            ex.write(st, LV(lv.cell, lv.path + (k,)), vite(has, old, p.items[1]))
            ex.write(st, LV(lv.cell, lv.path + ('#dom', k)), t.TRUE)
            return Tup([It('el', lv, p.items[0], 'map'), t.not_(has)])
        if name == 'erase':
            a = vals()[0]
            k = flat(a.x if isinstance(a, It) else a)
            if v.tidy:
                ex.write(st, LV(lv.cell, lv.path + (k,)), ex.default_value(v.vt, st))
            ex.write(st, LV(lv.cell, lv.path + ('#dom', k)), t.FALSE)
            return VOID
        if name == 'empty':
            b = t.fresh('e', self.el_sort(v.kt))
            return t.not_(t.exists(b, vget(v.dom, ((b,),))))
        if name == 'size':
            b = t.fresh('e', self.el_sort(v.kt))
            return t.sum_(b, vget(v.dom, ((b,),)), t.I(1))
        return NotImplemented

    def map_index(self, st, lv, v, k, insert):
        ex = self.ex
        if insert:
            has = vget(v.dom, (k,))
            d = self.ex.decide(st, has)
            if d is not True:
                # operator[] default-inserts
                h = ex.hooks.get('map_insert')
                if h:
                    h(ex, st, lv, v, k, has)
                elif v.tidy:
                    ex.write(st, LV(lv.cell, lv.path + ('#dom', k)), t.TRUE)
                else:
                    dv = ex.default_value(v.vt, st)
                    if d is False:
                        ex.write(st, LV(lv.cell, lv.path + (k,)), dv)
                    else:
                        try:
                            ex.write(st, LV(lv.cell, lv.path + (k,)), vite(has, vget(v.data, (k,)), dv))
                        except Unsupported:
                            pass
                    ex.write(st, LV(lv.cell, lv.path + ('#dom', k)), t.TRUE)
        return LV(lv.cell, lv.path + (k,))

    # ------------------------------------------------------------ operators
    def operator_call(self, n, st, fr):
        ex = self.ex
        from .exec import strip, ptype, Throw, DEFAULT
        callee = n.inner[0]
        while callee.kind in ('ImplicitCastExpr', 'ParenExpr'):
            callee = callee.inner[0]
        ref = callee.a.get('ref') or {}
        op = (ref.get('name') or '').replace('operator', '', 1).strip()
        argn = n.inner[1:]
        # repository operators
        k = ex.prog.byid.get((fr.unit, ref.get('id')))
        cand = None
        if k is not None:
            cand = [g for g in ex.prog.funcs.get((k[0], k[1]), []) if g.sig == k[2]]
        elif ref.get('kind') == 'CXXMethodDecl':
            bt = strip(argn[0].type)
            cand = [g for g in ex.prog.funcs.get((bt, ref['name']), []) if g.sig == norm_type(ref.get('type'))] or \
                   ([g for g in ex.prog.funcs.get((bt, ref['name']), [])][:1] if op != '=' else None)
        elif ref.get('kind') == 'FunctionDecl':
            cand = [g for g in ex.prog.funcs.get((None, ref['name']), []) if g.sig == norm_type(ref.get('type'))]
        if cand and (cand[0].body is not None or cand[0].name == 'operator='):
            args = ex.args(argn, st, fr)
            if cand[0].cls is None:
                return ex.call(st, cand[0], None, args, n)
            this = args[0] if isinstance(args[0], LV) else ex.tmp(st, args[0])
            return ex.call(st, cand[0], this, args[1:], n)
        if op == '=':
            b = ex.ev(argn[1], st, fr)
            bv = ex.rv(st, b)
            a = ex.ev(argn[0], st, fr)
            bt = strip(argn[0].type)
            old = None
            h = ex.hooks.get('assign')
            if h is not None:
                r = h(ex, st, a, bv, argn, n)
                if r is not NotImplemented:
                    return r
            nm = ptype(bt)[0]
            if isinstance(bv, T) and bv.sort in ('I', 'R'):
                old = ex.read(st, a)
                if isinstance(old, Vec):
                    s = t.toR(bv)
                    ex.write(st, a, Vec(old.et, old.size, Arr(old.et, lambda k: s)))
                    return a
                if isinstance(old, Struct) and nm in MATS:
                    s = t.toR(bv)
                    ex.write(st, a, Struct(old.cls, dict(old.f, a=Arr('double', lambda k: s))))
                    return a
                if isinstance(old, Cx):
                    ex.write(st, a, tocx(bv))
                    return a
                if isinstance(old, Tup):
                    ex.write(st, a, self._fillall(old, t.toR(bv)))
                    return a
            if nm in ('unique_ptr',) and isinstance(bv, Ptr):
                hk = ex.hooks.get('delete')
                if hk:
                    hk(ex, st, ex.read(st, a), n)
            if isinstance(bv, Tup) and nm in ('vector',):
                old = ex.read(st, a)
                v = Vec(old.et, t.I(len(bv.items)), ex.arr_default(old.et, st))
                for i, y in enumerate(bv.items):
                    v = vset(v, ((t.I(i),),), y)
                bv = v
            if isinstance(a, LV) and isinstance(a.path[-1:] and a.path[-1], str) and False:
                pass
            ex.write(st, a, bv)
            return a
        args = ex.args(argn, st, fr)
        a = args[0]
        av = ex.rv(st, a)
        if op == '>>':
            h = ex.hooks.get('op>>')
            if h is None:
                raise Unsupported('stream extraction (line %s)' % n.a.get('line'))
            return h(ex, st, args, n)
        if op == '<<':
            h = ex.hooks.get('op<<')
            if h is not None:
                h(ex, st, args, n)
            return a
        if op == '->' or (op == '*' and len(args) == 1):
            if isinstance(av, (Ptr, PIte)):
                return av if op == '->' else ex.lv_of_ptr(st, av)
            if isinstance(av, It):
                return av if op == '->' else self.deref(st, av)
            if isinstance(av, Obj):
                return Ptr(a.cell, a.path) if op == '->' else a
        if op in ('()', '[]'):
            if isinstance(av, (Lam, Bind, Fn)):
                return ex.apply(st, av, args[1:], n)
            if not isinstance(a, LV):
                a = ex.tmp(st, av)
            if isinstance(av, (Ptr, PIte)) and op == '[]':
                return ex.ptr_index(st, av, ex.rv(st, args[1]), n)
            if isinstance(av, MapV):
                kv = ex.rv(st, args[1])
                return self.map_index(st, a, av, flat(kv), True)
            if isinstance(av, (Tup,)):
                iv = ex.rv(st, args[1])
                if len(args) == 3:
                    return LV(a.cell, a.path + ((iv,), (ex.rv(st, args[2]),)))
                return LV(a.cell, a.path + ((iv,),))
            if isinstance(av, Vec):
                iv = ex.rv(st, args[1])
                r = LV(a.cell, a.path + ((iv,),))
                ex.bounds(st, r, n)
                return r
            if isinstance(av, Struct) and av.cls in MATS and len(args) == 3:
                i, j = ex.rv(st, args[1]), ex.rv(st, args[2])
                return LV(a.cell, a.path + ('a', (i, j)))
        if op in ('==', '!='):
            bv = ex.rv(st, args[1])
            if isinstance(av, Cx) or isinstance(bv, Cx):
                x, y = tocx(av), tocx(bv)
                r = t.and_(t.eq(x.re, y.re), t.eq(x.im, y.im))
            else:
                r = ex.equal(av, bv)
            return r if op == '==' else t.not_(r)
        if op in ex.CMP:
            bv = ex.rv(st, args[1])
            if isinstance(av, It) and isinstance(bv, It) and av.ck == 'vec':
                return ex.CMP[op](av.x, bv.x)
            if isinstance(av, T) and isinstance(bv, T) and av.sort not in ('I', 'R'):
                r = t.app('before', (av, bv), 'B')
                return {'<': r, '>': t.app('before', (bv, av), 'B')}[op]
            if isinstance(av, T) and isinstance(bv, T):
                return ex.CMP[op](av, bv)
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            if isinstance(av, (It,)):
                nv = self.it_inc(st, av, d)
                ex.write(st, a, nv)
                return av if len(args) > 1 else a
            if isinstance(av, Obj):
                h = ex.hooks.get('objinc')
                if h:
                    return h(ex, st, a, av, d, n)
        if op in ('+', '-', '*', '/') and len(args) == 2:
            bv = ex.rv(st, args[1])
            return self.binop(op, av, bv)
        if op == '-' and len(args) == 1:
            if isinstance(av, Cx):
                return Cx(t.neg(av.re), t.neg(av.im))
            return self.tscale(av, t.R(-1))
        if op == '+' and len(args) == 1:
            return av
        if op in ('+=', '-=', '*=', '/='):
            bv = ex.rv(st, args[1])
            o = op[0]
            if isinstance(av, It) and av.ck == 'vec':
                ex.write(st, a, It('pos', av.c, t.add(av.x, bv if o == '+' else t.neg(bv)), 'vec'))
                return a
            if isinstance(av, Vec):
                if o in '+-':
                    sgn = 1 if o == '+' else -1
                    ex.write(st, a, Vec(av.et, av.size, self.pw(lambda x, y: self.tadd(x, y, sgn), av, bv)))
                else:
                    g = (lambda x: t.mul(x, bv)) if o == '*' else (lambda x: t.div(x, bv))
                    if o == '/':
                        self.den(bv)
                    ex.write(st, a, Vec(av.et, av.size, self.pw(g, av)))
                return a
            if o in '+-' and isinstance(a, LV) and any(not isinstance(p, str) and not all_const(p) for p in a.path):
                d = bv
                if o == '-':
                    d = self.binop('*', bv, t.R(-1))
                if isinstance(av, Cx):
                    d = tocx(d)
                ex.write(st, a, d, 'add')
                return a
            r = self.binop(o, av, bv)
            ex.write(st, a, r)
            return a
        if op in ('|', '&') and len(args) == 2:
            x, y = ex.rv(st, args[0]), ex.rv(st, args[1])
            if isinstance(x, T) and isinstance(y, T) and x.sort == 'I':
                x, y = (x, y) if x.id <= y.id else (y, x)
                return t.app('bits' + op, (x, y), 'I')
        raise Unsupported('operator%s on %s (line %s)' % (op, [type(ex.rv(st, x)).__name__ for x in args], n.a.get('line')))

    def _fillall(self, v, s):
        return Tup([self._fillall(x, s) if isinstance(x, Tup) else s for x in v.items])

    def binop(self, op, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            if op in '+-':
                a, b = tocx(a), tocx(b)
                f = t.add if op == '+' else t.sub
                return Cx(f(a.re, b.re), f(a.im, b.im))
            if op == '*':
                return self.cxmul(a, b)
            return self.cxdiv(a, b)
        if isinstance(a, It) and isinstance(b, T):
            return It('pos', a.c, t.add(a.x, b if op == '+' else t.neg(b)), 'vec')
        if isinstance(a, It) and isinstance(b, It):
            return t.sub(a.x, b.x)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if op in '+-':
                return self.tadd(a, b, 1 if op == '+' else -1)
            if op == '*':
                am, bm = isinstance(a.items[0], Tup), isinstance(b.items[0], Tup)
                if not am and not bm:
                    return self.dot(a, b)
                if am and not bm:
                    return Tup([self.dot(r, b) for r in a.items])
                if not am and bm:
                    return Tup([self.dot(a, Tup([r.items[j] for r in b.items])) for j in range(len(b.items[0].items))])
                return Tup([Tup([self.dot(r, Tup([q.items[j] for q in b.items])) for j in range(len(b.items[0].items))]) for r in a.items])
        if isinstance(a, Tup) and isinstance(b, T):
            b = t.toR(b)
            if op == '*':
                return self.tscale(a, b)
            if op == '/':
                self.den(b)
                return self.tdiv(a, b)
        if isinstance(b, Tup) and isinstance(a, T) and op == '*':
            return self.tscale(b, t.toR(a))
        if isinstance(a, T) and isinstance(b, T) and a.sort in ('I', 'R') and b.sort in ('I', 'R'):
            if op == '/':
                self.den(b)
                return t.div(a, b)
            return {'+': t.add, '-': t.sub, '*': t.mul}[op](a, b)
        if isinstance(a, T) and a.sort == 'S' and op == '+':
            x, y = flat(a), flat(b)
            if len(x) == len(y) == 1 and x[0].op == 'c' and y[0].op == 'c':
                return t.const(str(x[0].val) + str(y[0].val), 'S')
            return t.app('concat', x + y, 'S')
        raise Unsupported('operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))


class FindIt(It):
    __slots__ = ('c2',)

    def __init__(self, c, x, ck, has):
        It.__init__(self, 'find', c, x, ck)
        self.c2 = has
