"""Symbolic executor / verification-condition generator over the extracted AST.

Every function is executed on symbolic inputs.  Branches fork and re-merge,
loops with constant bounds are executed completely, loops with symbolic bounds
are replaced by an inferred inductive summary: one generic iteration is run
from an arbitrary (havocked) loop state, every location it changes is shown to
be an accumulation / pointwise update / insertion independent of the other
iterations, and is summarised by the comprehension over the iteration domain;
a location for which that cannot be shown becomes unknown."""
import re
import time
from fractions import Fraction
from . import terms as t, smt
from .terms import T
from .vals import *
from .access import *
from . import access
from .extract import norm_type, Node, Func

INT_TYPES = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
             'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'char': (8, True),
             'unsigned char': (8, False), 'signed char': (8, True), 'unsigned short': (16, False),
             'size_t': (64, False), 'types::global_dof_index': (32, False), 'std::size_t': (64, False),
             'size_type': (32, False), 'types::boundary_id': (32, False), 'types::material_id': (32, False),
             'types::manifold_id': (32, False), 'types::subdomain_id': (32, False), 'ptrdiff_t': (64, True)}
REAL_TYPES = {'double', 'float', 'long double', 'TrilinosScalar', 'double_t'}


def strip(s):
    """Type without cv / reference."""
    s = norm_type(s)
    while True:
        o = s
        if s.endswith('&&'):
            s = s[:-2].strip()
        elif s.endswith('&'):
            s = s[:-1].strip()
        if s.startswith('const '):
            s = s[6:].strip()
        if s.endswith(' const'):
            s = s[:-6].strip()
        if s.endswith('*const'):
            s = s[:-5].strip()
        if s.startswith('volatile '):
            s = s[9:]
        if s.startswith('typename '):
            s = s[9:]
        if s == o:
            return s


_pt = {}


def ptype(s):
    """(name, [template args]) of a type."""
    r = _pt.get(s)
    if r is None:
        x = strip(s)
        i = x.find('<')
        if i < 0 or not x.endswith('>'):
            r = (x, [])
        else:
            name = x[:i]
            depth, cur, args = 0, '', []
            for ch in x[i + 1:-1]:
                if ch == '<' or ch == '(':
                    depth += 1
                elif ch == '>' or ch == ')':
                    depth -= 1
                if ch == ',' and depth == 0:
                    args.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            if cur.strip():
                args.append(cur.strip())
            r = (name, args)
        _pt[s] = r
    return r


def is_int(s):
    return strip(s) in INT_TYPES


def is_real(s):
    return strip(s) in REAL_TYPES


def is_scalar(s):
    x = strip(s)
    return x in INT_TYPES or x in REAL_TYPES or x == 'bool'


def is_ref(s):
    return norm_type(s).endswith('&')


def is_ptr(s):
    x = strip(s)
    return x.endswith('*')


def arith(x):
    """a template argument such as '3 - 1'"""
    m = re.match(r'^(\d+)U?L?(?: ([-+]) (\d+)U?L?)?$', x.strip())
    if not m:
        raise Unsupported('template argument %s' % x)
    return int(m.group(1)) + (int(m.group(3)) * (1 if m.group(2) == '+' else -1) if m.group(2) else 0)


class St:
    __slots__ = ('store', 'pc', 'meta')

    def __init__(self, store=None, pc=()):
        self.store = store if store is not None else {}
        self.pc = tuple(pc)

    def fork(self, *conds):
        pc = self.pc
        for c in conds:
            if c is not t.TRUE:
                pc = pc + ((c,) if c.op != 'and' else tuple(c.args))
        return St(dict(self.store), pc)

    def assume(self, c):
        if c is not t.TRUE:
            self.pc = self.pc + ((c,) if c.op != 'and' else tuple(c.args))


class Frame:
    __slots__ = ('id', 'env', 'this', 'fn', 'unit', 'caps')

    def __init__(self, id, this=None, fn=None, unit=None):
        self.id, self.env, self.this, self.fn, self.unit = id, {}, this, fn, unit


class Obligation:
    __slots__ = ('name', 'pc', 'cond', 'line', 'fn')

    def __init__(self, name, pc, cond, line, fn):
        self.name, self.pc, self.cond, self.line, self.fn = name, pc, cond, line, fn


class Violated(Exception):
    def __init__(self, name, msg):
        Exception.__init__(self, msg)
        self.name = name




class Exec:
    def __init__(self, prog, models=None):
        self.prog = prog
        self.nframes = 0
        self.ncell = 0
        self.contracts = {}     # (cls, name) or (cls,name,sig) -> handler(ex, st, this, args, node)
        self.obls = []
        self.denoms = []        # definedness side conditions
        self.check_bounds = False
        self.depth = 0
        self.maxsteps = 200_000_000
        self.used = {}          # functions executed / under contract -> count
        self.trusted = {}       # external operations relied on -> count
        self.types = {}         # extra field types
        self.alias = {}         # typedef name -> type
        self.static_init = {}
        self.heap_types = {}
        self.hooks = {}
        self.folds = {}           # extrema accumulated by loops
        self.stmt_contracts = {}  # id of a statement -> its contract
        self.loop_rules = []      # loop invariants given by the contract
        self.streams = 0
        self.cellname = None      # the DoFHandler of stored cell iterators
        self.freed = set()
        self.track_heap = False
        self.assumptions = set()
        self.summaries = 0
        self.unrolled = 0
        self.unroll_limit = 20000
        from . import models as m
        self.models = m.Models(self)
        self._c = {}

    # ------------------------------------------------------------ symbols
    def sort_of(self, ty):
        x = strip(ty)
        if x in INT_TYPES:
            return 'I'
        if x in REAL_TYPES:
            return 'R'
        if x == 'bool':
            return 'B'
        return None

    def mk_sym(self, ty, name, args=()):
        """An arbitrary value of a C++ type, as a function of index terms."""
        args = tuple(args)
        x = strip(ty)
        x = self.alias.get(x, x)
        s = self.sort_of(x)
        if s:
            return t.app(name, args, s)
        if x.startswith('enum ') or x in self.models.enums:
            return t.app(name, args, 'I')
        if x.endswith('*'):
            return self.sym_ptr(strip(x[:-1]), name, args)
        m = re.match(r'^(.*)\[(\d+)\]$', x)
        if m:
            return Tup([self.mk_sym(m.group(1), '%s.%d' % (name, i), args) for i in range(int(m.group(2)))])
        n, a = ptype(x)
        if n in ('unique_ptr', 'shared_ptr', 'SmartPointer'):
            return self.sym_ptr(strip(a[0]), name, args)
        if n == 'TriaActiveIterator' and self.cellname:
            return It('pos', self.cellname, t.app(name, args, 'I'), 'cells')
        if n in ('complex',):
            return Cx(t.app(name + '.re', args, 'R'), t.app(name + '.im', args, 'R'))
        if n in ('Point',) or (n == 'Tensor' and a[0] == '1'):
            d = int(self.const_arg(a[0] if n == 'Point' else a[1]))
            et = a[2] if n == 'Tensor' and len(a) > 2 else (a[1] if n == 'Point' and len(a) > 1 else 'double')
            return Tup([self.mk_sym(et, '%s.%d' % (name, i), args) for i in range(d)])
        if n == 'Tensor' and a[0] == '2':
            d = int(a[1])
            return Tup([Tup([t.app('%s.%d%d' % (name, i, j), args, 'R') for j in range(d)]) for i in range(d)])
        if n == 'array':
            return Tup([self.mk_sym(a[0], '%s.%d' % (name, i), args) for i in range(int(a[1].rstrip('UL')))])
        if n in ('vector', 'deque'):
            et = a[0]
            return Vec(et, self.sym_size(name + '.size', args), Arr(et, lambda k: self.mk_sym(et, name + '[]', args + tuple(k)), {}, name))
        if n == 'pair' or n == 'tuple':
            return Tup([self.mk_sym(q, '%s.%d' % (name, i), args) for i, q in enumerate(a)])
        if n in ('set', 'IndexSet', 'unordered_set'):
            return SetV(a[0] if a else 'unsigned int',
                        Arr('bool', lambda k: t.app(name + '.has', args + tuple(k), 'B'), {}, name), name)
        if n in ('map', 'unordered_map'):
            kt, vt = a[0], a[1]
            return MapV(kt, vt, Arr(vt, lambda k: self.mk_sym(vt, name + '[]', args + tuple(k)), {}, name),
                        Arr('bool', lambda k: t.app(name + '.has', args + tuple(k), 'B'), {}, name))
        if n == 'string':
            return t.app(name, args, 'S')
        if n in self.models.vector_types:
            return Vec('double', self.sym_size(name + '.size', args), Arr('double', lambda k: t.app(name + '[]', args + tuple(k), 'R'), {}, name))
        if n in self.models.pattern_types:
            return Struct(n, {'m': self.sym_size(name + '.m', args), 'n': self.sym_size(name + '.n', args),
                              'a': Arr('bool', lambda k: t.app(name + '[]', args + tuple(k), 'B'), {}, name)})
        if n in self.models.matrix_types:
            return Struct(n, {'m': self.sym_size(name + '.m', args), 'n': self.sym_size(name + '.n', args),
                              'a': Arr('double', lambda k: t.app(name + '[]', args + tuple(k), 'R'), {}, name)})
        if x in self.prog.records and self.prog.records[x]:
            return Struct(x, {}, lambda k: self.mk_sym(self.field_type(x, k), name + '.' + k, args))
        return Obj(x, t.app(name, args, 'Obj:' + n))

    def const_arg(self, a):
        m = re.match(r'^(\d+)\s*-\s*(\d+)$', a)
        if m:
            return int(m.group(1)) - int(m.group(2))
        return int(a)

    def sym_size(self, name, args):
        return t.app(name, args, 'I')

    def field_type(self, cls, k):
        r = self.prog.records[cls].get(k)
        if r is None:
            for b in self.prog.bases.get(cls, ()):
                if strip(b) in self.prog.records and k in self.prog.records[strip(b)]:
                    return self.prog.records[strip(b)][k][0]
            raise Unsupported('no field %s in %s' % (k, cls))
        return r[0]

    def sym_ptr(self, ty, name, args):
        """Symbolic pointers are non-null and injective in their index terms."""
        cell = ('*', name)
        self.heap_types[cell] = (ty, name, len(args))
        return Ptr(cell, (tuple(args),) if args else ())

    def load_cell(self, st, cell):
        v = st.store.get(cell)
        if v is None:
            h = self.heap_types.get(cell)
            if h is None:
                raise Unsupported('read of an uninitialised location %s' % (cell,))
            ty, name, n = h
            if n == 0:
                v = self.mk_sym(ty, name + '*')
            else:
                v = Arr(ty, lambda k: self.mk_sym(ty, name + '*', k), {}, name)
            st.store[cell] = v
        return v

    # ------------------------------------------------------------ memory
    def new_cell(self, base='h'):
        self.ncell += 1
        return (base, self.ncell)

    def read(self, st, lv):
        if not isinstance(lv, LV):
            return lv
        if lv.cell in self.freed:
            raise Violated('memory', 'use of freed memory %s' % (lv.cell,))
        v = self.load_cell(st, lv.cell)
        return vget(v, lv.path)

    def write(self, st, lv, val, op='set', guard=t.TRUE):
        if not isinstance(lv, LV):
            raise Unsupported('write to a non-lvalue %r' % (lv,))
        if lv.cell in self.freed:
            raise Violated('memory', 'write to freed memory %s' % (lv.cell,))
        if not lv.path and op == 'set':
            st.store[lv.cell] = val
            return
        v = self.load_cell(st, lv.cell)
        if op == 'add' and not any(not isinstance(p, str) and not all_const(p) for p in lv.path):
            # concrete location: read-modify-write keeps values simple unless
            # the container already carries a symbolic log
            st.store[lv.cell] = vset(v, lv.path, val, op)
            return
        st.store[lv.cell] = vset(v, lv.path, val, op)

    def tmp(self, st, val):
        c = self.new_cell('t')
        st.store[c] = val
        return LV(c)

    def lv_of_ptr(self, st, p):
        if isinstance(p, LV):
            return p
        if isinstance(p, Ptr):
            if p.cell is None:
                raise Violated('memory', 'null pointer dereference')
            return LV(p.cell, p.path)
        if isinstance(p, PIte):
            a, b = p.a, p.b
            if isinstance(a, Ptr) and a.cell is None:
                return self.lv_of_ptr(st, b)
            if isinstance(b, Ptr) and b.cell is None:
                return self.lv_of_ptr(st, a)
            la, lb = self.lv_of_ptr(st, a), self.lv_of_ptr(st, b)
            return vite(p.c, la, lb)
        if isinstance(p, It):
            return self.models.deref(st, p)
        raise Unsupported('dereference of %s' % type(p).__name__)

    def rv(self, st, x):
        return self.read(st, x) if isinstance(x, LV) else x

    def oblige(self, name, st, cond, node=None):
        if cond is t.TRUE:
            return
        self.obls.append(Obligation(name, st.pc, cond, node.a.get('line') if node is not None else None, self.cur_fn()))

    def cur_fn(self):
        return self.stack[-1] if getattr(self, 'stack', None) else None

    # ------------------------------------------------------------ decisions
    def decide(self, st, c):
        """True / False if the path condition decides c, else None."""
        if c.op == 'c':
            return c.val
        return smt.decide(st.pc, c)

    # ------------------------------------------------------------ calls
    def call(self, st, fn, this, args, node=None):
        """Call an extracted function; args are LV (for references) or Val."""
        key = (fn.cls, fn.name)
        h = self.contracts.get((fn.cls, fn.name, fn.sig)) or self.contracts.get(key)
        if h is not None:
            self.used[fn.qname] = self.used.get(fn.qname, 0) + 1
            r = h(self, st, this, args, node)
            if r is not NotImplemented:
                return r
        if fn.body is None:
            if fn.node.a.get('isImplicit') or fn.node.a.get('explicitlyDefaulted'):
                if fn.name == 'operator=':
                    self.write(st, this, self.rv(st, args[0]))
                    return this
            raise Unsupported('no body for %s %s' % (fn.qname, fn.sig))
        return self.run_body(st, fn, this, args, node)

    def run_body(self, st, fn, this, args, node=None):
        self.used[fn.qname] = self.used.get(fn.qname, 0) + 1
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep in %s' % fn.qname)
        self.nframes += 1
        fr = Frame(self.nframes, this, fn, fn.unit)
        if not hasattr(self, 'stack'):
            self.stack = []
        self.stack.append(fn.qname)
        try:
            self.bind_params(st, fr, fn.params, args)
            npc = len(st.pc)
            for ini in fn.inits:
                self.ctor_init(st, fr, ini, fn)
            outs = self.block(fn.body, st, fr)
            return self.join_call(st, outs, npc, fn)
        finally:
            self.depth -= 1
            self.stack.pop()

    def bind_params(self, st, fr, params, args):
        for i, p in enumerate(params):
            if i < len(args):
                a = args[i]
            else:
                if not p.inner:
                    raise Unsupported('missing argument')
                a = self.ev(p.inner[0], st, fr)
            if is_ref(p.type):
                if not isinstance(a, LV):
                    a = self.tmp(st, a)
                fr.env[p.a['id']] = a
            else:
                c = ('L', fr.id, p.a['id'])
                st.store[c] = self.rv(st, a)
                fr.env[p.a['id']] = LV(c)

    def join_call(self, st, outs, npc, fn):
        res = []
        for s, fl in outs:
            if fl is None:
                res.append((s, VOID))
            elif fl[0] == 'ret':
                res.append((s, fl[1]))
            elif fl[0] == 'throw':
                continue
            else:
                raise Unsupported('flow %s out of %s' % (fl[0], fn.qname))
        if not res:
            raise PathDead()
        s, v = res[-1]
        for s1, v1 in reversed(res[:-1]):
            c = t.and_(*s1.pc[npc:])
            v = vite(c, v1, v)
            s = self.merge(c, s1, s, st.pc[:npc])
        if len(res) > 1:
            s.pc = st.pc[:npc]
        if s is not st:
            st.store = s.store
            st.pc = s.pc
        return v

    def ctor_init(self, st, fr, ini, fn):
        tgt = ini.a.get('anyInit') or ini.a.get('ref')
        # clang's JSON prints the initialised member as 'anyInit'
        name = None
        if tgt:
            name = tgt.get('name')
        if name is None:
            return
        lv = LV(fr.this.cell, fr.this.path + (name,))
        if not ini.inner:
            return
        ft = self.field_type(fn.cls, name)
        v = self.ev(ini.inner[0], st, fr)
        if is_ref(ft) and isinstance(v, LV):
            v = Ptr(v.cell, v.path)
        else:
            v = self.rv(st, v)
        self.write(st, lv, v)

    # ------------------------------------------------------------ merging
    def merge(self, c, a, b, pc):
        if a is b:
            return a
        store = {}
        sa, sb = a.store, b.store
        for k, va in sa.items():
            vb = sb.get(k)
            if vb is va:
                store[k] = va
            elif vb is None:
                if k[0] in ('*',):
                    store[k] = vite(c, va, self.load_cell(b, k))
                elif k[0] in ('h', 't'):
                    store[k] = va       # only reachable on one side
                else:
                    store[k] = va
            else:
                try:
                    store[k] = vite(c, va, vb)
                except Unsupported:
                    if k[0] in ('L', 't'):
                        store[k] = Dead(va, vb)
                    else:
                        raise
        for k, vb in sb.items():
            if k not in sa:
                if k[0] == '*':
                    store[k] = vite(c, self.load_cell(a, k), vb)
                else:
                    store[k] = vb
        return St(store, pc)

    # ------------------------------------------------------------ statements
    def block(self, node, st, fr):
        outs = [(st, None)]
        done = []
        for ch in node.inner:
            nxt = []
            for s, fl in outs:
                for s2, f2 in self.stmt(ch, s, fr):
                    if f2 is None:
                        nxt.append((s2, None))
                    else:
                        done.append((s2, f2))
            outs = nxt
            if not outs:
                break
        res = outs + done if outs else done
        if self.track_heap:
            for s, fl in res:
                self.destroy_locals(node, s, fr)
        return res

    def stmt(self, n, st, fr):
        k = n.kind
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Unsupported('time budget used up')
        c = self.stmt_contracts.get(id(n))
        if c is not None:           # by its contract
            return c(self, n, st, fr)
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st, fr)
        try:
            self.ev(n, st, fr)
        except Throw:
            return [(st, ('throw',))]
        except PathDead:
            return []
        return [(st, None)]

    def s_CompoundStmt(self, n, st, fr):
        return self.block(n, st, fr)

    def s_NullStmt(self, n, st, fr):
        return [(st, None)]

    s_Null = s_NullStmt

    def s_DeclStmt(self, n, st, fr):
        for d in n.inner:
            if d.kind == 'VarDecl':
                self.declare(d, st, fr)
            elif d.kind in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl'):
                if d.kind == 'CXXRecordDecl':
                    self.local_record(d, fr)
            else:
                raise Unsupported('declaration %s' % d.kind)
        return [(st, None)]

    def local_record(self, d, fr):
        nm = d.a.get('name')
        flds = {c.a.get('name'): (norm_type(c.type), c.inner[0] if c.inner else None) for c in d.inner if c.kind == 'FieldDecl'}
        self.prog.records[nm] = flds
        for c in d.inner:
            if c.kind in ('CXXConstructorDecl', 'CXXMethodDecl'):
                f = Func(nm, c, fr.unit)
                lst = self.prog.funcs.setdefault((nm, f.name), [])
                lst[:] = [g for g in lst if g.sig != f.sig] + [f]

    def declare(self, d, st, fr):
        ty = d.type
        static = d.a.get('storageClass') == 'static'
        if static:
            cell = ('S', fr.fn.cls if fr.fn else None, fr.fn.name if fr.fn else None, d.a.get('name'))
            fr.env[d.a['id']] = LV(cell)
            if cell in st.store:
                return
            pol = self.static_init.get(d.a.get('name'), self.static_init.get('*'))
            if pol is not None:
                st.store[cell] = pol(self, st, d, fr)
                return
            # an earlier call may have left any value behind
            if strip(ty).endswith('*') or self.sort_of(ty) is None:
                st.store[cell] = self.mk_sym(ty, 'static.' + str(d.a.get('name')))
            else:
                st.store[cell] = t.app('static.' + d.a.get('name'), (), self.sort_of(ty))
            if d.inner and 'const' in norm_type(ty).split():
                st.store[cell] = self.rv(st, self.ev(d.inner[0], st, fr))
            return
        if is_ref(ty):
            if not d.inner:
                raise Unsupported('reference without initialiser')
            v = self.ev(d.inner[0], st, fr)
            if not isinstance(v, LV):
                v = self.tmp(st, v)
            fr.env[d.a['id']] = v
            return
        c = ('L', fr.id, d.a['id'])
        if d.inner and d.inner[0].kind != 'Null':
            v = self.rv(st, self.ev(d.inner[0], st, fr))
        else:
            v = self.default_value(ty, st, d.a.get('name'), uninit=True)
        st.store[c] = v
        fr.env[d.a['id']] = LV(c)

    def default_value(self, ty, st, name='?', uninit=False):
        x = strip(ty)
        x = self.alias.get(x, x)
        s = self.sort_of(x)
        if s:
            if uninit:
                return t.fresh('uninit_%s' % name, s)
            return t.const(False) if s == 'B' else t.const(0, s)
        if x.endswith('*'):
            return NULL
        m = re.match(r'^(.*)\[(\d+)\]$', x)
        if m:
            return Tup([self.default_value(m.group(1), st, name, uninit) for _ in range(int(m.group(2)))])
        n, a = ptype(x)
        if n in ('unique_ptr', 'shared_ptr', 'SmartPointer'):
            return NULL
        if n == 'complex':
            return Cx(t.R(0), t.R(0))
        if n == 'TriaActiveIterator' and self.cellname:
            return It('pos', self.cellname, t.fresh('nocell', 'I'), 'cells')
        if n == 'Point' or (n == 'Tensor' and a[0] == '1'):
            d = arith(a[0] if n == 'Point' else a[1])
            return Tup([t.R(0)] * d)
        if n == 'Tensor':
            d = arith(a[1])
            return Tup([Tup([t.R(0)] * d)] * d)
        if n == 'array':
            return Tup([self.default_value(a[0], st, name, uninit) for _ in range(int(a[1].rstrip('UL')))])
        if n in ('vector', 'deque'):
            et = a[0]
            return Vec(et, t.I(0), self.arr_default(et, st))
        if n in ('pair', 'tuple'):
            return Tup([self.default_value(q, st, name) for q in a])
        if n in ('set', 'IndexSet', 'unordered_set'):
            return SetV(a[0] if a else 'unsigned int', Arr('bool', lambda k: t.FALSE))
        if n in ('map', 'unordered_map'):
            return MapV(a[0], a[1], self.arr_default(a[1], st), Arr('bool', lambda k: t.FALSE), True)
        if n == 'string':
            return t.const('', 'S')
        if n in self.models.vector_types:
            return Vec('double', t.I(0), Arr('double', lambda k: t.R(0)))
        if n in self.models.matrix_types:
            return Struct(n, {'m': t.I(0), 'n': t.I(0), 'a': Arr('double', lambda k: t.R(0))})
        if x in self.prog.records and self.prog.records[x]:
            return Struct(x, {}, lambda k: self.default_value(self.field_type(x, k), st, k, uninit=True))
        h = self.models.ext_methods.get((n, '#default'))
        if h:
            return h(self, st, x)
        return Obj(x, t.app('default:' + n, (), 'Obj:' + n))

    def arr_default(self, et, st):
        memo = []

        def base(k):
            if not memo:
                memo.append(self.default_value(et, st))
            return memo[0]
        return Arr(et, base)

    def s_ReturnStmt(self, n, st, fr):
        if not n.inner or n.inner[0].kind == 'Null':
            return [(st, ('ret', VOID))]
        try:
            v = self.ev(n.inner[0], st, fr)
        except Throw:
            return [(st, ('throw',))]
        except PathDead:
            return []
        ret_ref = fr.fn is not None and norm_type(fr.fn.node.type or '').split('(')[0].strip().endswith('&')
        if getattr(fr, 'fn', None) is not None and fr.fn.name == 'operator()' and fr.fn.kind == 'Lambda':
            ret_ref = False
        if not ret_ref:
            v = self.rv(st, v)
        return [(st, ('ret', v))]

    def s_BreakStmt(self, n, st, fr):
        return [(st, ('break',))]

    def s_ContinueStmt(self, n, st, fr):
        return [(st, ('continue',))]

    def s_IfStmt(self, n, st, fr):
        inner = list(n.inner)
        if n.a.get('hasInit') or n.a.get('hasVar'):
            ini = inner.pop(0)
            self.stmt(ini, st, fr)
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        try:
            c = self.cond(cond, st, fr)
        except Throw:
            return [(st, ('throw',))]
        d = self.decide(st, c)
        if d is True:
            return self.stmt(then, st, fr)
        if d is False:
            return self.stmt(els, st, fr) if els is not None else [(st, None)]
        s1, s2 = st.fork(c), st.fork(t.not_(c))
        o1 = self.stmt(then, s1, fr)
        o2 = self.stmt(els, s2, fr) if els is not None else [(s2, None)]
        return self.join(st, c, o1, o2)

    def join(self, st, c, o1, o2):
        n1 = [s for s, f in o1 if f is None]
        n2 = [s for s, f in o2 if f is None]
        rest = [(s, f) for s, f in o1 + o2 if f is not None]
        if not n1 and not n2:
            return rest
        npc = len(st.pc)
        norm = n1 + n2
        s = norm[-1]
        conds = [t.and_(*x.pc[npc:]) for x in norm]
        for x, cx in zip(reversed(norm[:-1]), reversed(conds[:-1])):
            s = self.merge(cx, x, s, st.pc)
        if len(norm) > 1:
            s.pc = st.pc
            if rest:
                s.assume(t.or_(*conds))
        return [(s, None)] + rest

    def cond(self, n, st, fr):
        v = self.rv(st, self.ev(n, st, fr))
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            if v.sort in ('I', 'R'):
                return t.not_(t.eq(v, t.const(0, v.sort)))
        if isinstance(v, (Ptr,)):
            return t.FALSE if v.cell is None else t.TRUE
        if isinstance(v, PIte):
            return self.notnull(v)
        raise Unsupported('condition of type %s' % type(v).__name__)

    def notnull(self, p):
        if isinstance(p, Ptr):
            return t.FALSE if p.cell is None else t.TRUE
        return t.ite(p.c, self.notnull(p.a), self.notnull(p.b))

    def s_SwitchStmt(self, n, st, fr):
        v = self.rv(st, self.ev(n.inner[0], st, fr))
        if not (isinstance(v, T) and v.op == 'c'):
            raise Unsupported('switch on a symbolic value')
        body = n.inner[-1]
        flat = []

        def unfold(x):
            if x.kind == 'CaseStmt':
                cv = None
                y = x.inner[0]
                flat.append(('case', int(self.rv(st, self.ev(y, st, fr)).val)))
                unfold(x.inner[-1])
            elif x.kind == 'DefaultStmt':
                flat.append(('default', None))
                unfold(x.inner[-1])
            else:
                flat.append(('stmt', x))
        for x in body.inner:
            unfold(x)
        start = next((i for i, f in enumerate(flat) if f[0] == 'case' and f[1] == int(v.val)), None)
        if start is None:
            start = next((i for i, f in enumerate(flat) if f[0] == 'default'), None)
        if start is None:
            return [(st, None)]
        outs = [(st, None)]
        done = []
        for f in flat[start:]:
            if f[0] != 'stmt':
                continue
            nxt = []
            for s, fl in outs:
                for s2, f2 in self.stmt(f[1], s, fr):
                    if f2 is None:
                        nxt.append((s2, None))
                    elif f2[0] == 'break':
                        done.append((s2, None))
                    else:
                        done.append((s2, f2))
            outs = nxt
            if not outs:
                break
        return outs + done

    def s_CXXTryStmt(self, n, st, fr):
        return self.stmt(n.inner[0], st, fr)

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, n, st, fr):
        ini, cvar, cond, inc, body = n.inner[:5]
        if ini.kind != 'Null':
            self.stmt(ini, st, fr)
        condf = (lambda s: self.cond(cond, s, fr)) if cond.kind != 'Null' else (lambda s: t.TRUE)
        incf = (lambda s: self.ev(inc, s, fr)) if inc.kind != 'Null' else (lambda s: None)
        return self.loop(n, st, fr, condf, incf, body)

    def s_WhileStmt(self, n, st, fr):
        cond, body = n.inner[-2], n.inner[-1]
        return self.loop(n, st, fr, lambda s: self.cond(cond, s, fr), lambda s: None, body)

    def s_DoStmt(self, n, st, fr):
        body, cond = n.inner[0], n.inner[1]
        outs = self.stmt(body, st, fr)
        res = []
        for s, fl in outs:
            if fl is None or fl[0] == 'continue':
                res += self.loop(n, s, fr, lambda s: self.cond(cond, s, fr), lambda s: None, body)
            elif fl[0] == 'break':
                res.append((s, None))
            else:
                res.append((s, fl))
        return res

    def s_CXXForRangeStmt(self, n, st, fr):
        # children: init, range decl, begin decl, end decl, cond, inc, loop var decl, body
        rng = next(x for x in n.inner if x.kind == 'DeclStmt' and x.inner and (x.inner[0].a.get('name') or '').startswith('__range'))
        var = n.inner[-2].inner[0]
        body = n.inner[-1]
        self.s_DeclStmt(rng, st, fr)
        rlv = fr.env[rng.inner[0].a['id']]
        return self.models.range_for(n, st, fr, rlv, var, body)

    def body_iter(self, n, st, fr, body, incf):
        """One iteration: returns (continuing states merged or None, exits)."""
        outs = self.stmt(body, st, fr)
        cont, brk, rest = [], [], []
        for s, fl in outs:
            if fl is None or fl[0] == 'continue':
                cont.append(s)
            elif fl[0] == 'break':
                brk.append(s)
            else:
                rest.append((s, fl))
        return cont, brk, rest

    def loop(self, n, st, fr, condf, incf, body):
        exits = []
        rest = []
        cur = [st]
        it = 0
        while cur:
            nxt = []
            for s in cur:
                c = condf(s)
                d = self.decide(s, c)
                if d is False:
                    exits.append(s)
                    continue
                if it == 0 and c.op != 'c':
                    from . import loops
                    o = loops.by_index(self, n, s, fr, condf, incf, body)
                    if o is not None:
                        for s2, f2 in o:
                            if f2 is None:
                                exits.append(s2)
                            else:
                                rest.append((s2, f2))
                        continue
                if d is None or (it == 0 and c.op != 'c'):
                    nob, nden, keep = len(self.obls), len(self.denoms), St(dict(s.store), s.pc)
                    try:
                        o = self.symbolic_loop(n, s, fr, condf, incf, body, c)
                    except Unsupported:
                        if d is None:
                            raise
                        # the first iteration is known to happen: peel it
                        del self.obls[nob:]
                        del self.denoms[nden:]
                        s, o = keep, None
                    if o is not None:
                        for s2, f2 in o:
                            if f2 is None:
                                exits.append(s2)
                            else:
                                rest.append((s2, f2))
                        continue
                cont, brk, rs = self.body_iter(n, s, fr, body, incf)
                exits += brk
                rest += rs
                if len(cont) > 1:
                    cont = [self.merge_many(s, cont)]
                for s2 in cont:
                    incf(s2)
                    nxt.append(s2)
            it += 1
            if it > self.unroll_limit:
                raise Unsupported('loop does not terminate within %d iterations' % self.unroll_limit)
            self.unrolled += 1
            cur = nxt
        if len(exits) > 1:
            # different exit states: keep separate when they cannot be merged
            try:
                exits = [self.merge_many(st, exits)]
            except Unsupported:
                pass
        return [(s, None) for s in exits] + rest

    def merge_many(self, st, ss):
        npc = 0
        while all(len(x.pc) > npc and x.pc[npc] is ss[0].pc[npc] for x in ss):
            npc += 1
        s = ss[-1]
        pc = ss[0].pc[:npc]
        conds = [t.and_(*x.pc[npc:]) for x in ss]
        for x, c in zip(reversed(ss[:-1]), reversed(conds[:-1])):
            s = self.merge(c, x, s, pc)
        s = St(s.store, pc)
        s.assume(t.or_(*conds))
        return s

    def symbolic_loop(self, n, st, fr, condf, incf, body, c0):
        from . import loops
        return loops.summarise(self, n, st, fr, condf, incf, body, c0)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        f = n.comp
        if f is None:
            f = getattr(self, 'e_' + n.kind, None)
            if f is None:
                raise Unsupported('expression %s (line %s)' % (n.kind, n.a.get('line')))
            n.comp = f.__func__
            return f(n, st, fr)
        return f(self, n, st, fr)

    def e_ParenExpr(self, n, st, fr):
        return self.ev(n.inner[0], st, fr)

    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_FullExpr = e_ParenExpr

    def e_SubstNonTypeTemplateParmExpr(self, n, st, fr):
        return self.ev(n.inner[-1], st, fr)

    def e_MaterializeTemporaryExpr(self, n, st, fr):
        v = self.ev(n.inner[0], st, fr)
        return v if isinstance(v, LV) else self.tmp(st, v)

    def e_IntegerLiteral(self, n, st, fr):
        return t.I(int(n.a['value']))

    def e_CharacterLiteral(self, n, st, fr):
        return t.I(int(n.a['value']))

    def e_FloatingLiteral(self, n, st, fr):
        x = (n.a.get('text') or '').rstrip('fFlL').replace("'", '')
        try:
            v = Fraction(x)
        except (ValueError, ZeroDivisionError):
            v = Fraction(n.a['value'])
        return t.R(v)

    def e_CXXBoolLiteralExpr(self, n, st, fr):
        return t.const(bool(n.a['value']) if not isinstance(n.a['value'], str) else n.a['value'] == 'true')

    def e_StringLiteral(self, n, st, fr):
        return self.tmp(st, t.const(n.a['value'].strip('"'), 'S'))

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return NULL

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_PredefinedExpr(self, n, st, fr):
        return t.const('__func__', 'S')

    def e_CXXThisExpr(self, n, st, fr):
        if fr.this is None:
            raise Unsupported('this outside a method')
        return Ptr(fr.this.cell, fr.this.path)

    def e_ImplicitValueInitExpr(self, n, st, fr):
        return self.default_value(n.type, st)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n, st, fr):
        r = n.a['ref']
        k = r['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            lv = fr.env.get(r['id'])
            if lv is not None:
                return lv
            f2 = getattr(fr, 'caps', None) if hasattr(fr, 'caps') else None
            return self.global_var(n, r, st, fr)
        if k == 'EnumConstantDecl':
            return self.models.enum_const(n, r)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return Fn(None, r['name'], norm_type(r['type']))
        raise Unsupported('reference to %s %s' % (k, r['name']))

    def global_var(self, n, r, st, fr):
        name = r['name']
        cands = [c for (c, nm) in self.prog.statics if nm == name]
        cls = fr.fn.cls if fr.fn is not None else None
        c = cls if cls in cands else (cands[0] if cands else None)
        cell = ('G', c, name)
        if cell not in st.store:
            d = self.prog.statics.get((c, name))
            v = self.models.global_value(self, st, c, name, d, n)
            st.store[cell] = v
        return LV(cell)

    def e_MemberExpr(self, n, st, fr):
        if not n.inner:
            # static member
            return self.global_var(n, {'name': n.a['name']}, st, fr)
        name = n.a['name']
        b = self.ev(n.inner[0], st, fr)
        if n.a.get('isArrow'):
            b = self.lv_of_ptr(st, self.rv(st, b))
        if not isinstance(b, LV):
            b = self.tmp(st, b)
        if not name:            # an anonymous union: one of its members is in use
            return b
        ct = strip(n.inner[0].type)
        if ct.endswith('*'):
            ct = strip(ct[:-1])
        if (ct, name) in self.prog.statics and name not in self.prog.records.get(ct, {}):
            return self.global_var(n, {'name': name}, st, fr) if False else self._static_member(ct, name, st, n)
        if len(b.path) >= 2 and b.path[-2] == '#el':
            if name == 'second':
                return LV(b.cell, b.path[:-2] + (b.path[-1],))
            if name == 'first':
                return self.tmp(st, self.key_value(n.type, b.path[-1]))
        r = LV(b.cell, b.path + (name,))
        rec = self.prog.records.get(ct)
        if rec and name in rec and is_ref(rec[name][0]):
            p = self.read(st, r)
            if isinstance(p, Ptr):
                return LV(p.cell, p.path)
        return r

    def key_value(self, ty, key):
        """Rebuild a map key from its terms."""
        x = strip(ty)
        if len(key) == 1:
            n = ptype(x)[0]
            if n == 'TriaActiveIterator':
                return It('pos', self.cellname, key[0], 'cells')
            if key[0].sort.startswith('Obj:'):
                return Obj(x, key[0])
            return key[0]
        n, a = ptype(x)
        if n in ('pair', 'Point', 'Tensor', 'array') and len(key) >= 2:
            return Tup(key)
        raise Unsupported('map key of type ' + x)

    def _static_member(self, cls, name, st, n):
        cell = ('G', cls, name)
        if cell not in st.store:
            st.store[cell] = self.models.global_value(self, st, cls, name, self.prog.statics.get((cls, name)), n)
        return LV(cell)

    def e_ArraySubscriptExpr(self, n, st, fr):
        b = self.rv(st, self.ev(n.inner[0], st, fr))
        i = self.rv(st, self.ev(n.inner[1], st, fr))
        if isinstance(b, T) and not isinstance(i, T):
            b, i = i, b
        return self.ptr_index(st, b, i, n)

    def ptr_index(self, st, b, i, n=None):
        if isinstance(b, Ptr):
            if b.cell is None:
                raise Violated('memory', 'null pointer dereference')
            if b.path and not isinstance(b.path[-1], str) and len(b.path[-1]) == 1 and self.ptr_is_elem(b):
                k = t.add(b.path[-1][0], i)
                path = b.path[:-1] + ((k,),)
            else:
                path = b.path + ((i,),)
            lv = LV(b.cell, path)
            self.bounds(st, lv, n)
            return lv
        if isinstance(b, LV):
            return LV(b.cell, b.path + ((i,),))
        if isinstance(b, PIte):
            return vite(b.c, self.ptr_index(st, b.a, i, n), self.ptr_index(st, b.b, i, n))
        raise Unsupported('subscript of %s' % type(b).__name__)

    def ptr_is_elem(self, b):
        return True

    def bounds(self, st, lv, n):
        h = self.hooks.get('bounds')
        if h:
            h(self, st, lv, n)

    def e_DerivedToBase(self, n, st, fr):
        return self.ev(n.inner[0], st, fr)

    def cast_int(self, v, ty):
        if isinstance(v, T) and v.op == 'c' and v.sort == 'I':
            bits, signed = INT_TYPES.get(strip(ty), (64, True))
            x = int(v.val) & ((1 << bits) - 1)
            if signed and x >> (bits - 1):
                x -= 1 << bits
            return t.I(x)
        return v

    def e_ImplicitCastExpr(self, n, st, fr):
        k = n.a.get('castKind')
        x = self.ev(n.inner[0], st, fr)
        if k == 'LValueToRValue':
            return self.rv(st, x)
        if k in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived', 'Dynamic'):
            return x
        if k in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return x
        if k == 'ArrayToPointerDecay':
            if isinstance(x, LV):
                v = self.read(st, x)
                if isinstance(v, T) and v.sort == 'S':
                    return v
                return Ptr(x.cell, x.path + ((t.I(0),),))
            return x
        if k == 'IntegralCast':
            v = self.rv(st, x)
            if isinstance(v, T) and v.sort == 'B':
                return t.toI(v)
            return self.cast_int(v, n.type)
        if k in ('IntegralToFloating',):
            v = self.rv(st, x)
            return t.toR(t.toI(v) if v.sort == 'B' else v)
        if k == 'FloatingToIntegral':
            v = self.rv(st, x)
            if v.op == 'c':
                return t.I(int(v.val))
            return self.models.real_to_int(v)
        if k == 'FloatingCast':
            return self.rv(st, x)
        if k in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.rv(st, x)
            return v if v.sort == 'B' else t.not_(t.eq(v, t.const(0, v.sort)))
        if k in ('PointerToBoolean',):
            return self.notnull(self.rv(st, x))
        if k in ('NullToPointer',):
            return NULL
        if k in ('NullToMemberPointer', 'IntegralToPointer'):
            return NULL
        if k in ('BitCast', 'ToVoid', 'LValueBitCast'):
            return x
        raise Unsupported('cast %s' % k)

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_ImplicitCastExpr

    def arith(self, op, a, b, ty, n=None):
        s = self.sort_of(ty)
        if op == '+':
            r = t.add(a, b)
        elif op == '-':
            r = t.sub(a, b)
        elif op == '*':
            r = t.mul(a, b)
        elif op == '/':
            if s == 'I':
                if b.op == 'c' and b.val == 0:
                    raise Violated('arith', 'integer division by zero')
                r = t.idiv(a, b)
            else:
                if b.op != 'c':
                    self.denoms.append(b)
                r = t.div(a, b)
        elif op == '%':
            r = t.imod(a, b)
        elif op in ('<<', '>>', '&', '|', '^'):
            if a.sort == 'B' and b.sort == 'B':
                return {'&': t.and_, '|': t.or_, '^': lambda x, y: t.not_(t.eq(x, y))}[op](a, b)
            if a.op == 'c' and b.op == 'c':
                x, y = int(a.val), int(b.val)
                r = t.I({'<<': x << y, '>>': x >> y, '&': x & y, '|': x | y, '^': x ^ y}[op])
            else:
                r = self.bitop(op, a, b)
        else:
            raise Unsupported('operator ' + op)
        if s == 'I':
            r = self.cast_int(r, ty)
        return r

    def bitop(self, op, a, b):
        def isb(x):
            return x.op == 'ite' and all(y.op == 'c' and y.val in (0, 1) for y in x.args[1:]) or (x.op == 'c' and x.val in (0, 1))

        def tb(x):
            return t.not_(t.eq(x, t.I(0)))
        if isb(a) and isb(b):
            c = {'&': t.and_, '|': t.or_}.get(op)
            if c:
                return t.toI(c(tb(a), tb(b)))
        return t.app('bit' + op, (a, b), 'I')

    CMP = {'<': t.lt, '<=': t.le, '>': t.gt, '>=': t.ge}

    def e_BinaryOperator(self, n, st, fr):
        op = n.a['opcode']
        if op == '=':
            b = self.rv(st, self.ev(n.inner[1], st, fr))
            a = self.ev(n.inner[0], st, fr)
            self.write(st, a, b)
            return a
        if op in ('&&', '||'):
            a = self.cond(n.inner[0], st, fr)
            d = a.val if a.op == 'c' else None
            if d is not None:
                if op == '&&' and not d:
                    return t.FALSE
                if op == '||' and d:
                    return t.TRUE
                return self.cond(n.inner[1], st, fr)
            s2 = st.fork(a if op == '&&' else t.not_(a))
            b = self.cond(n.inner[1], s2, fr)
            if any(s2.store.get(k) is not v for k, v in st.store.items()):
                # side effects in the right operand
                s1 = st.fork(t.not_(a) if op == '&&' else a)
                m = self.merge(a if op == '&&' else t.not_(a), s2, s1, st.pc)
                st.store = m.store
            else:
                for k, v in s2.store.items():
                    st.store.setdefault(k, v)
            return t.and_(a, b) if op == '&&' else t.or_(a, b)
        if op == ',':
            self.ev(n.inner[0], st, fr)
            return self.ev(n.inner[1], st, fr)
        if op in ('.*', '->*'):
            a = self.ev(n.inner[0], st, fr)
            f = self.rv(st, self.ev(n.inner[1], st, fr))
            if op == '->*':
                a = self.lv_of_ptr(st, self.rv(st, a))
            return ('boundmem', a, f)
        a = self.rv(st, self.ev(n.inner[0], st, fr))
        b = self.rv(st, self.ev(n.inner[1], st, fr))
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else t.not_(r)
        if op in self.CMP:
            if isinstance(a, T) and isinstance(b, T):
                return self.CMP[op](a, b)
            raise Unsupported('comparison of %s' % type(a).__name__)
        if isinstance(a, Ptr) and isinstance(b, T):
            return Ptr(a.cell, a.path[:-1] + ((t.add(a.path[-1][0], b if op == '+' else t.neg(b)),),))
        if not isinstance(a, T) or not isinstance(b, T):
            raise Unsupported('arithmetic on %s' % type(a).__name__)
        return self.arith(op, a, b, n.type, n)

    def equal(self, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return t.eq(a, b)
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            return self.ptr_eq(a, b)
        if isinstance(a, (Ptr, PIte)) and isinstance(b, T) and b.op == 'c' and b.val == 0:
            return t.not_(self.notnull(a))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return t.and_(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, It) or isinstance(b, It):
            return self.models.it_eq(a, b)
        if isinstance(a, Cx) and isinstance(b, Cx):
            return t.and_(t.eq(a.re, b.re), t.eq(a.im, b.im))
        if isinstance(a, Obj) and isinstance(b, Obj):
            return t.eq(a.term, b.term)
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def ptr_eq(self, a, b):
        if isinstance(a, PIte):
            return t.ite(a.c, self.ptr_eq(a.a, b), self.ptr_eq(a.b, b))
        if isinstance(b, PIte):
            return self.ptr_eq(b, a)
        if a.cell != b.cell or len(a.path) != len(b.path):
            return t.FALSE
        c = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return t.FALSE
            else:
                c += [t.eq(u, v) for u, v in zip(x, y)]
        return t.and_(*c)

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n.a['opcode'][:-1]
        b = self.rv(st, self.ev(n.inner[1], st, fr))
        a = self.ev(n.inner[0], st, fr)
        ct = n.a.get('computeLHSType') or n.type
        if op in ('+', '-') and isinstance(b, T) and self.sort_of(n.type) in ('R', 'I') and isinstance(a, LV) and \
                any(not isinstance(p, str) and not all_const(p) for p in a.path):
            d = b if op == '+' else t.neg(b)
            self.write(st, a, t.toR(d) if self.sort_of(n.type) == 'R' else d, 'add')
            return a
        old = self.rv(st, a)
        if isinstance(old, Ptr):
            self.write(st, a, Ptr(old.cell, old.path[:-1] + ((t.add(old.path[-1][0], b if op == '+' else t.neg(b)),),)))
            return a
        if self.sort_of(ct) == 'R':
            old2 = t.toR(old)
        else:
            old2 = old
        r = self.arith(op, old2, b, ct, n)
        if self.sort_of(n.type) == 'I' and r.sort == 'R':
            r = t.I(int(r.val)) if r.op == 'c' else self.models.real_to_int(r)
        if self.sort_of(n.type) == 'I':
            r = self.cast_int(r, n.type)
        self.write(st, a, r)
        return a

    def e_UnaryOperator(self, n, st, fr):
        op = n.a['opcode']
        x = self.ev(n.inner[0], st, fr)
        if op == '&':
            if isinstance(x, LV):
                return Ptr(x.cell, x.path)
            if isinstance(x, Fn):
                ty = norm_type(n.type)
                m = re.search(r'\((\w[\w<>, ]*)::\*\)', ty)
                cls = m.group(1) if m else None
                return Fn(cls, x.name, re.sub(r'\s*\(\w[\w<>, ]*::\*\)', ' ', ty))
            raise Unsupported('address of')
        if op == '*':
            p = self.rv(st, x)
            lv = self.lv_of_ptr(st, p)
            self.bounds(st, lv, n)
            return lv
        if op == '!':
            v = self.rv(st, x)
            if isinstance(v, (Ptr, PIte)):
                return t.not_(self.notnull(v))
            return t.not_(v if v.sort == 'B' else t.not_(t.eq(v, t.const(0, v.sort))))
        if op == '-':
            return self.cast_int(t.neg(self.rv(st, x)), n.type) if self.sort_of(n.type) == 'I' else t.neg(self.rv(st, x))
        if op == '+':
            return self.rv(st, x)
        if op in ('++', '--'):
            v = self.rv(st, x)
            d = 1 if op == '++' else -1
            if isinstance(v, T):
                nv = t.add(v, t.const(d, v.sort))
                if v.sort == 'I':
                    nv = self.cast_int(nv, n.type)
            elif isinstance(v, Ptr):
                nv = Ptr(v.cell, v.path[:-1] + ((t.add(v.path[-1][0], t.I(d)),),))
            else:
                nv = self.models.it_inc(st, v, d)
            self.write(st, x, nv)
            return v if n.a.get('isPostfix') else x
        if op == '~':
            v = self.rv(st, x)
            if v.op == 'c':
                return self.cast_int(t.I(~int(v.val)), n.type)
        if op == '__extension__':
            return x
        raise Unsupported('unary ' + op)

    def e_ConditionalOperator(self, n, st, fr):
        c = self.cond(n.inner[0], st, fr)
        d = c.val if c.op == 'c' else self.decide(st, c)
        if d is not None:
            return self.ev(n.inner[1 if d else 2], st, fr)
        s1, s2 = st.fork(c), st.fork(t.not_(c))
        try:
            a = self.ev(n.inner[1], s1, fr)
        except (Throw, PathDead):
            st.assume(t.not_(c))
            return self.ev(n.inner[2], st, fr)
        try:
            b = self.ev(n.inner[2], s2, fr)
        except (Throw, PathDead):
            st.assume(c)
            return self.ev(n.inner[1], st, fr)
        if isinstance(a, LV) and isinstance(b, LV):
            try:
                r = vite(c, a, b)
            except Unsupported:
                r = vite(c, self.read(s1, a), self.read(s2, b))
        else:
            r = vite(c, self.rv(s1, a), self.rv(s2, b))
        m = self.merge(c, s1, s2, st.pc)
        st.store = m.store
        return r

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        ty = strip(n.a.get('argType') or (n.inner[0].type if n.inner else ''))
        sizes = {'double': 8, 'complex<double>': 16, 'int': 4, 'unsigned int': 4, 'char': 1, 'float': 4, 'long': 8}
        if ty.endswith('*'):
            return t.I(8)
        if ty in sizes:
            return t.I(sizes[ty])
        raise Unsupported('sizeof ' + ty)

    def e_CXXDefaultArgExpr(self, n, st, fr):
        if n.inner:
            return self.ev(n.inner[0], st, fr)
        return DEFAULT

    def e_CXXDefaultInitExpr(self, n, st, fr):
        if n.inner:
            return self.ev(n.inner[0], st, fr)
        return self.default_value(n.type, st)

    def e_InitListExpr(self, n, st, fr):
        return self.models.init_list(n, st, fr)

    e_CXXStdInitializerListExpr = e_ParenExpr

    def e_CXXThrowExpr(self, n, st, fr):
        raise Throw()

    def args(self, nodes, st, fr):
        out = []
        for x in nodes:
            out.append(self.ev(x, st, fr))
        while out and out[-1] is DEFAULT:
            out.pop()
        return out

    def e_CXXConstructExpr(self, n, st, fr):
        return self.models.construct(n, st, fr)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_repo(self, st, cls, sig, args, node, lv=None):
        """Run a repository class constructor; returns the value (or builds in place)."""
        x = strip(cls)
        sig = norm_type(sig)
        if re.match(r'^void \((const )?%s &&?\)( noexcept)?$' % re.escape(x), sig) and not any(
                f.body is not None for f in self.prog.find(x, ptype(x)[0].split('::')[-1], sig)):
            v = self.rv(st, args[0])
            if lv is not None:
                self.write(st, lv, v)
                return None
            return v
        nm = ptype(x)[0].split('::')[-1]
        c = [f for f in self.prog.find(x, nm, sig)]
        c = [f for f in c if f.sig == sig] or c
        if lv is None:
            cell = self.new_cell('t')
            st.store[cell] = Struct(x, {}, lambda k: self.field_default(x, k, st))
            lv2 = LV(cell)
        else:
            self.write(st, lv, Struct(x, {}, lambda k: self.field_default(x, k, st)))
            lv2 = lv
        if not c or c[0].body is None:
            if not args:
                pass        # implicit default constructor
            else:
                raise Unsupported('constructor %s %s' % (x, sig))
        else:
            self.call(st, c[0], lv2, args, node)
        return self.read(st, lv2) if lv is None else None

    def field_default(self, cls, k, st):
        ty, init = self.prog.records[cls][k] if k in self.prog.records[cls] else (self.field_type(cls, k), None)
        return self.default_value(ty, st, k, uninit=True)

    def e_CXXNewExpr(self, n, st, fr):
        ty = norm_type(n.type)
        et = strip(ty[:-1].strip())
        cell = self.new_cell('h')
        if n.a.get('isArray'):
            sz = None
            ctor = None
            for x in n.inner:
                if x.kind in ('CXXConstructExpr',):
                    ctor = x
                elif sz is None:
                    sz = self.rv(st, self.ev(x, st, fr))
            scal = self.sort_of(et) is not None
            arr = Arr(et, (lambda k: t.app('uninit', (t.const(str(cell), 'S'),) + tuple(k), self.sort_of(et))) if scal
                      else (lambda k: self.default_value(et, st)))
            st.store[cell] = Vec(et, sz, arr)
            return Ptr(cell, ((t.I(0),),))
        ini = n.inner[0] if n.inner else None
        if ini is None:
            st.store[cell] = self.default_value(et, st, 'new', uninit=True)
        else:
            v = self.ev(ini, st, fr)
            st.store[cell] = self.rv(st, v)
        return Ptr(cell, ())

    def e_CXXDeleteExpr(self, n, st, fr):
        p = self.rv(st, self.ev(n.inner[0], st, fr))
        h = self.hooks.get('delete')
        if h:
            h(self, st, p, n)
        elif self.track_heap:
            self.free(p, n.a.get('isArray') or n.a.get('isArrayAsWritten'))
        elif isinstance(p, Ptr) and p.cell is not None and p.cell[0] in 'LS':
            self.oblige('only memory obtained from new is deleted', st, t.FALSE, n)
        return VOID

    def free(self, p, array):
        """delete / delete[] (only used where no path condition forks)."""
        if not isinstance(p, Ptr):
            raise Unsupported('delete of a conditional pointer')
        if p.cell is None:
            return
        if p.cell in self.freed:
            raise Violated('memory', 'double free of %s' % (p.cell,))
        if p.cell[0] != 'h':
            raise Violated('memory', 'delete of memory that was not allocated with new')
        if bool(p.path) != bool(array):
            raise Violated('memory', 'mismatched new[] / delete')
        if array and p.path[-1][0] is not t.I(0):
            raise Violated('memory', 'delete[] of an interior pointer')
        self.freed.add(p.cell)

    def destroy_locals(self, node, st, fr):
        for ch in reversed(node.inner):
            if ch.kind != 'DeclStmt':
                continue
            for d in reversed(ch.inner):
                if d.kind != 'VarDecl' or is_ref(d.type or '') or d.a.get('storageClass') == 'static':
                    continue
                x = strip(d.type or '')
                lv = fr.env.get(d.a['id'])
                dt = [f for f in self.prog.find(x, '~' + x) if f.body is not None] if x in self.prog.records else []
                if dt and lv is not None and lv.cell in st.store:
                    self.run_body(st, dt[0], lv, [])
                    del st.store[lv.cell]

    def e_LambdaExpr(self, n, st, fr):
        rec = n.inner[0]
        op = next((c for c in rec.inner if c.kind == 'CXXMethodDecl' and c.a.get('name') == 'operator()'), None)
        if op is None:
            raise Unsupported('generic lambda')
        flds = [c for c in rec.inner if c.kind == 'FieldDecl']
        return Lam(n, fr, None)

    def call_lambda(self, st, lam, args, node=None):
        rec = lam.node.inner[0]
        op = next((c for c in rec.inner if c.kind == 'CXXMethodDecl' and c.a.get('name') == 'operator()'), None)
        if op is None:
            tm = next((c for c in rec.inner if c.kind == 'FunctionTemplateDecl'), None)
            if tm is not None:
                op = tm.inner[-1]
        f = Func(None, op, lam.frame.unit)
        f.name = 'operator()'
        f.kind = 'Lambda'
        body = next((c for c in op.inner if c.kind == 'CompoundStmt'), None)
        if body is None:
            body = next(c for c in lam.node.inner if c.kind == 'CompoundStmt')
        self.nframes += 1
        fr = Frame(self.nframes, lam.frame.this, f, lam.frame.unit)
        fr.env = dict(lam.frame.env)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        if not hasattr(self, 'stack'):
            self.stack = []
        self.stack.append((lam.frame.fn.qname if lam.frame.fn else '') + '::lambda')
        try:
            self.bind_params(st, fr, f.params, args)
            npc = len(st.pc)
            outs = self.block(body, st, fr)
            return self.join_call(st, outs, npc, f)
        finally:
            self.depth -= 1
            self.stack.pop()

    def e_CallExpr(self, n, st, fr):
        callee = self.ev(n.inner[0], st, fr)
        f = self.rv(st, callee) if isinstance(callee, LV) else callee
        if isinstance(f, Fn):
            return self.call_named(n, st, fr, f)
        if isinstance(f, (Lam, Bind)):
            return self.apply(st, f, self.args(n.inner[1:], st, fr), n)
        raise Unsupported('call through %s' % type(f).__name__)

    def apply(self, st, f, args, n=None):
        if isinstance(f, LV):
            f = self.read(st, f)
        if isinstance(f, Lam):
            return self.call_lambda(st, f, args, n)
        if isinstance(f, Bind):
            full = []
            for a in f.args:
                if isinstance(a, tuple) and a[0] == 'ph':
                    full.append(args[a[1] - 1])
                else:
                    full.append(a)
            return self.apply(st, f.fn, full, n)
        if isinstance(f, Fn):
            if f.cls:
                c = [g for g in self.prog.find(f.cls, f.name) if g.body is not None]
                if len(c) > 1:
                    c2 = [g for g in c if g.sig.replace(' ', '') == f.sig.replace(' ', '')]
                    c = c2 or [g for g in c if len(g.params) == len(args) - 1]
                if not c:
                    raise Unsupported('call of %s::%s' % (f.cls, f.name))
                this = args[0]
                if not isinstance(this, LV):
                    this = self.lv_of_ptr(st, this)
                elif isinstance(self.read(st, this), (Ptr, PIte)):
                    this = self.lv_of_ptr(st, self.read(st, this))
                return self.call(st, c[0], this, args[1:], n)
            c = [g for g in self.prog.find(None, f.name, f.sig)]
            return self.call(st, c[0], None, args, n)
        raise Unsupported('apply %s' % type(f).__name__)

    def call_named(self, n, st, fr, f):
        # clang resolves the callee: free function or static member
        args = None
        name = f.name
        for key in ((None, name),) + tuple((c, name) for c in (fr.fn.cls if fr.fn else None,) if c):
            c = self.prog.funcs.get(key)
            if c:
                ms = [g for g in c if g.sig == f.sig and (key[0] is None or g.static)]
                if not ms and key[0] is not None:
                    ms = [g for g in c if g.static and g.sig == f.sig]
                if ms and (ms[0].body is not None or (ms[0].cls, name) in self.contracts):
                    args = self.args(n.inner[1:], st, fr)
                    return self.call(st, ms[0], None, args, n)
        for (cls, nm), c in self.prog.funcs.items():
            if nm == name and cls is not None:
                ms = [g for g in c if g.static and g.sig == f.sig and g.body is not None]
                if ms:
                    args = self.args(n.inner[1:], st, fr)
                    return self.call(st, ms[0], None, args, n)
        return self.models.free_call(n, st, fr, f)

    def e_CXXMemberCallExpr(self, n, st, fr):
        m = n.inner[0]
        while m.kind in ('ParenExpr', 'ImplicitCastExpr'):
            m = m.inner[0]
        if m.kind == 'BinaryOperator':      # (obj.*ptr)(args)
            _, obj, f = self.ev(m, st, fr)
            args = self.args(n.inner[1:], st, fr)
            if not isinstance(f, Fn):
                raise Unsupported('indirect member call')
            return self.apply(st, f, [obj] + args, n)
        if m.kind != 'MemberExpr':
            raise Unsupported('member call through %s' % m.kind)
        name = m.a['name']
        basen = m.inner[0]
        b = self.ev(basen, st, fr)
        bt = strip(basen.type)
        const_obj = norm_type(basen.type).startswith('const ')
        if m.a.get('isArrow'):
            b = self.lv_of_ptr(st, self.rv(st, b))
            bt = strip(bt[:-1]) if bt.endswith('*') else bt
            const_obj = norm_type(basen.type).startswith('const ')
        if not isinstance(b, LV):
            b = self.tmp(st, b)
        bt = self.alias.get(bt, bt)
        # repository method?
        f = self.repo_method(bt, name, m, fr, n)
        if f is not None:
            args = self.args(n.inner[1:], st, fr)
            return self.call(st, f, b, args, n)
        return self.models.method_call(n, st, fr, bt, name, b, const_obj, n.inner[1:])

    def repo_method(self, bt, name, m, fr, n):
        rid = m.a.get('referencedMemberDecl')
        k = self.prog.byid.get((fr.unit, rid))
        if k is not None:
            c = self.prog.funcs.get((k[0], k[1]))
            ms = [g for g in c if g.sig == k[2]]
            if ms:
                if ms[0].body is None:
                    # body may come from another dump of the same class
                    pass
                return ms[0]
        c = self.prog.funcs.get((bt, name))
        if not c:
            return None
        if len(c) == 1:
            return c[0]
        nargs = len(n.inner) - 1
        ms = [g for g in c if len(g.params) == nargs]
        if len(ms) == 1:
            return ms[0]
        # overloads: match argument types
        ats = [norm_type(x.type) for x in n.inner[1:]]
        best = [g for g in ms if all(strip(p.type) == strip(a) for p, a in zip(g.params, ats))]
        if len(best) == 1:
            return best[0]
        raise Unsupported('overload %s::%s' % (bt, name))

    def e_CXXOperatorCallExpr(self, n, st, fr):
        return self.models.operator_call(n, st, fr)


class Dead:
    """Value of a local that differs irreconcilably after a merge; never read."""

    def __init__(self, a, b):
        pass


class Default:
    pass


DEFAULT = Default()


class Throw(Exception):
    pass


class PathDead(Exception):
    pass
