"""Contracts on statements: a statement of a real function is executed from an
arbitrary state in which the contract's precondition holds, so that its
postcondition is proved for every state the function can reach it in."""
from dv import terms as t
from dv.terms import T
from dv.exec import Frame
from dv.extract import norm_type, Node
from dv.vals import *

LOOPS = ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt')


def walk(n):
    yield n
    for c in n.inner:
        if c is not None:
            yield from walk(c)


def calls(n, name):
    return any(c.kind == 'MemberExpr' and c.a.get('name') == name for c in walk(n))


def mentions(n, name):
    return any(c.kind == 'DeclRefExpr' and c.a['ref'].get('name') == name for c in walk(n))


def loops(n):
    return [c for c in walk(n) if c.kind in LOOPS]


def innermost(fn, pred):
    """The innermost loop of fn satisfying pred, in program order."""
    out = [l for l in loops(fn.body) if pred(l) and not any(pred(m) for m in loops(l) if m is not l)]
    if not out:
        raise Unsupported('statement under contract not found in %s' % fn.qname)
    return out


def refer(e):
    """the variable that an expression names"""
    while e.kind in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXConstructExpr', 'UnaryOperator') and len(e.inner) == 1:
        e = e.inner[0]
    if e.kind != 'DeclRefExpr':
        raise Unsupported('a variable is expected, not %s' % e.kind)
    return e.a['ref']['id']


def args(n, name):
    """the arguments of the calls of a member or a function"""
    for c in walk(n):
        if c.kind in ('CallExpr', 'CXXMemberCallExpr'):
            f = c.inner[0]
            if any((x.kind == 'MemberExpr' and x.a.get('name') == name) or (x.kind == 'DeclRefExpr' and x.a['ref'].get('name') == name)
                   for x in walk(f)):
                yield c.inner[1:]


def counter(loop):
    """the variable of a loop"""
    if loop.kind != 'ForStmt':
        raise Unsupported('a loop with a variable is expected')
    d = [c for c in walk(loop.inner[0]) if c.kind == 'VarDecl']
    if len(d) == 1:
        return d[0].a['id']
    return refer(next(c.inner[0] for c in walk(loop.inner[3]) if c.kind in ('UnaryOperator', 'CompoundAssignOperator')))


def around(fn, node):
    """the loops around a node, from the outside"""
    return [l for l in loops(fn.body) if l is not node and any(c is node for c in walk(l))]


def body(loop):
    return loop.inner[-1]


class At:
    """Frame in which a statement of fn is executed."""

    def __init__(self, ex, st, fn, node, this, given):
        self.ex = ex
        ex.nframes += 1
        fr = self.fr = Frame(ex.nframes, this, fn, fn.unit)
        self.vars = {}
        self.node = node
        roles = getattr(ex, 'roles', {})        # what variables are for: their names do not matter
        for c in walk(fn.body):         # classes declared in the function
            if c.kind == 'CXXRecordDecl' and c.a.get('name') and not c.a.get('isImplicit'):
                ex.local_record(c, fr)
        inside = {c.a.get('id') for c in walk(node) if c.kind in ('VarDecl', 'BindingDecl')}
        for c in walk(node):
            if c.kind != 'DeclRefExpr':
                continue
            r = c.a['ref']
            if r['kind'] not in ('VarDecl', 'ParmVarDecl') or r['id'] in inside or r['id'] in fr.env:
                continue
            nm = roles.get(r['id'])
            if nm is None:
                nm = r['name'] if r['name'] not in roles.values() else r['name'] + "'"
            if not any(d.kind in ('VarDecl', 'ParmVarDecl') and d.a.get('id') == r['id'] for d in walk(fn.body)) and r['id'] not in {p.a['id'] for p in fn.params}:
                continue            # a global
            cell = ('L', fr.id, r['id'])
            ty = norm_type(r['type'])
            v = given.get(r['id'], given.get(nm))
            st.store[cell] = (v() if callable(v) else v) if v is not None else ex.mk_sym(ty, nm)
            fr.env[r['id']] = LV(cell)
            self.vars[nm] = LV(cell)
        if not hasattr(ex, 'stack'):
            ex.stack = []
        ex.stack.append(fn.qname)
        ex.used[fn.qname] = ex.used.get(fn.qname, 0) + 1
        self.st0 = st.fork()        # (the state before)
        self.outs = ex.stmt(node, st, fr)
        ex.stack.pop()

    def local(self, name):
        """a variable that the statement declares"""
        for c in walk(self.node):
            if c.kind == 'VarDecl' and c.a.get('name') == name and c.a.get('id') in self.fr.env:
                return self.fr.env[c.a['id']]
        raise Unsupported('no variable %s in the statement under contract' % name)

    def normal(self):
        """the state in which the statement ends normally"""
        live = [s for s, fl in self.outs if fl is None or fl[0] == 'continue']
        if len(live) != 1 or len(self.outs) != 1:
            raise Unsupported('several exits of the statement: %s' % [fl for _, fl in self.outs])
        return live[0]


def part(block, pick):
    """The compound statement of the statements of `block` that `pick` accepts."""
    n = Node()
    n.kind, n.type, n.a, n.comp = block.kind, block.type, block.a, None
    n.inner = [c for c in block.inner if c is not None and pick(c)]
    if not n.inner:
        raise Unsupported('statement under contract not found')
    return n


def without(node, drop):
    """node without the nested statements that `drop` accepts (their contracts are separate)."""
    n = Node()
    n.kind, n.type, n.a, n.comp = node.kind, node.type, node.a, None
    n.inner = [None if c is None else without(c, drop) for c in node.inner if c is None or not (node.kind == 'CompoundStmt' and drop(c))]
    return n


def differ(a, b, path=()):
    """The paths at which the value b is not the value a."""
    if a is b:
        return
    if isinstance(a, Struct) and isinstance(b, Struct):
        for k in b.f:
            if k in a.f:
                yield from differ(a.f[k], b.f[k], path + (k,))
            elif a.get(k) is not b.f[k]:
                yield from differ(a.get(k), b.f[k], path + (k,))
        return
    if isinstance(a, T) and a == b:
        return
    yield path, a


def test(loop):
    """the condition of a loop"""
    return loop.inner[2] if loop.kind == 'ForStmt' else loop.inner[-2]


def repeat(ex, st, fr, node, inv=None, havoc=None, begin=None, end=None, enter=None):
    """A loop by an invariant: everything a pass changes is arbitrary but for the invariant.

    inv(st) -> {name: condition}; havoc(cell, path, old value) -> an arbitrary value of that
    type, or None for the default; enter(st): where the loop starts;
    begin(st), end(start, st): around one generic pass.
    Returns the states in which the loop has ended."""
    if node.kind == 'ForStmt':
        ini, _, cond, inc, bd = node.inner[:5]
        if ini.kind != 'Null':
            ex.stmt(ini, st, fr)
    elif node.kind == 'WhileStmt':
        cond, bd, inc = node.inner[-2], node.inner[-1], None
    else:
        raise Unsupported('invariant for a %s' % node.kind)
    if enter:
        enter(st)
    inv = inv or (lambda s: {})
    for nm, c in inv(st).items():
        ex.oblige('%s: initially' % nm, st, c)
    known = set(st.store)
    nob = len(ex.obls)
    any_ = {}
    while True:
        g = st.fork()
        for (cell, path), v in any_.items():
            ex.write(g, LV(cell, path), v)
        for c in inv(g).values():
            g.assume(c)
        del ex.obls[nob:]
        done = g.fork()
        c = ex.cond(cond, g, fr)
        out = ex.cond(cond, done, fr)
        done.assume(t.not_(out))
        g.assume(c)
        start = g.fork()
        if begin:
            begin(g)
        new = False
        outs = ex.stmt(bd, g, fr)
        live = []
        for s, fl in outs:
            if fl is None or fl[0] == 'continue':
                if inc is not None and inc.kind != 'Null':
                    ex.ev(inc, s, fr)
                live.append(s)
            else:
                raise Unsupported('a loop under an invariant is left by %s' % fl[0])
        for s in live:
            for cell in known:
                for path, v in differ(start.store[cell], s.store[cell]):
                    if (cell, path) in any_:
                        continue
                    w = havoc(cell, path, v) if havoc else None
                    if w is None and isinstance(v, T):
                        w = t.fresh('any', v.sort)
                    if w is None:
                        raise Unsupported('a loop under an invariant changes %s%s' % (cell, path))
                    any_[cell, path] = w
                    new = True
        if not new:
            break
    for s in live:
        for nm, c in inv(s).items():
            ex.oblige('%s: kept by every pass' % nm, s, c)
        if end:
            end(start, s)
    return [(done, None)]
