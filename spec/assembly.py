"""Contract of a constrained assembly over the cells: AffineConstraints::distribute_local_to_global, the linear
solver and AffineConstraints::distribute, with the local contributions as ghost state of the matrix."""
from dv import terms as t, fem
from dv.vals import *
from dv.access import vget
from spec.bem import *

c, i, j = (t.var(x, 'I') for x in 'cij')


class Assembly:
    def __init__(self, ex, ctx, constraints, size):
        self.ex, self.ctx, self.constraints, self.size = ex, ctx, constraints, size
        self.rhs, self.dhs, self.solves, self.distributed = set(), set(), [], []
        M = ex.models.ext_methods
        M[(None, 'distribute_local_to_global')] = self.add
        M[(None, 'distribute')] = self.distribute
        M[(None, 'reinit')] = self.reinit
        M[(None, 'compress')] = lambda ex, st, lv, a, nd: VOID
        M[(None, 'initialize')] = lambda ex, st, lv, a, nd: VOID
        M[(None, 'solve')] = self.solve

    def reinit(self, ex, st, lv, a, nd):
        p = ex.rv(st, a[0])
        if 'SparsityPattern' not in str(getattr(p, 'cls', '')):
            return NotImplemented
        z = Arr('double', lambda kk: t.R(0))
        none = Struct('Local', {'n': t.R(0), 'A': z, 'b': z, 'sz': t.I(0)})
        ex.write(st, lv, Struct('Assembled', {'pat': p, 'cells': Vec('Local', fem.NCELLS, Arr('Local', lambda kk: none))}))
        return VOID

    def add(self, ex, st, lv, a, nd):
        A, b, idx = (ex.rv(st, x) for x in a[:3])
        mat, rhs = a[3:]
        if not isinstance(ex.read(st, mat), Struct) or ex.read(st, mat).cls != 'Assembled':
            raise Unsupported('assembly into a matrix that was not set up')
        g = vget(idx, ((i,),))
        cell = g.args[0] if g.op == 'app' and g.val.endswith('.dof') and g.args[1] is i else None
        if cell is None:
            ex.oblige('local contributions are added for the degrees of freedom of one cell', st, t.FALSE)
            return VOID
        ex.oblige('the constraints are those of the space', st, t.TRUE if (lv.cell, lv.path) == (self.constraints.cell, self.constraints.path) else t.FALSE)
        ex.oblige('the right-hand side starts at zero', st, t.eq(vget(ex.read(st, rhs), ((k,),)), t.R(0)))
        self.rhs.add((rhs.cell, rhs.path))
        self.dhs.add(g.val[:-4])
        at = lambda *p: LV(mat.cell, mat.path + ('cells', (cell,)) + p)
        ex.write(st, at('n'), t.R(1), 'add')
        ex.write(st, at('A'), A.get('a') if isinstance(A, Struct) else A.data)
        ex.write(st, at('b'), b.data)
        ex.write(st, at('sz'), vget(idx, ('#size',)))
        return VOID

    def solve(self, ex, st, lv, a, nd):
        A = ex.rv(st, a[0])
        if not isinstance(A, Struct) or A.cls != 'Assembled':
            raise Unsupported('solution with a matrix that was not assembled')
        nm = 'solution!%d' % len(self.solves)
        self.solves.append((st.pc, A, (a[2].cell, a[2].path)))
        ex.write(st, a[1], mkvec(nm, self.size))
        return VOID

    def distribute(self, ex, st, lv, a, nd):
        ex.oblige('the constraints are those of the space', st, t.TRUE if (lv.cell, lv.path) == (self.constraints.cell, self.constraints.path) else t.FALSE)
        v = ex.read(st, a[0])
        g = vget(v, ((k,),))
        if g.op == 'app' and g.args == (k,) and g.val.startswith('solution!'):
            ex.write(st, a[0], mkvec('distributed' + g.val, self.size))
            return VOID
        raise Unsupported('constraints distributed into %s' % g)

    def check(self, st, result, dh, pattern, dofs, owned, matrix, rhs):
        """result: value of the vector to be the solution; matrix(c, i, j), rhs(c, i): specified local contributions."""
        ctx = self.ctx
        ctx.record('one linear system is solved', len(self.solves) == 1, 'symbolic execution')
        ctx.record('assembled over the cells of the space', self.dhs == {dh}, 'symbolic execution', str(self.dhs))
        if len(self.solves) != 1:
            return
        pc, A, b = self.solves[0]
        ctx.record('with the assembled right-hand side', {b} == self.rhs, 'symbolic execution', str(self.rhs))
        ctx.record('with the sparsity pattern of the space', str(A.get('pat').get('m')) == pattern + '.m', 'symbolic execution', str(A.get('pat')))
        ctx.eq('the field is the solution with the constraints distributed', st.pc, vget(result, ((k,),)), a('distributedsolution!0'), control=True)
        pc = pc + (inr(c, fem.NCELLS),)
        at = lambda *p: vget(A, ('cells', (c,)) + p)
        ctx.reach('some cell is assembled', pc + (owned(c),))
        ctx.eq('every owned cell is added exactly once, no other', pc, at('n'), t.ite(owned(c), t.R(1), t.R(0)), control=True)
        own = pc + (owned(c), inr(i, dofs), inr(j, dofs))
        ctx.eq('the dofs of a cell', own, at('sz'), dofs)
        ctx.eq('local matrix', own, at('A', (i, j)), matrix(c, i, j), control=True)
        ctx.eq('local right-hand side', own, at('b', (i,)), rhs(c, i), control=True)

    def bases(self):
        """the FEValues objects the assembled values come from, by the finite element they evaluate"""
        out = {}
        for pc, A, b in self.solves:
            for v in (vget(A, ('cells', (c,), 'A', (i, j))), vget(A, ('cells', (c,), 'b', (i,)))):
                for x in t.subterms(v):
                    if x.op == 'app' and x.val == 'FEValues.at':
                        out.setdefault(str(x.args[0].args[1]), set()).add(x.args[0])
        return out


def flags(ex, base):
    """names of the update flags an FEValues object was built with"""
    v = {x: nm for nm, x in ex.models.enumvals.items()}
    return {v.get(int(x.val)) for x in t.subterms(base.args[3]) if x.op == 'c' and x.sort == 'I'}
