"""Contracts of the deal.II mesh and finite-element classes.

Active cells are numbered 0 .. n_active_cells-1 in iteration order; a cell
iterator of any DoFHandler is its number.  Everything a cell or an FEValues
object is asked for is an uninterpreted function of the cell (and of what the
FEValues object was built from)."""
from . import terms as t
from .terms import T
from .vals import *
from .access import vget

NCELLS = t.var('n_active_cells', 'I')
CELLS = ('DoFHandler', 'Triangulation', 'parallel::distributed::Triangulation')


def dofname(v):
    return str(v.term) if isinstance(v, Obj) else str(v)


def rule(x):
    """An FEValues object before it was attached to a panel."""
    if x.op == 'app' and x.val == 'FEValues.at':
        return rule(x.args[0])
    if x.op == 'ite':
        a, b = rule(x.args[1]), rule(x.args[2])
        return a if a is b else t.ite(x.args[0], a, b)
    return x


def n_points(base):
    if base.op == 'app' and base.val.startswith('new:') and len(base.args) == 4:
        return t.app('Quadrature.size', (base.args[2],), 'I')
    return t.mk('app', (base,), 'I', 'FEValues.n_quadrature_points')


# attaching it again forgets the previous panel; the number of points is the quadrature rule's
t.app_hook('FEValues.at', lambda f, a, s: t.mk('app', (rule(a[0]),) + tuple(a[1:]), s, f))
for nm in ('FEValues.n_quadrature_points', 'FEValuesBase.n_quadrature_points', 'FEValuesBase.get_quadrature_points.size', 'FEValuesBase.get_normal_vectors.size'):
    t.app_hook(nm, lambda f, a, s: n_points(rule(a[0])))


def spacedim(n):
    from .extract import norm_type
    d = [c for c in norm_type(n.type) if c.isdigit()]
    if not d:
        raise Unsupported('dimension of %s' % norm_type(n.type))
    return int(d[-1])


def position(n, i):
    """the place of vertex i"""
    return Tup([t.app('vertex.x%d' % d, (i,), 'R') for d in range(spacedim(n))])


def method(M, n, st, nm, name, lv, v, args):
    """Methods of mesh objects; NotImplemented when not one of them."""
    ex = M.ex
    if isinstance(v, Obj) and nm in CELLS or (nm in CELLS and name in ('begin_active', 'end', 'active_cell_iterators', 'end_active')):
        c = dofname(v) if isinstance(v, Obj) else 'tria'
        if name == 'begin_active':
            return It('pos', c, t.I(0), 'cells')
        if name in ('end', 'end_active'):
            return It('pos', c, NCELLS, 'cells')
        if name == 'active_cell_iterators':
            return Tup2(c)
        if name == 'n_active_cells':
            return NCELLS
        if name == 'n_dofs':
            return t.app(c + '.n_dofs', (), 'I')
        if name in ('begin', 'last'):
            raise Unsupported('%s::%s' % (nm, name))
    if isinstance(v, It) and v.ck == 'cells':
        return cell(M, n, st, lv, v, name, args)
    if isinstance(v, Obj) and v.cls == 'face':
        if name == 'get_dof_indices':
            old = ex.read(st, args[0])
            x = v.term.args
            f = t.app
            nmf = v.f.get('dh')
            ex.write(st, args[0], Vec(old.et, vget(old, ('#size',)), Arr(old.et, lambda k: f(nmf.val + '.facedof', x + (k[0],), 'I'))))
            return VOID
        M.trust('cell face: ' + name)
        if name == 'vertex_index':
            return t.app('face.vertex', v.term.args + (ex.rv(st, args[0]),), 'I')
        if name == 'vertex':
            return position(n, t.app('face.vertex', v.term.args + (ex.rv(st, args[0]),), 'I'))
        if name == 'center':        # (a line: the average of its ends)
            a, b = (position(n, t.app('face.vertex', v.term.args + (t.I(i),), 'I')) for i in (0, 1))
            return Tup([t.scale(t.Fraction(1, 2), t.add(p, q)) for p, q in zip(a.items, b.items)])
        return ex.mk_sym(n.type, 'face.' + name, v.term.args + sum((flat(ex.rv(st, a)) for a in args), ()))
    if isinstance(v, Obj) and nm in ('FEValues', 'FEValuesBase', 'FEFaceValues', 'FEValuesExtractors') and name == 'reinit':
        c = ex.rv(st, args[0])
        base = v.term
        if not isinstance(c, It):
            raise Unsupported('FEValues::reinit of %s' % type(c).__name__)
        ex.write(st, lv, Obj(v.cls, t.app('FEValues.at', (base,) + flat(c), v.term.sort)))
        return VOID
    return NotImplemented


class Tup2:
    """The range of all active cells."""

    def __init__(self, c):
        self.c = c


def flat(v):
    from .models import flat as f
    return f(v)


def cell(M, n, st, lv, v, name, args):
    ex = M.ex
    M.trust('cells: ' + name)
    x = v.x
    if name in ('operator->', 'operator*'):
        return v
    if name == 'get_dof_indices':
        old = ex.read(st, args[0])
        nm = v.c + '.dof'
        sz = vget(old, ('#size',))
        ex.write(st, args[0], Vec(old.et, sz, Arr(old.et, lambda k: t.app(nm, (x, k[0]), 'I'))))
        return VOID
    if name in ('material_id', 'subdomain_id', 'manifold_id', 'boundary_id', 'level', 'index'):
        return t.app('cell.' + name, (x,), 'I')
    if name == 'active_cell_index':
        return x
    if name in ('diameter', 'measure', 'extent_in_direction', 'minimum_vertex_distance'):
        return t.app('cell.' + name, (x,) + sum((flat(ex.rv(st, a)) for a in args), ()), 'R')
    if name in ('face', 'line'):
        f = ex.rv(st, args[0])
        return Obj('face', t.app('cell.face', (x, f), 'Obj:face'), {'dh': t.const(v.c, 'S')})
    if name == 'vertex_index':
        return t.app('cell.vertex', (x, ex.rv(st, args[0])), 'I')
    if name == 'vertex':
        return position(n, t.app('cell.vertex', (x, ex.rv(st, args[0])), 'I'))
    if name == 'center' and not [a for a in args if ex.rv(st, a) not in (t.FALSE, False)]:
        return Tup([t.app('cell.centre%d' % d, (x,), 'R') for d in range(spacedim(n))])
    if name in ('set_refine_flag', 'clear_refine_flag'):
        h = ex.hooks.get('refine')
        if h is None:
            raise Unsupported('refinement flags outside a contract')
        return h(ex, st, v, args, n)
    if name == 'at_boundary':
        return t.app('cell.at_boundary', (x,) + sum((flat(ex.rv(st, a)) for a in args), ()), 'B')
    raise Unsupported('cell->%s (line %s)' % (name, n.a.get('line')))
