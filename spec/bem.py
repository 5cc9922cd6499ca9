"""Symbolic boundary element objects shared by several contracts."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.access import vget

n = t.var('n', 'I')
k = t.var('k', 'I')
RNG = (t.le(t.I(0), k), t.lt(k, n))


def vec(ex, st, name, size=n, cell=None):
    lv = LV(cell or (name,))
    st.store[lv.cell] = mkvec(name, size)
    return lv


def mkvec(name, size=n):
    return Vec('double', size, Arr('double', lambda k: t.app(name, k, 'R'), {}, name))


def mkmat(name, m=n, nn=n):
    return Struct('SparseMatrix', {'m': m, 'n': nn, 'a': Arr('double', lambda k: t.app(name, k, 'R'), {}, name)})


def at(ex, st, lv, i=k):
    return vget(ex.read(st, lv), ((i,),))


def a(name, *i, sort='R'):
    return t.app(name, tuple(i) or (k,), sort)


def dot(f, size=n):
    j = t.fresh('j', 'I')
    return t.sum_(j, t.and_(t.le(t.I(0), j), t.lt(j, size)), f(j))


def owned_all(ex):
    """one process: every index is owned"""
    ex.hooks['owned'] = lambda ex, st, lv, v: SetV('unsigned int', Arr('bool', lambda kk: t.and_(t.le(t.I(0), kk[0]), t.lt(kk[0], v.size)), {}, 'all'), 'all')


def problem(ex, st, dim, size=n, tag='', owned=None):
    """A BEMProblem<dim> whose members are arbitrary."""
    this = LV(('bem' + tag,))
    s = ex.mk_sym('BEMProblem<%d>' % dim, 'bem' + tag)
    f = dict(s.f)
    for v in ('alpha', 'neumann_nodes', 'dirichlet_nodes', 'sol', 'system_rhs', 'serv_phi', 'serv_dphi_dn'):
        f[v] = mkvec(v + tag, size)
    f['neumann_matrix'] = mkmat('N' + tag, size, size)
    f['dirichlet_matrix'] = mkmat('D' + tag, size, size)
    own = SetV('unsigned int', Arr('bool', lambda kk: t.and_(t.le(t.I(0), kk[0]), t.lt(kk[0], size)), {}, 'all'), 'all' + tag)
    ex.models.set_size['all' + tag] = size
    f['this_cpu_set'] = own if owned is None else owned
    st.store[this.cell] = Struct(s.cls, f, s.lazy)
    ex.models.ext_methods[('DoFHandler', 'n_dofs')] = lambda ex, st, lv, args, nd: size
    return this


def one_process(ex):
    """MPI with one process (or: every process holds the same value)."""
    def allreduce(ex, st, args, nd):
        ex.write(st, ex.lv_of_ptr(st, ex.rv(st, args[1])), ex.read(st, ex.lv_of_ptr(st, ex.rv(st, args[0]))))
        return t.I(0)
    f = ex.models.ext_funcs
    f['MPI_Allreduce'] = allreduce
    f['PetscMPIParallelComm'] = lambda ex, st, args, nd: t.I(0)
    f['MPI_Bcast'] = lambda ex, st, args, nd: t.I(0)
    f['MPI_Barrier'] = lambda ex, st, args, nd: t.I(0)


def field(ex, st, this, *path):
    """Value of a member reached through references and smart pointers."""
    v = ex.read(st, LV(this.cell))
    for f in path:
        v = ex.read(st, LV(v.cell, v.path)) if isinstance(v, (Ptr, LV)) else v
        v = v.get(f) if isinstance(v, Struct) else vget(v, (f,))
    return ex.read(st, LV(v.cell, v.path)) if isinstance(v, (Ptr, LV)) else v


def inr(x, n, lo=0):
    return t.and_(t.le(t.I(lo), x), t.lt(x, n))


class Disc:
    """The discretisation as seen by a specification."""

    def __init__(self, ex, st, this, pre='bem', dom=('comp_dom',), bem=()):
        self.d = field(ex, st, this, *dom, 'dirichlet_boundary_ids')
        self.nn = field(ex, st, this, *dom, 'neumann_boundary_ids')
        self.dpc = vget(field(ex, st, this, *bem, 'fe'), ('dofs_per_cell',))
        self.dh = str(field(ex, st, this, *bem, 'dh').term)

    def has(self, ids, c):
        b = t.fresh('b', 'I')
        return t.exists(b, t.and_(inr(b, vget(ids, ('#size',))), t.eq(vget(ids, ((b,),)), t.app('cell.material_id', (c,), 'I'))))

    def dirichlet(self, c):
        return self.has(self.d, c)

    def neumann(self, c):
        return self.has(self.nn, c)

    def some_cell(self, k, cond):
        """Some panel containing node k satisfies cond."""
        c, i = t.fresh('c', 'I'), t.fresh('i', 'I')
        from dv import fem
        return t.exists(c, t.exists(i, t.and_(inr(c, fem.NCELLS), inr(i, self.dpc), cond(c), t.eq(t.app(self.dh + '.dof', (c, i), 'I'), k))))


def some_owned(ex, name='mine', size=n):
    """an arbitrary set of owned indices"""
    own = SetV('unsigned int', Arr('bool', lambda kk: t.and_(inr(kk[0], size), t.app(name, (kk[0],), 'B')), {}, name), name)
    ex.models.set_size[name] = size
    ex.hooks['owned'] = lambda ex, st, lv, v: own
    return own


class Bijection:
    """A permutation of 0 .. size-1 given by a library function, with its inverse."""
    done = {}

    def __new__(cls, name, size, total=False):
        """total: extended by the identity to a bijection of all integers"""
        o = object.__new__(cls)
        o.name, o.size = name, size
        if total:
            t.INVERSE[name], t.INVERSE[name + '~'] = name + '~', name
            from dv import smt
            x = t.var('x!', 'I')
            for f in (name, name + '~'):
                smt.define(f, [x], t.eq(inr(t.app(f, (x,), 'I'), size), inr(x, size)))
        if name not in cls.done:
            cls.done[name] = o
            from dv import access
            f, g = name, name + '~'

            def inv(v, b, u):
                if v.op == 'app' and v.val == f and len(v.args) == 1:
                    return access.invert(v.args[0], b, t.app(g, (u,), 'I'))
                return None
            access._inv_hooks.append(inv)
        return o

    def __call__(self, i):
        return t.app(self.name, (i,), 'I')

    def inverse(self, i):
        return t.app(self.name + '~', (i,), 'I')

    def axioms(self, i):
        """The defining facts instantiated at i."""
        p, q = self(i), self.inverse(i)
        r = inr(i, self.size)
        return [t.implies(r, t.and_(inr(p, self.size), inr(q, self.size), t.eq(self.inverse(p), i), t.eq(self(q), i)))]


def geometry(ex, dim):
    """GeometryInfo<dim-1>"""
    c = {'faces_per_cell': 2 * (dim - 1), 'vertices_per_cell': 2 ** (dim - 1), 'lines_per_cell': {1: 1, 2: 4}[dim - 1], 'max_children_per_cell': 2 ** (dim - 1)}
    ex.hooks['global'] = lambda ex, st, cls, name, decl, node: t.I(c[name]) if name in c else None


def sizes(ex, st, this, m, *path):
    """n_dofs of the named DoFHandler members"""
    d = {field(ex, st, this, *path, x).term: sz for x, sz in m.items()}
    ex.models.ext_methods[('DoFHandler', 'n_dofs')] = lambda ex, st, lv, args, nd: d[ex.read(st, lv).term]


def renumbering(ex, st, this, dim):
    """The renumberings of P13 (total bijections) in the members of a problem; every use is checked to be in range."""
    ng = t.scale(dim, n)
    p, v = Bijection('perm', n, True), Bijection('vperm', ng, True)
    tab = lambda f, sz: Vec('unsigned int', sz, Arr('unsigned int', lambda kk: f(kk[0])))
    s = st.store[this.cell]
    st.store[this.cell] = Struct(s.cls, dict(s.f, original_to_sub_wise=tab(p, n), sub_wise_to_original=tab(p.inverse, n),
                                             vec_original_to_sub_wise=tab(v, ng), vec_sub_wise_to_original=tab(v.inverse, ng)), s.lazy)
    ex.hooks['bounds'] = in_bounds
    return p, v


def in_bounds(ex, st, lv, node):
    if not lv.path:
        return
    i = lv.path[-1]
    v = ex.read(st, LV(lv.cell, lv.path[:-1]))
    if isinstance(v, Vec) and isinstance(i, tuple):
        ex.oblige('index within the vector', st, inr(i[0], vget(v, ('#size',))))


class Injection:
    """An integer function name(.., m) known to be injective in its last argument."""
    done = {}

    def __new__(cls, name):
        o = object.__new__(cls)
        o.name = name
        if name not in cls.done:
            cls.done[name] = o
            from dv import access

            def inv(v, b, u):
                if v.op == 'app' and v.val == name and b not in {x for y in v.args[:-1] for x in t.free_vars(y)}:
                    return access.invert(v.args[-1], b, t.app(name + '~', v.args[:-1] + (u,), 'I'))
                return None
            access._inv_hooks.append(inv)
        return o

    def __call__(self, *x):
        return t.app(self.name, x, 'I')

    def position(self, *x):
        return t.app(self.name + '~', x, 'I')

    def axiom(self, *x):
        return t.eq(self.position(*(x[:-1] + (self(*x),))), x[-1])


ENTRIES = 'AffineConstraints.get_constraint_entries*'


def entries(c, i):
    """(number, columns, coefficients) of the constraint of node i; columns differ."""
    return t.app(ENTRIES + '.size', (c, i), 'I'), Injection(ENTRIES + '[].0'), lambda m: t.app(ENTRIES + '[].1', (c, i, m), 'R')
