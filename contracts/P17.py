"""Edge conformity and mesh ownership survive refinement."""
import functools
from fractions import Fraction
from dv import terms as t, fem
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec import statement as sm
from contracts.P06 import size, multiplicity, occurs, counts
from spec.worlds import world

HARNESSES = [world('mesh', (), 'refinement rounds on random surfaces: edge conformity, ids, owners'),
             world('mesh', (), 'refinement rounds on random surfaces: edge conformity, ids, owners', np=3)]
I = t.I
NV = t.app('n_vertices', (), 'I')


def verify(ctx):
    P = ctx.load([('source/computational_domain.cc', 'ComputationalDomain')])
    cache(ctx, P)
    conformal(ctx, P)
    for f in ('update_triangulation', 'conditional_refine_and_resize', 'refine_and_resize'):
        steps(ctx, P, f, 3)
    steps(ctx, P, 'refine_and_resize', 2)


def mesh(ctx, P, name, dim=3):
    C = 'ComputationalDomain<%d>' % dim
    fn = [f for f in P.find(C, name) if f.body is not None][0]
    ex = ctx.exec()
    st = St()
    geometry(ex, dim)
    this = LV(('*', 'dom'))
    st.store[this.cell] = ex.mk_sym(C, 'dom')
    M = ex.models
    M.ext_methods[(None, 'n_vertices')] = lambda ex, st, lv, a, nd: NV
    M.ext_methods[(None, 'get_vertices')] = lambda ex, st, lv, a, nd: Vec('Point<3>', NV, Arr('Point<3>', lambda kk: position(kk[0])))
    for c in (t.le(I(0), NV), t.le(I(0), fem.NCELLS)):
        st.assume(c)
    return fn, ex, st, this


def position(i):
    return Tup([t.app('vertex.x%d' % d, (i,), 'R') for d in range(3)])


def cache(ctx, P):
    with ctx.fn('ComputationalDomain<3>::compute_double_vertex_cache'):
        fn, ex, st, this = mesh(ctx, P, 'compute_double_vertex_cache')
        ex.call(st, fn, this, [])
        s = ex.load_cell(st, this.cell)
        i, j, c = (t.app(x, (), 'I') for x in 'ijc')
        pc = tuple(st.pc) + (inr(i, NV), inr(j, NV), inr(c, fem.NCELLS))
        twins = s.get('double_vertex_vector')
        ctx.eq('one list of coincident vertices per vertex', st.pc, size(twins), NV)
        ctx.eq('exactly the vertices at the same place, each once', pc, multiplicity(vget(twins, ((i,),)), j), t.ite(near(position(i), position(j)), I(1), I(0)), control=True)
        at = vget(s.get('vert_to_elems').data, ((i,),))
        ctx.eq('the panels around a vertex, once for each corner there', pc, multiplicity(at, c), total(lambda v: t.eq(corner(c, v), i), 4), control=True)
        on = vget(s.get('edge_cells'), ((c,),))
        ctx.eq('exactly the panels on the boundary', pc, on, t.app('cell.at_boundary', (c,), 'B'), control=True)
        ctx.eq('one flag per vertex', st.pc, size(s.get('vertex_on_boundary')), NV)
        ctx.eq('a vertex is on the boundary exactly if an edge without neighbour ends in it', pc, vget(s.get('vertex_on_boundary'), ((i,),)), on_boundary(i), control=True)
        ctx.discharge(ex)


TOL = t.R(Fraction(1, 10**7))


def near(p, q):
    return t.le(t.app('sqrt', (functools.reduce(t.add, [t.mul(t.sub(a, b), t.sub(a, b)) for a, b in zip(p.items, q.items)]),), 'R'), TOL)


def corner(c, v):
    return t.app('cell.vertex', (c, I(v) if isinstance(v, int) else v), 'I')


def total(p, n):
    return functools.reduce(t.add, [t.ite(p(i), I(1), I(0)) for i in range(n)])


def on_boundary(i):
    c, f, l = (t.fresh(x, 'I') for x in 'cfv')
    return t.exists(c, t.exists(f, t.and_(inr(c, fem.NCELLS), inr(f, I(4)), t.app('cell.at_boundary', (c,), 'B'), t.app('face.at_boundary', (c, f), 'B'),
                                          t.or_(*[t.and_(t.eq(corner(c, v), i), t.or_(*[same(position(corner(c, v)), position(t.app('face.vertex', (c, f, I(l)), 'I'))) for l in (0, 1)])) for v in range(4)]))))


def same(p, q):
    return t.and_(*[t.eq(a, b) for a, b in zip(p.items, q.items)])


def gathering(fn):
    """the loops that collect the other ends of the boundary edges of a vertex"""
    pushes = [l for l in sm.loops(fn.body) if sm.calls(l, 'push_back') and not sm.calls(l, 'set_refine_flag')]
    return [l for l in pushes if not any(m is not l and l in sm.loops(m) for m in pushes)]


def pushed(loop):
    """the sequence a loop fills"""
    for c in sm.walk(loop):
        if c.kind == 'MemberExpr' and c.a.get('name') == 'push_back':
            for d in sm.walk(c):
                if d.kind == 'DeclRefExpr':
                    return d.a['ref']
    raise Unsupported('statement under contract not found')


def counters(fn, node):
    """the variables of the for loops around a statement"""
    for l in sm.loops(fn.body):
        if l.kind == 'ForStmt' and l is not node and any(c is node for c in sm.walk(l)):
            yield from [d.a['id'] for d in sm.walk(l.inner[0]) if d.kind == 'VarDecl']


def edge(c, f, l):
    return position(t.app('face.vertex', (c, f if isinstance(f, T) else I(f), I(l)), 'I'))


def known(ex, s):
    """what compute_double_vertex_cache guarantees"""
    s.f['vertex_on_boundary'] = Vec('bool', NV, Arr('bool', lambda kk: t.app('on_boundary', kk, 'B')))
    s.f['double_vertex_vector'] = Vec('vector<unsigned int>', NV, Arr('vector<unsigned int>', lambda kk: Vec('unsigned int', t.app('twins.size', kk, 'I'), Arr('unsigned int', lambda k2: t.app('twins', kk + k2, 'I')))))
    s.f['edge_cells'] = SetV('TriaActiveIterator', Arr('bool', lambda kk: t.and_(inr(kk[0], fem.NCELLS), t.app('cell.at_boundary', kk, 'B'))))
    around = lambda kk: Vec('cell', t.app('around.size', kk, 'I'), Arr('cell', lambda k2: It('pos', 'tria', t.app('around', kk + k2, 'I'), 'cells')))
    s.f['vert_to_elems'] = MapV('unsigned int', 'vector<cell>', Arr('vector<cell>', around), Arr('bool', lambda kk: t.TRUE))


def distance(p, q):
    return t.app('distance', [t.mul(t.sub(a, b), t.sub(a, b)) for a, b in zip(p.items, q.items)], 'R')


def ghosts(ex, st, **more):
    """Refinement flags of the panels, the flags of the last refinement, and what is known of the mesh."""
    flags, ghost = LV(('flags',)), LV(('ghost',))
    none = lambda: Arr('int', lambda kk: I(0))

    def reset(s, **kw):
        s.store[flags.cell] = none()
        s.store[ghost.cell] = Struct('ghost', dict({'flags': none(), 'refined': t.FALSE}, **kw))
    reset(st, **more)
    G = lambda x: LV(ghost.cell, (x,))
    M = ex.models

    def flag(ex, st, c, a, nd):
        ex.write(st, LV(flags.cell, ((c.x,),)), ex.rv(st, a[0]) if a else I(3))
        return VOID
    ex.hooks['refine'] = flag
    M.ext_funcs['cut_axis'] = lambda ex, st, a, nd: t.add(ex.rv(st, a[0]), I(1))
    M.ext_methods[(None, 'prepare_coarsening_and_refinement')] = lambda ex, st, lv, a, nd: VOID

    def refined(ex, st, lv, a, nd):
        g = st.store[ghost.cell]
        ex.write(st, G('flags'), st.store[flags.cell])
        st.store[flags.cell] = none()
        ex.write(st, G('refined'), t.TRUE)
        for x, v in more.items():
            ex.write(st, G(x), t.FALSE)
        return VOID
    M.ext_methods[(None, 'execute_coarsening_and_refinement')] = refined
    return reset, G


def conformal(ctx, P):
    with ctx.fn('ComputationalDomain<3>::make_edges_conformal'):
        fn, ex, st, this = mesh(ctx, P, 'make_edges_conformal')
        ex.cellname = 'tria'
        loop = [l for l in sm.loops(fn.body) if sm.calls(l, 'compute_double_vertex_cache')][0]
        reset, G = ghosts(ex, st, known=t.FALSE)
        M = ex.models
        M.ext_methods[(None, 'distance')] = lambda ex, st, lv, a, nd: distance(ex.read(st, lv) if isinstance(lv, LV) else lv, ex.rv(st, a[0]))

        def cached(ex, st, th, a, nd):
            known(ex, st.store[this.cell])
            ex.write(st, G('known'), t.TRUE)
            return VOID
        ex.contracts[('ComputationalDomain<3>', 'compute_double_vertex_cache')] = cached
        seen = []
        for g in gathering(fn):
            ids, ref = list(counters(fn, g)), pushed(g)

            def collect(ex, n, st, fr, ids=ids, ref=ref):
                vs = [fr.env[x] for x in ids if x in fr.env]
                i = ex.rv(st, vs[0])
                out = fr.env[ref['id']]
                s, st0 = st.fork(), st.fork()
                c = ex.stmt_contracts.pop(id(n))
                outs = ex.stmt(n, s, fr)
                ex.stmt_contracts[id(n)] = c
                if len(outs) != 1 or outs[0][1] is not None:
                    raise Unsupported('several exits')
                seen[:] = [(i, st0, ex.read(st0, out), ex.read(outs[0][0], out))]
                ex.write(st, out, Vec('Point<3>', t.app('ends.size', (i,), 'I'), Arr('Point<3>', lambda kk: Tup([end(i, kk[0]).items[d] for d in range(3)]))))
                return [(st, None)]
            ex.stmt_contracts[id(g)] = collect
        passes = []

        def rule(ex, n, st, fr):
            r = sm.repeat(ex, st, fr, n, enter=lambda s: ex.oblige('cut edges are searched for at least once', s, ex.cond(sm.test(n), s.fork(), fr)), begin=lambda s: reset(s, known=t.FALSE), end=lambda s0, s: passes.append((s0, s)), havoc=lambda c, p, v: None if isinstance(v, T) else v)
            passes.append(ex.cond(sm.test(n), passes[-1][1].fork(), fr))
            return r
        ex.stmt_contracts[id(loop)] = rule
        iso = t.app('isotropic', (), 'B')
        ex.call(st, fn, this, [t.TRUE, iso])
        (s0, s), go = passes[-2:]
        i, c, d = (t.app(x, (), 'I') for x in 'icd')
        # the other ends of the boundary edges that end in a vertex
        j, s1, before, after = seen[0]
        p = Tup([t.app('p%d' % q, (), 'R') for q in range(3)])
        count, k = I(0), t.fresh('k', 'I')
        e = t.app('around', (j, k), 'I')
        for f in range(4):
            here = lambda l: t.lt(distance(position(j), edge(e, f, l)), TOL)
            other = lambda l: t.ite(same(edge(e, f, l), p), I(1), I(0))
            count = t.add(count, t.ite(t.app('face.at_boundary', (e, I(f)), 'B'), t.ite(here(0), other(1), t.ite(here(1), other(0), I(0))), I(0)))
        ctx.eq('the search for other ends starts with none', s1.pc, size(before), I(0))
        ctx.eq('the other ends of the boundary edges at the vertex', s1.pc, multiplicity(after, p), t.sum_(k, inr(k, t.app('around.size', (j,), 'I')), count), control=True)
        # a panel whose edge is cut on the other side only
        mid = lambda a, b: Tup([t.div(t.add(x, y), t.R(2)) for x, y in zip(a.items, b.items)])
        at = lambda i, x: t.and_(t.app('face.at_boundary', (c, I(x)), 'B'), t.lt(distance(mid(end(i, I(0)), end(i, I(1))), mid(edge(c, x, 0), edge(c, x, 1))), TOL))
        middle = lambda i: t.and_(inr(i, NV), t.app('on_boundary', (i,), 'B'), t.eq(t.app('twins.size', (i,), 'I'), I(1)), t.eq(t.app('ends.size', (i,), 'I'), I(2)))
        panel = t.and_(inr(c, fem.NCELLS), t.app('cell.at_boundary', (c,), 'B'))
        w = t.fresh('i', 'I')
        cut = lambda *xs: t.exists(w, t.and_(middle(w), panel, t.or_(*[at(w, x) for x in xs])))
        pc = tuple(s.pc) + (inr(c, fem.NCELLS),)
        done = vget(ex.read(s, G('flags')), ((c,),))
        for x in range(4):
            q = pc + (middle(i), panel, at(i, x))
            ctx.true('an edge cut on the other side only: the search goes on (edge %d)' % x, q, go)
            ctx.true('... the mesh is refined (edge %d)' % x, q, ex.read(s, G('refined')))
            ctx.true('... and the panel, all of it if asked for (edge %d)' % x, q, t.and_(t.not_(t.eq(done, I(0))), t.or_(t.not_(iso), t.eq(done, I(3)))))
        # one cut of the panel is made in each search: it cuts one of the edges concerned
        ctx.true('edges 0 and 1 of a panel are cut for the edges on the other side', pc + (t.eq(done, I(2)),), cut(0, 1))
        ctx.true('edges 2 and 3 of a panel are cut for the edges on the other side', pc + (t.eq(done, I(1)),), cut(2, 3))
        ctx.true('no panel is refined for anything else', pc + (t.not_(t.eq(done, I(0))),), t.and_(t.le(I(1), done), t.le(done, I(3)), cut(0, 1, 2, 3)))
        for x in range(4):
            for a, b in ((0, 1), (1, 0)):
                ends = t.and_(same(end(i, I(0)), edge(c, x, a)), same(end(i, I(1)), edge(c, x, b)), t.app('face.at_boundary', (c, I(x)), 'B'))
                ctx.true('an edge whose ends are those of a vertex is found (edge %d)' % x, (ends, t.eq(t.app('distance', (t.R(0), t.R(0), t.R(0)), 'R'), t.R(0))), at(i, x))
        ctx.reach('an edge is cut on the other side only', pc + (middle(i), panel, at(i, 0)))
        ctx.true('the coincident vertices are those of the current mesh', s.pc + (t.not_(ex.read(s, G('refined'))),), ex.read(s, G('known')))
        ctx.true('every search restored what it found', s.pc + (t.not_(go),), t.not_(ex.read(s, G('refined'))))
        ctx.discharge(ex)


def end(i, k):
    return Tup([t.app('end.x%d' % d, (i, k), 'R') for d in range(3)])


def steps(ctx, P, name, dim):
    """After every way to refine the mesh its edges are conforming and its panels are distributed."""
    with ctx.fn('ComputationalDomain<%d>::%s' % (dim, name)):
        fn, ex, st, this = mesh(ctx, P, name, dim)
        ex.cellname = 'tria'
        C = 'ComputationalDomain<%d>' % dim
        reset, G = ghosts(ex, st, conforming=t.FALSE, owned=t.FALSE)
        M = ex.models
        ex.write(st, LV(this.cell, ('use_cad_surface_and_curves',)), t.FALSE)
        ratio = ex.read(st, LV(this.cell, ('max_element_aspect_ratio',)))

        def restored(ex, st, th, a, nd):
            ex.write(st, G('conforming'), t.TRUE)
            ex.write(st, G('owned'), t.FALSE)
            return VOID
        ex.contracts[(C, 'make_edges_conformal')] = restored
        ex.contracts[(C, 'compute_double_vertex_cache')] = lambda ex, st, th, a, nd: VOID

        def everywhere(ex, st, lv, a, nd):
            ex.write(st, G('owned'), t.FALSE)
            return VOID
        M.ext_methods[(None, 'refine_global')] = everywhere

        def distributed(ex, st, a, nd):
            ctx.eq('the panels are distributed over the processes', st.pc, ex.rv(st, a[0]), ex.read(st, LV(this.cell, ('n_mpi_processes',))))
            ex.write(st, G('owned'), t.TRUE)
            return VOID
        M.ext_funcs['partition_triangulation'] = distributed
        extent = lambda c, d: t.app('extent', (c, d if isinstance(d, T) else I(d)), 'R')
        M.ext_methods[(None, 'extent_in_direction')] = lambda ex, st, lv, a, nd: extent(ex.read(st, lv).x, ex.rv(st, a[0]))
        for x in ('write_ucd', 'distribute_dofs', 'attach_dof_handler', 'add_data_vector', 'build_patches', 'write_vtu'):
            M.ext_methods[(None, x)] = lambda ex, st, lv, a, nd: VOID
        M.ext_methods[(None, 'c_str')] = lambda ex, st, lv, a, nd: ex.read(st, lv)
        M.ext_funcs['get_subdomain_association'] = lambda ex, st, a, nd: VOID
        passes = []

        def reduce(ex, n, st, fr):
            """the reduction of the aspect ratio: a loop of at most ten passes"""
            counter = LV(('passes',))
            st.store[counter.cell] = I(0)
            count, inv = equal_steps(ex, fr, n, counter)

            def enter(s):
                ex.oblige('long panels are searched for at least once', s, ex.cond(sm.test(n), s.fork(), fr))
                count(s)

            def begin(s):
                reset(s, conforming=t.FALSE, owned=t.FALSE)
                ex.write(s, counter, t.add(ex.read(s, counter), I(1)))
            r = sm.repeat(ex, st, fr, n, inv=inv, enter=enter, begin=begin, havoc=lambda c, p, v: None if isinstance(v, T) else v, end=lambda s0, s: passes.append((s0, s)))
            s = passes[-1][1]
            passes.append((s, ex.read(s, counter), ex.cond(sm.test(n), s.fork(), fr)))
            ex.oblige('every pass leaves conforming edges', s, ex.read(s, G('conforming')))
            for s, fl in r:
                ex.write(s, G('conforming'), t.TRUE)
            return r
        if name == 'refine_and_resize' and dim == 3:
            loops = [l for l in sm.loops(fn.body) if sm.calls(l, 'extent_in_direction')]
            ex.stmt_contracts[id(loops[0])] = reduce
        args = [t.app(p.a['name'], (), 'I') for p in fn.params]
        ex.call(st, fn, this, args)
        if passes:
            s, n, go = passes[-1]
            c = t.app('c', (), 'I')
            done = vget(ex.read(s, G('flags')), ((c,),))
            pc = tuple(s.pc) + (inr(c, fem.NCELLS),) + tuple(t.lt(t.R(0), extent(c, d)) for d in (0, 1)) + (t.le(t.R(1), ratio),)
            for d in (0, 1):
                long = t.lt(t.mul(ratio, extent(c, 1 - d)), extent(c, d))
                q = pc + (long,)
                ctx.eq('a panel too long in direction %d is halved in this direction' % d, q, done, I(d + 1), control=True)
                ctx.true('... and searched for again in up to ten passes (%d)' % d, q + (t.lt(n, I(10)),) + occurs(go, [c], None), go)
            fine = [t.le(extent(c, d), t.mul(ratio, extent(c, 1 - d))) for d in (0, 1)]
            ctx.eq('a panel within the ratio is not refined', pc + tuple(fine), done, I(0), control=True)
            ctx.true('the panels concerned are refined', s.pc, ex.read(s, G('refined')))
            ctx.record('counts are of what is not negative', counts(go), 'z3')
        if dim == 3:
            ctx.true('the edges are conforming in the end', st.pc, ex.read(st, G('conforming')))
        ctx.true('the panels have owners in the end', st.pc, ex.read(st, G('owned')))
        ctx.discharge(ex)


def equal_steps(ex, fr, node, counter):
    """The variables that count the passes: found where the loop starts, and an invariant."""
    found = []

    def enter(st):
        s, nob = st.fork(), len(ex.obls)
        outs = ex.stmt(sm.body(node), s, fr)
        if node.kind == 'ForStmt' and node.inner[3].kind != 'Null':
            for s, fl in outs:
                ex.ev(node.inner[3], s, fr)
        del ex.obls[nob:]
        for cell, v in st.store.items():
            if cell != counter.cell and isinstance(v, T) and v.sort == 'I' and all(fl is None and t.sub(s.store[cell], v) is I(1) for s, fl in outs):
                found.append((cell, v))
    return enter, lambda s: {'counted passes (%s)' % n: t.eq(s.store[cell], t.add(v, ex.read(s, counter))) for n, (cell, v) in enumerate(found)}
