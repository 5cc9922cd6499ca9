"""Constraints of coincident nodes."""
from fractions import Fraction
from dv import terms as t, access
from dv.exec import St
from dv.vals import *
from dv.access import vget
from spec.bem import *
from spec.worlds import world

HARNESSES = [world('bvp', ('P11',), 'the real constraints on generated problems with coincident and hanging nodes')]
r = t.var('r', 'I')
j = t.var('j', 'I')


def cls(i):
    return t.app('class', (i,), 'I')


def isd(i):
    return t.app('dirichlet', (i,), 'B')


def verify(ctx):
    P = ctx.load([('source/bem_problem.cc', 'BEMProblem')])
    for dim in (3, 2):
        constraints(ctx, P, dim)


def constraints(ctx, P, dim):
    B = 'BEMProblem<%d>' % dim
    with ctx.fn(B + '::compute_constraints'):
        ex = ctx.exec()
        st = St()
        mine = some_owned(ex)
        this = problem(ex, st, dim, owned=mine)
        one_process(ex)
        sizes(ex, st, this, {'dh': n, 'gradient_dh': t.scale(dim, n)})
        rng = lambda i: inr(i, n)
        s = st.store[this.cell]
        f = dict(s.f)
        # coincidence is an equivalence relation (P13)
        f['double_nodes_set'] = Vec('std::set<unsigned int>', n, Arr('std::set<unsigned int>', lambda kk: SetV('unsigned int', Arr('bool', lambda e: t.and_(inr(e[0], n), t.eq(cls(e[0]), cls(kk[0])))))))
        f['dirichlet_nodes'] = Vec('double', n, Arr('double', lambda kk: t.ite(isd(kk[0]), t.R(1), t.R(0))))
        gs = t.scale(dim, n)
        f['vector_normals_solution'] = mkvec('normal', gs)
        st.store[this.cell] = Struct(s.cls, f, s.lazy)

        def surface_gradients(ex, st, this_, args, nd):
            s = st.store[this.cell]
            f = dict(s.f, vector_surface_gradients_solution=mkvec('surfgrad', gs))
            st.store[this.cell] = Struct(s.cls, f, s.lazy)
            return VOID
        ex.contracts[(B, 'compute_surface_gradients')] = surface_gradients
        rhs = vec(ex, st, 'rhs')
        c = LV(('constraints',))
        st.store[c.cell] = table('c')
        cpu = LV(('cpu',))
        st.store[cpu.cell] = SetV('unsigned int', Arr('bool', lambda kk: t.app('cpu0', (kk[0],), 'B')), 'cpu')
        M = ex.models.ext_methods
        snap = {}
        models(ex, ctx, M, c, snap)
        for x in (t.le(t.I(1), n),) + RNG:
            st.assume(x)
        ex.call(st, P.one(B, 'compute_constraints'), this, [cpu, c, rhs])
        ctx.record('hanging node constraints are merged in', 'with' in snap and str(snap['with'].term) == 'hanging', 'symbolic execution')
        e = t.var('e', 'I')
        same = lambda x: t.and_(rng(x), t.eq(cls(x), cls(r)))
        # r is the representative of the set of k: the first Dirichlet node, or the first node
        anyd = t.exists(e, t.and_(same(e), isd(e)))
        rep = (rng(r), t.eq(cls(k), cls(r)), t.eq(isd(r), anyd),
               t.forall(e, t.implies(t.and_(same(e), t.eq(isd(e), anyd)), t.le(r, e))))
        pc = snap['pc'] + rep
        nn = [lambda x, d=d: gvec('normal', x, d) for d in range(dim)]
        sg = [lambda x, d=d: gvec('surfgrad', x, d) for d in range(dim)]

        def distance(x, y):
            z = t.R(0)
            for d in range(dim):
                u = t.sub(nn[d](x), nn[d](y))
                z = t.add(z, t.mul(u, u))
            return z

        def prescribed(x, y):
            '''normal derivative at x from the surface gradients at x and y'''
            c_ = dot_(nn, x, nn, y)
            den = t.sub(t.R(1), t.mul(c_, c_))
            return t.div(t.add(dot_(sg, y, nn, x), t.mul(dot_(sg, x, nn, y), c_)), den)

        def dot_(f, x, g, y):
            z = t.R(0)
            for d in range(dim):
                z = t.add(z, t.mul(f[d](x), g[d](y)))
            return z
        cont = field(ex, st, this, 'continuos_gradient')
        tol = t.R(Fraction(1, 10000))
        flat = t.lt(distance(r, k), tol)
        with access.under(pc + (t.not_(t.eq(k, r)),), (r,)):
            line, inh = vget(snap['c'].get('line'), ((k,),)), vget(snap['c'].get('inh'), ((k,),))
            entry, coef = vget(snap['c'].get('entry'), ((k, j),)), vget(snap['c'].get('coef'), ((k, j),))
        other = pc + (t.not_(t.eq(k, r)),)
        tied = lambda c, when: (ctx.eq(when + ': tied', c, line, t.TRUE, control=True), ctx.eq(when + ': to the representative only', c, entry, t.eq(j, r)),
                                ctx.eq(when + ': with weight one', c + (t.eq(j, r),), coef, t.R(1), control=True), ctx.eq(when + ': without inhomogeneity', c, inh, t.R(0)))
        value = lambda c, when, v: (ctx.eq(when + ': prescribed', c, line, t.TRUE, control=True), ctx.eq(when + ': not tied', c, entry, t.FALSE),
                                    ctx.eq(when + ': value', c, inh, v, control=True))
        value(other + (isd(r), t.not_(isd(k))), 'Neumann side of a set with a Dirichlet node', a('rhs', r))
        tied(other + (t.not_(isd(r)),), 'Neumann set')
        tied(other + (isd(r), isd(k), flat), 'Dirichlet sides with a common tangent plane')
        value(other + (isd(r), isd(k), t.not_(flat), cont), 'Dirichlet sides at an angle, continuous gradient', prescribed(k, r))
        ctx.eq('Dirichlet sides at an angle: free', other + (isd(r), isd(k), t.not_(flat), t.not_(cont)), line, t.FALSE, control=True)
        with access.under(pc + (t.eq(k, r),), (r,)):
            line, inh = vget(snap['c'].get('line'), ((r,),)), vget(snap['c'].get('inh'), ((r,),))
            entry = vget(snap['c'].get('entry'), ((r, j),))
        own = pc + (t.eq(k, r),)
        angle = lambda x: t.and_(same(x), t.not_(t.eq(x, r)), isd(x), t.le(tol, distance(r, x)))
        ctx.eq('a Neumann representative keeps its own equation', own + (t.not_(isd(r)),), line, t.FALSE, control=True)
        ctx.eq('a Dirichlet representative is prescribed where the surface has an angle and the gradient is continuous', own + (isd(r),), line,
               t.and_(cont, t.exists(e, angle(e))), control=True)
        ctx.eq('a representative is not tied', own, entry, t.FALSE)
        picks = [x for x in t.subterms(inh) if x.op == 'app' and x.val in access.PICKS and t.free_vars(x) <= {n, r}]
        ctx.record('one other side decides the prescribed value', len(picks) == 1, 'symbolic execution')
        for x in picks:
            ctx.eq('the other side: a coincident Dirichlet node at an angle', own + (line,), angle(x), t.TRUE, control=True)
            ctx.eq('a Dirichlet representative: value', own + (line,), inh, prescribed(r, x), control=True)
        ctx.record('merged and closed', str(getattr(st.store[c.cell], 'term', '')) == 'made', 'symbolic execution')
        mine_ = lambda x: vget(mine.chi, ((x,),))
        made = t.const('made', 'Obj:AffineConstraints')
        m = t.var('m', 'I')

        def tied_to(x, y):
            size, col, coef = entries(made, x)
            return t.and_(t.app('AffineConstraints.is_constrained', (made, x), 'B'), t.exists(m, t.and_(inr(m, size), t.eq(t.app(ENTRIES + '[].0', (made, x, m), 'I'), y))))
        set_ = vget(st.store[cpu.cell].chi, ((k,),))
        spec = t.or_(mine_(k), t.exists(e, t.and_(mine_(e), tied_to(e, k))))
        ctx.eq('the relevant nodes are the owned ones and those they are tied to', st.pc, set_, spec, control=True)
        ctx.discharge(ex)


def gvec(name, x, d):
    '''component d at node x of a vector field'''
    u = t.app('bem.sub_wise_to_original[]', (x,), 'I')
    return t.app(name, (t.app('bem.vec_original_to_sub_wise[]', (t.add(t.scale(d, n), u),), 'I'),), 'R')


def table(name):
    return Struct('AffineConstraints', {'line': Arr('bool', lambda kk: t.app(name + '.line', tuple(kk), 'B')),
                                        'entry': Arr('bool', lambda kk: t.app(name + '.entry', tuple(kk), 'B')),
                                        'coef': Arr('double', lambda kk: t.app(name + '.coef', tuple(kk), 'R')),
                                        'inh': Arr('double', lambda kk: t.app(name + '.inh', tuple(kk), 'R'))})


def empty():
    no = lambda kk: t.FALSE
    return Struct('AffineConstraints', {'line': Arr('bool', no), 'entry': Arr('bool', no), 'coef': Arr('double', lambda kk: t.R(0)), 'inh': Arr('double', lambda kk: t.R(0))})


def models(ex, ctx, M, c, snap):
    A = 'AffineConstraints'
    A_ = lambda v: isinstance(v, Struct)

    def method(name):
        def reg(f):
            def h(ex, st, lv, a, nd):
                v = ex.read(st, lv)
                if not isinstance(v, Struct):
                    return NotImplemented
                return f(ex, st, lv, [ex.rv(st, x) for x in a], v) or VOID
            M[(A, name)] = h
        return reg
    at = lambda lv, *p: LV(lv.cell, lv.path + p)

    @method('clear')
    def clear(ex, st, lv, a, v):
        ex.write(st, lv, empty())

    @method('add_line')
    def add_line(ex, st, lv, a, v):
        ex.write(st, at(lv, 'line', (a[0],)), t.TRUE)

    @method('add_entry')
    def add_entry(ex, st, lv, a, v):
        ex.oblige('no node is tied to itself', st, t.not_(t.eq(a[0], a[1])))
        ex.write(st, at(lv, 'entry', (a[0], a[1])), t.TRUE)
        ex.write(st, at(lv, 'coef', (a[0], a[1])), t.toR(a[2]))

    @method('set_inhomogeneity')
    def set_inhomogeneity(ex, st, lv, a, v):
        ex.write(st, at(lv, 'inh', (a[0],)), t.toR(a[1]))

    @method('is_constrained')
    def is_constrained(ex, st, lv, a, v):
        return vget(v.get('line'), ((a[0],),))

    @method('merge')
    def merge(ex, st, lv, a, v):
        snap['c'], snap['pc'], snap['with'] = v, st.pc, a[0]
        ex.write(st, lv, Obj(A, t.const('merged', 'Obj:AffineConstraints')))

    def close(ex, st, lv, a, nd):
        v = ex.read(st, lv)
        if isinstance(v, Obj) and str(v.term) == 'merged':
            ex.write(st, lv, Obj(A, t.const('made', 'Obj:AffineConstraints')))
        return VOID
    M[(A, 'close')] = close
    ex.models.ext_funcs['DoFTools::make_hanging_node_constraints'] = hanging = lambda ex, st, a, nd: (ex.write(st, a[1], Obj(A, t.const('hanging', 'Obj:AffineConstraints'))), VOID)[1]
    ex.models.ext_funcs['make_hanging_node_constraints'] = hanging
    ex.models.ext_funcs['get_subdomain_association'] = lambda ex, st, a, nd: VOID
