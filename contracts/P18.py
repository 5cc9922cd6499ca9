"""Every entry of the parameter file reaches the field it names."""
from dv import terms as t
from dv.exec import St
from dv.vals import *
from dv.access import vget, pieces_size
from dv.models import flat
from spec.worlds import world
from dv.check import Harness
from spec.worlds import SOURCES

HARNESSES = [Harness('params', SOURCES, (), always=True, what='bounded: the real parameter handler and classes on generated parameter files')]
S = lambda x: t.const(x, 'S')


def sec(*names):
    r = S('/')
    for x in names:
        r = t.app('subsection', (r, S(x)), 'S')
    return r


class Prm:
    """Contract of ParameterHandler: get*() return the value of the entry in the current subsection."""
    CUR = ('prm-section',)

    def __init__(self, ex, st):
        st.store[self.CUR] = sec()
        st.store[('prm',)] = Obj('ParameterHandler', t.app('prm', (), 'Obj:ParameterHandler'))
        m = ex.models.ext_methods
        P = 'ParameterHandler'
        for nm, sort in (('get', 'S'), ('get_integer', 'I'), ('get_double', 'R'), ('get_bool', 'B')):
            m[(P, nm)] = lambda ex, st, lv, a, n, nm=nm, sort=sort: t.app('prm.' + nm, (st.store[self.CUR], ex.rv(st, a[-1])), sort)
        m[(P, 'enter_subsection')] = self.enter
        m[(P, 'leave_subsection')] = self.leave
        for c in ('SolverControl', 'ParsedFunction'):
            m[(c, 'parse_parameters')] = self.parse
        m[(None, 'parse_parameters')] = self.parse
        f = ex.models.ext_funcs
        f['split_string_list'] = self.split
        for x in ('string_to_int', 'stoi', 'stoul', 'stol'):
            f[x] = lambda ex, st, a, n: t.app('parse', (ex.rv(st, a[0]),), 'I')
        f['operator>>'] = self.read
        ex.hooks['op>>'] = self.read
        self.ex = ex

    def enter(self, ex, st, lv, a, n):
        st.store[self.CUR] = t.app('subsection', (st.store[self.CUR], ex.rv(st, a[0])), 'S')
        return VOID

    def leave(self, ex, st, lv, a, n):
        c = st.store[self.CUR]
        if c.op != 'app' and not c.args:
            raise Unsupported('leave_subsection at the root')
        st.store[self.CUR] = c.args[0]
        return VOID

    def parse(self, ex, st, lv, a, n):
        v = ex.read(st, lv)
        ex.write(st, lv, Obj(v.cls, t.app('parsed', (st.store[self.CUR],), v.term.sort)))
        return VOID

    def split(self, ex, st, a, n):
        s = ex.rv(st, a[0])
        return Vec('string', t.app('split.size', (s,), 'I'), Arr('string', lambda k: t.app('split[]', (s, k[0]), 'S')))

    def read(self, ex, st, a, n):
        r = ex.rv(st, a[0])
        x = r.term if isinstance(r, Obj) else r
        if isinstance(a[0], LV) and isinstance(r, Obj):     # what remains in the stream
            ex.write(st, a[0], Obj(r.cls, t.app('rest', (x,), x.sort)))
        if x.op == 'app' and str(x.val).startswith('new:') and len(x.args) == 1:
            x = x.args[0]
        ex.write(st, a[1], t.app('parse', (x,), 'I'))
        return a[0]


def val(nm, sort, entry, *secs):
    return t.app('prm.' + nm, (sec(*secs), S(entry)), sort)


G, I, D, B = ('get', 'S'), ('get_integer', 'I'), ('get_double', 'R'), ('get_bool', 'B')
Q, SF, VF, GR, OC, FM = 'Quadrature rules', 'Scalar Finite Element', 'Vector Finite Element', 'Grid Refinement', 'Octree Params', 'FMA Params'
FIELDS = {
    'ComputationalDomain': ('source/computational_domain.cc', [
        ('input_grid_name', G, 'Input grid name'), ('input_grid_format', G, 'Input grid format'), ('input_cad_path', G, 'Input path to CAD files'),
        ('n_cycles', I, 'Number of cycles'), ('max_element_aspect_ratio', D, 'Max aspect ratio'), ('use_cad_surface_and_curves', B, 'Use iges surfaces and curves'),
        ('surface_curvature_refinement', B, 'Surface curvature adaptive refinement'), ('cells_per_circle', D, 'Cells per circle'),
        ('pre_global_refinements', I, 'Number of global refinement to be executed before local refinement cycle'),
        ('max_curvature_ref_cycles', I, 'Maximum number of curvature adaptive refinement cycles'),
        ('cad_to_projectors_tolerance_ratio', D, 'Cad tolerance to projectors tolerance ratio'),
        ('spheroid_bool', B, 'Use a spheroid'), ('spheroid_x_axis', D, 'Axis x dimension'), ('spheroid_y_axis', D, 'Axis y dimension'), ('spheroid_z_axis', D, 'Axis z dimension')]),
    'BEMProblem': ('source/bem_problem.cc', [
        ('preconditioner_type', G, 'Preconditioner'), ('solution_method', G, 'Solution method'), ('quadrature_order', I, 'Quadrature order', Q),
        ('singular_quadrature_order', I, 'Singular quadrature order', Q), ('mapping_type', G, 'Mapping Type'), ('mapping_degree', I, 'Mapping Q Degree'),
        ('continuos_gradient', B, 'Continuos gradient across edges'), ('scalar_fe_type', G, 'Finite Element type', SF), ('scalar_fe_order', I, 'Finite element order', SF),
        ('vector_fe_type', G, 'Finite Element type', VF), ('vector_fe_order', I, 'Finite element order', VF), ('coarsening_threshold', D, 'Coarsening threshold', GR),
        ('refinement_threshold', D, 'Refinement threshold', GR)]),
    'BEMFMA': ('source/bem_fma.cc', [
        ('num_octree_levels', I, 'Number of Octree Levels', OC), ('max_num_nodes_per_block', I, 'Maximum Number of Collocation Points per Childless Block', OC),
        ('trunc_order', I, 'FMA Truncation Order', FM), ('tbb_granularity', I, 'Granularity for TBB simple for cycles', FM)]),
    'BoundaryConditions': ('source/boundary_conditions.cc', [('output_file_name', G, 'Output file name')]),
    'Driver': ('source/driver.cc', [('global_refinement', B, 'Set Global Refinement')]),
}


def verify(ctx):
    P = ctx.load([(f, c) for c, (f, _) in FIELDS.items()])
    for dim in (2, 3):
        for c, (f, fields) in FIELDS.items():
            C = '%s<%d>' % (c, dim)
            if not P.find(C, 'parse_parameters'):
                continue
            with ctx.fn(C + '::parse_parameters'):
                ex = ctx.exec()
                st = St()
                this = LV(('obj',))
                st.store[this.cell] = ex.mk_sym(C, 'obj')
                prm = Prm(ex, st)
                ex.call(st, P.one(C, 'parse_parameters'), this, [LV(('prm',))])
                o = st.store[this.cell]
                rd = lambda fld: ex.read(st, LV(this.cell, (fld,)))
                for fld, (nm, sort), entry, *secs in fields:
                    ctx.eq('%s is the entry "%s"' % (fld, '/'.join(secs + [entry])), st.pc, rd(fld), val(nm, sort, entry, *secs), control=sort == 'R')
                if c == 'ComputationalDomain':
                    k = t.var('k', 'I')
                    for fld, entry in (('dirichlet_boundary_ids', 'Dirichlet boundary ids'), ('neumann_boundary_ids', 'Neumann boundary ids')):
                        s = val('get', 'S', entry, 'Boundary Conditions ID Numbers')
                        v = rd(fld)
                        n = t.app('split.size', (s,), 'I')
                        st2 = st.pc + (t.le(t.I(0), k), t.lt(k, n))
                        ctx.eq('%s has one id per item of "%s"' % (fld, entry), st.pc + (t.le(t.I(0), n),), pieces_size(v.pieces) if v.pieces is not None else v.size, n)
                        ctx.eq('%s holds the items of "%s" in order' % (fld, entry), st2, vget(v, ((k,),)), t.app('parse', (t.app('split[]', (s, k), 'S'),), 'I'))
                if c == 'BEMProblem':
                    ctx.eq('the solver control is parsed in its section', st.pc, rd('solver_control').term, t.app('parsed', (sec('Solver'),), rd('solver_control').term.sort))
                if c == 'BoundaryConditions':
                    for fld, nm in (('wind', 'Wind function %dd'), ('potential', 'Potential %dd')):
                        ctx.eq('%s is parsed in its section' % fld, st.pc, rd(fld).term, t.app('parsed', (sec(nm % dim),), rd(fld).term.sort))
                ctx.eq('the subsection is left', st.pc, st.store[Prm.CUR], sec())
                ctx.discharge(ex)
