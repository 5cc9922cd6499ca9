// Real boundary element problems built from generated surfaces, for the
// run-time evaluation of the contracts on the real code.
#ifndef WORLD_H
#define WORLD_H
#include <deal.II/base/mpi.h>
#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/tria.h>
#include <memory>
#include <sstream>
#include "boundary_conditions.h"
#include "dv.h"
namespace dv
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  inline void quiet()
  {
    static Null n;
    std::cout.rdbuf(&n);
    deallog.depth_console(0);
  }
  // A surface description: panels listed by corner positions; panels of one
  // group share vertices, panels of different groups have their own copies.
  template <int dim> struct Panel { std::vector<Point<dim>> v; unsigned mat, group; };
  template <int dim> using Surface = std::vector<Panel<dim>>;
  template <int dim> void fill(Triangulation<dim - 1, dim> &tria, const Surface<dim> &s)
  {
    std::vector<Point<dim>>        pts;
    std::vector<unsigned>          grp;
    std::vector<CellData<dim - 1>> cells;
    for (auto &p : s)
      {
        CellData<dim - 1> c;
        for (unsigned i = 0; i < p.v.size(); ++i)
          {
            unsigned k = 0;
            for (; k < pts.size(); ++k)
              if (grp[k] == p.group && pts[k].distance(p.v[i]) < 1e-9) break;
            if (k == pts.size()) { pts.push_back(p.v[i]); grp.push_back(p.group); }
            c.vertices[i] = k;
          }
        c.material_id = p.mat;
        cells.push_back(c);
      }
    if (dim == 3) GridTools::consistently_order_cells(cells);
    tria.create_triangulation(pts, cells, SubCellData());
  }
  // Box [a,b]^3 with n cells per edge on each face; normals point outwards.
  struct BoxSpec { Point<3> lo, hi; int n[3] = {2, 2, 2}; unsigned mat[6] = {0, 0, 0, 0, 0, 0}; unsigned group[6] = {0, 1, 2, 3, 4, 5}; double jitter = 0; };
  inline Surface<3> box(const BoxSpec &b)
  {
    Surface<3> s;
    for (int f = 0; f < 6; ++f)
      {
        int  ax = f / 2, u = (ax + 1) % 3, w = (ax + 2) % 3;
        bool up = f % 2;
        std::map<std::pair<int, int>, Point<3>> g;
        for (int i = 0; i <= b.n[u]; ++i)
          for (int j = 0; j <= b.n[w]; ++j)
            {
              Point<3> p;
              double   x = (double)i / b.n[u], y = (double)j / b.n[w];
              if (i > 0 && i < b.n[u] && j > 0 && j < b.n[w])
                { x += b.jitter * uni(-.3, .3) / b.n[u]; y += b.jitter * uni(-.3, .3) / b.n[w]; }
              p[ax] = up ? b.hi[ax] : b.lo[ax];
              p[u] = b.lo[u] + (b.hi[u] - b.lo[u]) * x;
              p[w] = b.lo[w] + (b.hi[w] - b.lo[w]) * y;
              g[{i, j}] = p;
            }
        for (int i = 0; i < b.n[u]; ++i)
          for (int j = 0; j < b.n[w]; ++j)
            {
              Panel<3> P;
              P.mat = b.mat[f];
              P.group = b.group[f];
              // deal.II lexicographic-circular order; u x w = +ax
              if (up) P.v = {g[{i, j}], g[{i + 1, j}], g[{i, j + 1}], g[{i + 1, j + 1}]};
              else P.v = {g[{i, j}], g[{i, j + 1}], g[{i + 1, j}], g[{i + 1, j + 1}]};
              s.push_back(P);
            }
      }
    return s;
  }
  // maps every vertex (sphere, ellipsoid, shear, ...)
  template <int dim, class F> Surface<dim> mapped(Surface<dim> s, F f)
  {
    for (auto &p : s) for (auto &v : p.v) v = f(v);
    return s;
  }
  // closed polygon, sides[i] between corner i and i+1 with n cells, traversed so that normals point outwards
  inline Surface<2> polygon(const std::vector<Point<2>> &c, int n, const std::vector<unsigned> &mat, const std::vector<unsigned> &group)
  {
    Surface<2> s;
    for (unsigned i = 0; i < c.size(); ++i)
      for (int j = 0; j < n; ++j)
        {
          Point<2> a = c[i], b = c[(i + 1) % c.size()];
          Panel<2> P;
          P.mat = mat[i];
          P.group = group[i];
          P.v = {Point<2>(a + (b - a) * ((double)j / n)), Point<2>(a + (b - a) * ((double)(j + 1) / n))};
          s.push_back(P);
        }
    return s;
  }
  struct Opts
  {
    std::string method = "Direct", fe = "FEQ", vfe = "FEQ", prec = "ILU", mapping = "FE", potential, wind;
    int  order = 1, vorder = 1, mdegree = 1, quad = 4, squad = 5, trunc = 6, leaf = 8, levels = 6, steps = 400;
    bool cont = true;
    std::vector<unsigned> dirichlet = {1}, neumann = {0};
    double tol = 1e-12;
  };
  template <int dim> struct World
  {
    ComputationalDomain<dim> dom;
    BEMProblem<dim>          bem;
    BoundaryConditions<dim>  bc;
    Opts                     o;
    World(const Opts &oo) : dom(MPI_COMM_WORLD), bem(dom, MPI_COMM_WORLD), bc(dom, bem, MPI_COMM_WORLD), o(oo)
    {
      quiet();
      dom.pcout.set_condition(false);
      bem.pcout.set_condition(false);
      bem.fma.pcout.set_condition(false);
      bc.pcout.set_condition(false);
      configure();
    }
    void configure()
    {
      ParameterHandler prm;
      ParameterAcceptor::declare_all_parameters(prm);
      std::ostringstream s;
      auto               D = std::to_string(dim);
      auto list = [](const std::vector<unsigned> &v) { std::string r; for (unsigned i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r; };
      s << "subsection ComputationalDomain<" << D << ">\n subsection Boundary Conditions ID Numbers\n set Dirichlet boundary ids=" << list(o.dirichlet)
        << "\n set Neumann boundary ids=" << list(o.neumann) << "\n end\nend\n";
      s << "subsection BEMProblem<" << D << ">\n set Solution method=" << o.method << "\n set Preconditioner=" << o.prec << "\n set Mapping Type=" << o.mapping << "\n set Mapping Q Degree=" << o.mdegree
        << "\n set Continuos gradient across edges=" << (o.cont ? "true" : "false")
        << "\n subsection Quadrature rules\n set Quadrature order=" << o.quad << "\n set Singular quadrature order=" << o.squad << "\n end\n"
        << " subsection Scalar Finite Element\n set Finite Element type=" << o.fe << "\n set Finite element order=" << o.order << "\n end\n"
        << " subsection Vector Finite Element\n set Finite Element type=" << o.vfe << "\n set Finite element order=" << o.vorder << "\n end\n"
        << " subsection Solver\n set Log history=false\n set Log result=false\n set Max steps=" << o.steps << "\n set Tolerance=" << o.tol << "\n end\nend\n";
      s << "subsection BEMFMA<" << D << ">\n subsection FMA Params\n set FMA Truncation Order=" << o.trunc << "\n end\n subsection Octree Params\n"
        << " set Maximum Number of Collocation Points per Childless Block=" << o.leaf << "\n set Number of Octree Levels=" << o.levels << "\n end\nend\n";
      s << "subsection BoundaryConditions<" << D << ">\n";
      if (o.potential.size()) s << " subsection Potential " << D << "d\n set Function expression=" << o.potential << "\n end\n";
      if (o.wind.size()) s << " subsection Wind function " << D << "d\n set Function expression=" << o.wind << "\n end\n";
      s << "end\n";
      prm.parse_input_from_string(s.str());
      ParameterAcceptor::parse_all_parameters(prm);
    }
    void mesh(const Surface<dim> &s, int refine = 0)
    {
      fill<dim>(dom.tria, s);
      if (refine) dom.tria.refine_global(refine);
      GridTools::partition_triangulation(dom.n_mpi_processes, dom.tria);
    }
    // values needed by the oracles
    std::vector<Point<dim>> nodes() const
    {
      std::vector<Point<dim>> p(bem.dh.n_dofs());
      DoFTools::map_dofs_to_support_points<dim - 1, dim>(*bem.mapping, bem.dh, p);
      return p;
    }
    std::vector<std::set<types::global_dof_index>> twins(bool edges = false) const
    {
      // coincident copies are registered between nodes on boundary edges of elements with edge dofs
      std::vector<char> edge(bem.dh.n_dofs(), !edges);
      std::vector<types::global_dof_index> d(bem.fe->dofs_per_cell);
      for (auto c : bem.dh.active_cell_iterators())
        {
          c->get_dof_indices(d);
          for (unsigned f = 0; f < GeometryInfo<dim - 1>::faces_per_cell; ++f)
            if (bem.fe->dofs_per_face > 0 && c->at_boundary(f)) for (unsigned i = 0; i < d.size(); ++i) if (bem.fe->has_support_on_face(i, f)) edge[d[i]] = 1;
        }
      auto p = nodes();
      std::vector<std::set<types::global_dof_index>> r(p.size());
      for (unsigned i = 0; i < p.size(); ++i)
        for (unsigned j = 0; j < p.size(); ++j)
          if (i == j || (edge[i] && edge[j] && p[i].distance(p[j]) < 1e-10)) r[i].insert(j);
      return r;
    }
    bool is_in(const std::vector<unsigned> &v, unsigned m) const { for (auto x : v) if (x == m) return true; return false; }
    std::vector<char> dirichlet() const
    {
      std::vector<char> r(bem.dh.n_dofs(), 0);
      std::vector<types::global_dof_index> d(bem.fe->dofs_per_cell);
      for (auto c : bem.dh.active_cell_iterators())
        if (is_in(o.dirichlet, c->material_id())) { c->get_dof_indices(d); for (auto i : d) r[i] = 1; }
      return r;
    }
    TrilinosWrappers::MPI::Vector vec() const { TrilinosWrappers::MPI::Vector v; v.reinit(bem.this_cpu_set, MPI_COMM_WORLD); return v; }
    TrilinosWrappers::MPI::Vector random(double lo = -1, double hi = 1) const
    {
      auto v = vec();
      for (auto i : bem.this_cpu_set) v(i) = uni(lo, hi);
      v.compress(VectorOperation::insert);
      return v;
    }
  };
  // sample configurations
  inline BoxSpec random_box(int nmax, int nmat)
  {
    BoxSpec b;
    for (int d = 0; d < 3; ++d) { b.lo[d] = uni(-1, 0); b.hi[d] = b.lo[d] + uni(.7, 1.6); b.n[d] = irand(1, nmax); }
    for (int f = 0; f < 6; ++f) b.mat[f] = irand(0, nmat - 1);
    b.jitter = irand(0, 1);
    return b;
  }
  inline Surface<2> random_polygon(int nmat, bool shared)
  {
    int nc = irand(3, 6), n = irand(2, 4);
    std::vector<Point<2>> c;
    for (int i = 0; i < nc; ++i) { double t = 2 * M_PI * (i + uni(-.2, .2)) / nc, r = uni(.8, 1.2); c.push_back(Point<2>(r * std::cos(t), r * std::sin(t))); }
    std::vector<unsigned> m, g;
    for (int i = 0; i < nc; ++i) { m.push_back(irand(0, nmat - 1)); g.push_back(shared ? 0 : i); }
    return polygon(c, n, m, g);
  }
} // namespace dv
#endif
