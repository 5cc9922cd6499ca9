// P18 on the real code: every entry of the parameter file reaches its field.
#include "world.h"
#include "driver.h"
using namespace dv;
template <class A, class B> static void same(const char *what, const A &a, const B &b, int n)
{
  std::ostringstream x, y;
  x.precision(17); y.precision(17);
  x << a; y << b;
  if (x.str() != y.str()) fail("entry", "parse %d: '%s' is %s in the file and %s in the program", n, what, y.str().c_str(), x.str().c_str());
  stat("entries");
}
static std::string list(const std::vector<unsigned> &v)
{
  std::string s;
  for (unsigned i = 0; i < v.size(); ++i) s += (i ? (irand(0, 1) ? ", " : ",") : "") + std::to_string(v[i]);
  return s;
}
static std::string word() { std::string s; for (int i = irand(1, 9); i > 0; --i) s += 'a' + irand(0, 25); return s; }
static std::vector<unsigned> ids()
{
  std::vector<unsigned> v(irand(1, 9) < 8 ? irand(1, 5) : irand(6, 40));
  for (auto &x : v) x = irand(0, 2) ? irand(0, 12) : irand(100, 100000);
  return v;
}
static void sameids(const char *what, const std::vector<unsigned> &a, const std::vector<unsigned> &b, int n)
{
  if (a != b) fail("ids", "parse %d: the %s entry lists '%s', the program holds '%s'", n, what, list(b).c_str(), list(a).c_str());
  stat("id-lists");
}
static const char *B(bool b) { return b ? "true" : "false"; }
template <int dim> void run(int N)
{
  ComputationalDomain<dim> d(MPI_COMM_WORLD);
  BEMProblem<dim>          b(d, MPI_COMM_WORLD);
  BoundaryConditions<dim>  c(d, b, MPI_COMM_WORLD);
  for (int n = 0; n < N; ++n)
    {
      ParameterHandler prm;
      ParameterAcceptor::declare_all_parameters(prm);
      auto D = std::to_string(dim);
      std::ostringstream s;
      s.precision(17);
      std::string grid = word(), fmt = word(), cad = word() + "/", out = word();
      int cyc = irand(0, 30), glob = irand(0, 30), curv = irand(0, 30);
      double ar = uni(1, 10), ratio = uni(1, 1000), per = uni(1, 100), ax = uni(.1, 9), ay = uni(.1, 9), az = uni(.1, 9);
      bool iges = irand(0, 1), scar = irand(0, 1), sph = irand(0, 1);
      auto di = ids(), ne = ids();
      s << "subsection ComputationalDomain<" << D << ">\nset Input grid name=" << grid << "\nset Input grid format=" << fmt << "\nset Input path to CAD files=" << cad
        << "\nset Number of cycles=" << cyc << "\nset Max aspect ratio=" << ar << "\nset Use iges surfaces and curves=" << B(iges)
        << "\nset Cad tolerance to projectors tolerance ratio=" << ratio << "\nset Surface curvature adaptive refinement=" << B(scar) << "\nset Cells per circle=" << per
        << "\nset Maximum number of curvature adaptive refinement cycles=" << curv << "\nset Number of global refinement to be executed before local refinement cycle=" << glob
        << "\nset Use a spheroid=" << B(sph) << "\nset Axis x dimension=" << ax << "\nset Axis y dimension=" << ay << "\nset Axis z dimension=" << az
        << "\nsubsection Boundary Conditions ID Numbers\nset Dirichlet boundary ids=" << list(di) << "\nset Neumann boundary ids=" << list(ne) << "\nend\nend\n";
      std::string prec = irand(0, 1) ? "ILU" : "AMG", meth = irand(0, 1) ? "Direct" : "FMA", map = irand(0, 1) ? "FE" : "Q", f1 = irand(0, 1) ? "FEQ" : "FEDGQ", f2 = irand(0, 1) ? "FEQ" : "FEDGQ";
      int q = irand(2, 9), sq = irand(2, 9), md = irand(1, 5), o1 = irand(1, 4), o2 = irand(1, 4), steps = irand(1, 999);
      double tol = uni(1e-12, 1e-3), co = uni(0, 1), re = uni(0, 1);
      bool cont = irand(0, 1);
      s << "subsection BEMProblem<" << D << ">\nset Solution method=" << meth << "\nset Preconditioner=" << prec << "\nset Mapping Type=" << map << "\nset Mapping Q Degree=" << md
        << "\nset Continuos gradient across edges=" << B(cont) << "\nsubsection Quadrature rules\nset Quadrature type=gauss\nset Quadrature order=" << q << "\nset Singular quadrature order=" << sq
        << "\nend\nsubsection Scalar Finite Element\nset Finite Element type=" << f1 << "\nset Finite element order=" << o1
        << "\nend\nsubsection Vector Finite Element\nset Finite Element type=" << f2 << "\nset Finite element order=" << o2
        << "\nend\nsubsection Grid Refinement\nset Coarsening threshold=" << co << "\nset Refinement threshold=" << re
        << "\nend\nsubsection Solver\nset Max steps=" << steps << "\nset Tolerance=" << tol << "\nend\nend\n";
      int lev = irand(1, 12), leaf = irand(1, 99), tr = irand(1, 10), gr = irand(1, 50);
      s << "subsection BEMFMA<" << D << ">\nsubsection FMA Params\nset FMA Truncation Order=" << tr << "\nset Granularity for TBB simple for cycles=" << gr
        << "\nend\nsubsection Octree Params\nset Maximum Number of Collocation Points per Childless Block=" << leaf << "\nset Number of Octree Levels=" << lev << "\nend\nend\n";
      double k[6];
      for (auto &x : k) x = irand(-50, 50) / 8.;
      std::ostringstream w, p, w2, p2;
      w << k[0] << "*x;" << k[1] << "+y"; if (dim == 3) w << ";" << k[2] << "*z";
      p << k[3] << "*x+" << k[4] << "*y";
      w2 << "17;18"; if (dim == 2) w2 << ";19"; // the other dimension's functions must not leak in
      p2 << "33";
      s << "subsection BoundaryConditions<" << D << ">\nset Output file name=" << out << "\n";
      for (int e = 2; e <= 3; ++e)
        s << "subsection Wind function " << e << "d\nset Function expression=" << (e == dim ? w.str() : w2.str()) << "\nend\nsubsection Potential " << e << "d\nset Function expression=" << (e == dim ? p.str() : p2.str()) << "\nend\n";
      s << "end\n";
      prm.parse_input_from_string(s.str());
      ParameterAcceptor::parse_all_parameters(prm);
      same("Input grid name", d.input_grid_name, grid, n); same("Input grid format", d.input_grid_format, fmt, n); same("Input path to CAD files", d.input_cad_path, cad, n);
      same("Number of cycles", d.n_cycles, cyc, n); same("Max aspect ratio", d.max_element_aspect_ratio, ar, n); same("Use iges surfaces and curves", d.use_cad_surface_and_curves, iges, n);
      same("Cad tolerance to projectors tolerance ratio", d.cad_to_projectors_tolerance_ratio, ratio, n); same("Surface curvature adaptive refinement", d.surface_curvature_refinement, scar, n);
      same("Cells per circle", d.cells_per_circle, per, n); same("Maximum number of curvature adaptive refinement cycles", d.max_curvature_ref_cycles, curv, n);
      same("Number of global refinement", d.pre_global_refinements, glob, n); same("Use a spheroid", d.spheroid_bool, sph, n);
      same("Axis x dimension", d.spheroid_x_axis, ax, n); same("Axis y dimension", d.spheroid_y_axis, ay, n); same("Axis z dimension", d.spheroid_z_axis, az, n);
      sameids("Dirichlet", d.dirichlet_boundary_ids, di, n);
      sameids("Neumann", d.neumann_boundary_ids, ne, n);
      same("Solution method", b.solution_method, meth, n); same("Preconditioner", b.preconditioner_type, prec, n); same("Mapping Type", b.mapping_type, map, n); same("Mapping Q Degree", b.mapping_degree, md, n);
      same("Continuos gradient", b.continuos_gradient, cont, n); same("Quadrature order", b.quadrature_order, q, n); same("Singular quadrature order", b.singular_quadrature_order, sq, n);
      same("Quadrature points", b.quadrature->size(), (unsigned)std::pow(q, dim - 1), n);
      same("Scalar Finite Element type", b.scalar_fe_type, f1, n); same("Scalar Finite element order", b.scalar_fe_order, o1, n); same("Vector Finite Element type", b.vector_fe_type, f2, n); same("Vector Finite element order", b.vector_fe_order, o2, n);
      same("Coarsening threshold", b.coarsening_threshold, co, n); same("Refinement threshold", b.refinement_threshold, re, n); same("Max steps", b.solver_control.max_steps(), steps, n); same("Tolerance", b.solver_control.tolerance(), tol, n);
      same("FMA Truncation Order", b.fma.trunc_order, tr, n); same("Granularity", b.fma.tbb_granularity, gr, n); same("Maximum Number of Collocation Points", b.fma.max_num_nodes_per_block, leaf, n); same("Number of Octree Levels", b.fma.num_octree_levels, lev, n);
      same("Output file name", c.output_file_name, out, n);
      Point<dim> x;
      for (int i = 0; i < dim; ++i) x[i] = uni(-2, 2);
      Vector<double> v(dim);
      c.wind.vector_value(x, v);
      double e[3] = {k[0] * x[0], k[1] + x[1], dim == 3 ? k[2] * x[dim - 1] : 0};
      for (int i = 0; i < dim; ++i) if (!close(v(i), e[i], 10, 1e-12)) fail("wind", "parse %d: component %d of the wind '%s' is %.12g, expected %.12g", n, i, w.str().c_str(), v(i), e[i]);
      double f = k[3] * x[0] + k[4] * x[1];
      if (!close(c.potential.value(x), f, 10, 1e-12)) fail("potential", "parse %d: the potential '%s' is %.12g, expected %.12g", n, p.str().c_str(), c.potential.value(x), f);
      stat("functions", 2);
    }
  ParameterAcceptor::clear();
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  quiet();
  int N = thorough(argc, argv) ? 300 : 40;
  run<3>(N);
  run<2>(N);
  for (int n = 0; n < 4; ++n)
    {
      Driver<2> dr;
      ParameterHandler prm;
      ParameterAcceptor::declare_all_parameters(prm);
      std::string sec = "subsection Driver<2>\nset Set Global Refinement=" + std::string(B(n % 2)) + "\nend\n";
      prm.parse_input_from_string(sec);
      ParameterAcceptor::parse_all_parameters(prm);
      same("Set Global Refinement", dr.global_refinement, n % 2, n);
      ParameterAcceptor::clear();
    }
  return done();
}
