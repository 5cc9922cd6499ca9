// P09, P20, P21 on the real code: matrices, recovered fields, reported errors.
#include "world.h"
#include "laplace_kernel.h"
using namespace dv;
typedef types::global_dof_index gi;
typedef TrilinosWrappers::MPI::Vector TV;
static std::string P;
static bool on(const char *p) { return P == p; }
template <int dim> Quadrature<dim - 1> singular(const Opts &o, const Point<dim - 1> &p);
template <> Quadrature<2> singular<3>(const Opts &o, const Point<2> &p) { return QSplit<2>(QDuffy(o.squad, 1.), p); }
template <> Quadrature<1> singular<2>(const Opts &o, const Point<1> &p) { return QTelles<1>(o.squad, p); }
template <int dim> double green(const Tensor<1, dim> &R) { return dim == 3 ? 1 / (4 * M_PI * R.norm()) : -std::log(R.norm()) / (2 * M_PI); }
template <int dim> Tensor<1, dim> dgreen(const Tensor<1, dim> &R) { return -R / ((dim == 3 ? 4 * M_PI : 2 * M_PI) * std::pow(R.norm(), dim)); }

template <int dim> void p09(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  b.assemble_system();
  if (dv::irand(0, 1)) b.assemble_system(); // a second assembly starts afresh
  const unsigned n = b.dh.n_dofs(), m = b.fe->dofs_per_cell;
  FullMatrix<double> N(n, n), D(n, n);
  auto x = w.nodes();
  auto t = w.twins(true);
  std::vector<gi> d(m);
  const auto &up = b.fe->get_unit_support_points();
  std::vector<std::unique_ptr<FEValues<dim - 1, dim>>> fs;
  auto fl = update_values | update_normal_vectors | update_quadrature_points | update_JxW_values;
  for (unsigned j = 0; j < m; ++j) fs.emplace_back(new FEValues<dim - 1, dim>(*b.mapping, *b.fe, singular<dim>(w.o, up[j]), fl));
  FEValues<dim - 1, dim> fr(*b.mapping, *b.fe, QGauss<dim - 1>(w.o.quad), fl);
  for (auto c : b.dh.active_cell_iterators())
    {
      c->get_dof_indices(d);
      fr.reinit(c);
      for (auto &f : fs) f->reinit(c);
      for (gi i = 0; i < n; ++i)
        {
          FEValues<dim - 1, dim> *f = &fr;
          for (unsigned j = 0; j < m; ++j) if (t[i].count(d[j])) { f = fs[j].get(); break; }
          for (unsigned q = 0; q < f->n_quadrature_points; ++q)
            {
              Tensor<1, dim> R = f->quadrature_point(q) - x[i];
              double s = green<dim>(R), k = dgreen<dim>(R) * f->normal_vector(q);
              for (unsigned j = 0; j < m; ++j) { N(i, d[j]) += k * f->shape_value(j, q) * f->JxW(q); D(i, d[j]) += s * f->shape_value(j, q) * f->JxW(q); }
            }
        }
    }
  for (gi i = 0; i < n; ++i) for (gi j = 0; j < n; ++j)
    {
      if (!close(b.neumann_matrix(i, j), N(i, j), std::fabs(N(i, j)) + 1e-3, 1e-8)) fail("neumann", "%s: entry (%u,%u) is %.12g, the collocation integral %.12g", what, (unsigned)i, (unsigned)j, (double)b.neumann_matrix(i, j), N(i, j));
      if (!close(b.dirichlet_matrix(i, j), D(i, j), std::fabs(D(i, j)) + 1e-3, 1e-8)) fail("dirichlet", "%s: entry (%u,%u) is %.12g, the collocation integral %.12g", what, (unsigned)i, (unsigned)j, (double)b.dirichlet_matrix(i, j), D(i, j));
    }
  stat("entries", n * n);
}
// mass-matrix projection of a field given at quadrature points, dense solve
template <int dim, class F> std::vector<double> project(World<dim> &w, F field)
{
  auto &b = w.bem;
  const unsigned n = b.gradient_dh.n_dofs(), m = b.gradient_fe->dofs_per_cell;
  FullMatrix<double> M(n, n);
  Vector<double> r(n), s(n);
  std::vector<gi> d(m), ds(b.fe->dofs_per_cell);
  auto fl = update_values | update_gradients | update_normal_vectors | update_quadrature_points | update_JxW_values;
  FEValues<dim - 1, dim> f(*b.mapping, *b.gradient_fe, QGauss<dim - 1>(w.o.quad), fl), g(*b.mapping, *b.fe, QGauss<dim - 1>(w.o.quad), fl);
  auto cs = b.dh.begin_active();
  for (auto c : b.gradient_dh.active_cell_iterators())
    {
      f.reinit(c);
      g.reinit(cs);
      c->get_dof_indices(d);
      cs->get_dof_indices(ds);
      FullMatrix<double> lm(m, m);
      Vector<double> lr(m);
      for (unsigned q = 0; q < f.n_quadrature_points; ++q)
        {
          Tensor<1, dim> v = field(g, ds, q);
          for (unsigned i = 0; i < m; ++i)
            {
              unsigned ci = b.gradient_fe->system_to_component_index(i).first;
              for (unsigned j = 0; j < m; ++j) if (ci == b.gradient_fe->system_to_component_index(j).first) lm(i, j) += f.shape_value(i, q) * f.shape_value(j, q) * f.JxW(q);
              lr(i) += f.shape_value(i, q) * v[ci] * f.JxW(q);
            }
        }
      b.vector_constraints.distribute_local_to_global(lm, lr, d, M, r);
      ++cs;
    }
  M.gauss_jordan();
  M.vmult(s, r);
  b.vector_constraints.distribute(s);
  return std::vector<double>(s.begin(), s.end());
}
template <int dim> void compare(World<dim> &w, const TV &v, const std::vector<double> &e, const char *key, const char *what)
{
  double sc = 1;
  for (auto x : e) sc = std::max(sc, std::fabs(x));
  for (gi i = 0; i < e.size(); ++i)
    if (!close(v(i), e[i], sc, 1e-6)) fail(key, "%s: vector dof %u is %.10g, the projection %.10g", what, (unsigned)i, (double)v(i), e[i]);
  stat("dofs", e.size());
}
template <int dim> void p20(World<dim> &w, const char *what, bool flat)
{
  auto &b = w.bem;
  auto x = w.nodes();
  auto phi = w.random(), dn = w.random();
  for (int rep = 0; rep < 2; ++rep)
    {
      Tensor<1, dim> a;
      for (int d = 0; d < dim; ++d) a[d] = uni(-2, 2);
      b.compute_normals();
      compare<dim>(w, b.vector_normals_solution, project<dim>(w, [&](FEValues<dim - 1, dim> &f, const std::vector<gi> &, unsigned q) { return f.normal_vector(q); }), "normals", what);
      if (rep) // linear potential with its exact flux
        for (gi i = 0; i < x.size(); ++i)
          {
            phi(i) = a * x[i] + .5;
            double s = 0;
            for (int d = 0; d < dim; ++d) s += a[d] * b.vector_normals_solution(b.vec_original_to_sub_wise[x.size() * d + b.sub_wise_to_original[i]]);
            dn(i) = s;
          }
      auto sg = [&](FEValues<dim - 1, dim> &f, const std::vector<gi> &d, unsigned q) { Tensor<1, dim> g; for (unsigned j = 0; j < d.size(); ++j) g += (double)phi(d[j]) * f.shape_grad(j, q); return g; };
      b.compute_surface_gradients(phi);
      compare<dim>(w, b.vector_surface_gradients_solution, project<dim>(w, sg), "surface-gradient", what);
      b.compute_gradients(phi, dn);
      compare<dim>(w, b.vector_gradients_solution, project<dim>(w, [&](FEValues<dim - 1, dim> &f, const std::vector<gi> &d, unsigned q) {
                     Tensor<1, dim> g = sg(f, d, q);
                     double v = 0;
                     for (unsigned j = 0; j < d.size(); ++j) v += (double)dn(d[j]) * f.shape_value(j, q);
                     return g + v * f.normal_vector(q); }), "gradient", what);
      if (flat)
        for (gi i = 0; i < x.size(); ++i)
          {
            double nn = 0;
            for (int d = 0; d < dim; ++d)
              {
                gi k = b.vec_original_to_sub_wise[x.size() * d + b.sub_wise_to_original[i]];
                nn += std::pow(b.vector_normals_solution(k), 2);
                if (rep && !close(b.vector_gradients_solution(k), a[d], 3, 1e-6)) fail("gradient-exact", "%s: component %d at node %u: %.10g, gradient of the linear potential %.10g", what, d, (unsigned)i, (double)b.vector_gradients_solution(k), a[d]);
              }
            if (!close(nn, 1, 1, 1e-6)) fail("normal-unit", "%s: normal of length^2 %.10g at node %u of a flat panel", what, nn, (unsigned)i);
          }
    }
}
static double grab(const std::string &s, const char *label)
{
  auto k = s.find(label);
  return k == std::string::npos ? NAN : atof(s.c_str() + k + strlen(label));
}
template <int dim> void p21(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  auto x = w.nodes();
  const unsigned n = x.size();
  w.bc.this_cpu_set = b.this_cpu_set;
  b.compute_normals();
  for (int rep = 0; rep < 3; ++rep)
    {
      double amp = rep == 0 ? 0 : uni(.1, 2);
      w.bc.phi.reinit(b.this_cpu_set, MPI_COMM_WORLD);
      w.bc.dphi_dn.reinit(b.this_cpu_set, MPI_COMM_WORLD);
      std::vector<double> ep(n), ed(n), wn(n);
      for (gi i = 0; i < n; ++i)
        {
          Vector<double> v(dim);
          w.bc.wind.vector_value(x[i], v);
          for (int d = 0; d < dim; ++d) wn[i] += v[d] * b.vector_normals_solution(b.vec_original_to_sub_wise[n * d + b.sub_wise_to_original[i]]);
          ep[i] = amp * uni(-1, 1);
          ed[i] = amp * uni(-1, 1);
          w.bc.phi(i) = w.bc.potential.value(x[i]) + ep[i];
          w.bc.dphi_dn(i) = wn[i] + ed[i];
        }
      std::ostringstream out;
      auto *old = std::cout.rdbuf(out.rdbuf());
      w.bc.pcout.set_condition(true);
      w.bc.compute_errors();
      w.bc.pcout.set_condition(false);
      std::cout.rdbuf(old);
      // the norms, from the definition
      auto fl = update_values | update_normal_vectors | update_quadrature_points | update_JxW_values;
      QGauss<dim - 1> Q(2 * (2 * b.fe->degree + 1));
      FEValues<dim - 1, dim> f(*b.mapping, *b.fe, Q, fl), g(*b.mapping, *b.gradient_fe, Q, fl);
      std::vector<gi> d(b.fe->dofs_per_cell), dg(b.gradient_fe->dofs_per_cell);
      double L2 = 0, D2 = 0, G2 = 0, Li = 0, Di = 0, Gi = 0;
      auto cg = b.gradient_dh.begin_active();
      for (auto c : b.dh.active_cell_iterators())
        {
          f.reinit(c);
          g.reinit(cg);
          c->get_dof_indices(d);
          cg->get_dof_indices(dg);
          for (unsigned q = 0; q < Q.size(); ++q)
            {
              double p = -w.bc.potential.value(f.quadrature_point(q)), e = 0;
              for (unsigned j = 0; j < d.size(); ++j) { p += (double)w.bc.phi(d[j]) * f.shape_value(j, q); e += ed[d[j]] * f.shape_value(j, q); }
              Vector<double> v(dim);
              w.bc.wind.vector_value(f.quadrature_point(q), v);
              for (unsigned j = 0; j < dg.size(); ++j) v(b.gradient_fe->system_to_component_index(j).first) -= b.vector_gradients_solution(dg[j]) * g.shape_value(j, q);
              L2 += p * p * f.JxW(q); D2 += e * e * f.JxW(q); G2 += v.norm_sqr() * f.JxW(q);
            }
          ++cg;
        }
      for (gi i = 0; i < n; ++i)
        {
          Li = std::max(Li, std::fabs(ep[i])); Di = std::max(Di, std::fabs(ed[i]));
          Vector<double> v(dim);
          w.bc.wind.vector_value(x[i], v);
          for (int c = 0; c < dim; ++c) Gi = std::max(Gi, std::fabs(b.vector_gradients_solution(b.vec_original_to_sub_wise[n * c + b.sub_wise_to_original[i]]) - v[c]));
        }
      struct { const char *label; double e; } r[] = {{"Phi Nodes error L_inf norm: ", Li}, {"Phi Cells error L_2 norm: ", std::sqrt(L2)}, {"dPhidN Nodes error L_inf norm: ", Di}, {"dPhidN Nodes error L_2 norm: ", std::sqrt(D2)}, {"Phi Nodes Gradient error L_inf norm: ", Gi}, {"Phi Cells Gradient  error L_2 norm: ", std::sqrt(G2)}};
      for (auto &k : r)
        {
          double v = grab(out.str(), k.label);
          if (!(std::fabs(v - k.e) <= 2e-5 * k.e + 1e-9)) fail("error", "%s: '%s' reported %.8g, the norm of the difference is %.8g", what, k.label, v, k.e);
          stat("norms");
        }
    }
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1); started();
  P = argv[1];
  int N = thorough(argc, argv) ? 24 : 6;
  for (int n = 0; n < N; ++n)
    {
      Opts o;
      o.order = o.vorder = n % 3 == 2 ? 2 : 1;
      o.quad = irand(3, 5);
      o.squad = irand(3, 6);
      if (n % 4 == 3) o.fe = o.vfe = "FEDGQ";
      {
        o.potential = "x*y-2*z+0.3*x*x";
        o.wind = "y+z;x*x;-2+y";
        World<3> w(o);
        auto b = random_box(2, 2);
        if (n % 2) for (auto &g : b.group) g = irand(0, 2);
        bool fl = n % 2 == 0 || o.fe == "FEDGQ";
        auto s = box(b);
        if (n % 3 == 1) { s = mapped<3>(s, [](const Point<3> &p) { return Point<3>(p[0] + .1 * p[1] * p[1], p[1] + .1 * p[0] * p[2], p[2]); }); fl = false; }
        w.mesh(s);
        if (n % 4 == 1) { w.dom.tria.begin_active()->set_refine_flag(); w.dom.tria.execute_coarsening_and_refinement(); }
        w.bem.reinit();
        std::string t = "3D " + o.fe + std::to_string(o.order) + " case " + std::to_string(n);
        if (on("P09")) p09(w, t.c_str());
        if (on("P20")) p20(w, t.c_str(), fl);
        if (on("P21")) p21(w, t.c_str());
      }
      {
        o.potential = "x*y+0.3*x*x";
        o.wind = "y;x*x";
        World<2> w(o);
        w.mesh(random_polygon(2, n % 2));
        w.bem.reinit();
        std::string t = "2D " + o.fe + std::to_string(o.order) + " case " + std::to_string(n);
        if (on("P09")) p09(w, t.c_str());
        if (on("P20")) p20(w, t.c_str(), n % 2 == 0);
        if (on("P21")) p21(w, t.c_str());
      }
    }
  return done();
}
