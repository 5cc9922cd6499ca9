// P10 on the real code: operator, right-hand side and free term against the matrices.
#include "world.h"
using namespace dv;
template <int dim> static void check(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  const unsigned n = b.dh.n_dofs();
  bool fma = b.solution_method == "FMA";
  auto prod = [&](const TrilinosWrappers::MPI::Vector &p, const TrilinosWrappers::MPI::Vector &d, TrilinosWrappers::MPI::Vector &N, TrilinosWrappers::MPI::Vector &D) {
    N = w.vec(); D = w.vec();
    if (fma) { b.fma.generate_multipole_expansions(p, d); b.fma.multipole_matr_vect_products(p, d, N, D); }
    else { b.neumann_matrix.vmult(N, p); b.dirichlet_matrix.vmult(D, d); }
  };
  for (int again = 0; again < 2; ++again)
    {
      b.compute_alpha();
      auto one = w.vec(), zero = w.vec(), N = w.vec(), D = w.vec();
      for (auto i : b.this_cpu_set) one(i) = 1;
      prod(one, zero, N, D);
      for (unsigned i = 0; i < n; ++i)
        if (!dv::close(b.alpha(i), -N(i), std::fabs(N(i)) + 1, 1e-10)) fail("alpha", "%s: alpha(%u)=%.12g, -N 1 = %.12g (call %d)", what, i, (double)b.alpha(i), -(double)N(i), again + 1);
    }
  for (unsigned i = 0; i < n; ++i) b.alpha(i) = b.alpha(i) + uni(0, .3); // any free term
  bool any = b.have_dirichlet_bc;
  auto nn = w.dirichlet();
  for (int rep = 0; rep < 3; ++rep)
    {
      auto u = w.random(), un = w.vec(), ud = w.vec(), N = w.vec(), D = w.vec(), out = w.random();
      for (unsigned i = 0; i < n; ++i) { un(i) = nn[i] ? 0. : (double)u(i); ud(i) = nn[i] ? (double)u(i) : 0.; }
      auto u0 = u;
      prod(un, ud, N, D);
      if (any)
        {
          b.vmult(out, u);
          for (unsigned i = 0; i < n; ++i)
            {
              double e = b.alpha(i) * un(i) + N(i) - D(i);
              if (!dv::close(out(i), e, std::fabs(e) + 1, 1e-10)) fail("vmult", "%s: row %u gives %.12g, (alpha+N)u_N - D u_D = %.12g", what, i, (double)out(i), e);
              if (u(i) != u0(i)) fail("vmult-arg", "%s: the argument changed in row %u", what, i);
            }
        }
      prod(ud, un, N, D);
      out = w.random();
      b.compute_rhs(out, u);
      for (unsigned i = 0; i < n; ++i)
        {
          double e = D(i) - b.alpha(i) * ud(i) - N(i);
          if (!dv::close(out(i), e, std::fabs(e) + 1, 1e-10)) fail("rhs", "%s: row %u gives %.12g, D g_N - (alpha+N) g_D = %.12g", what, i, (double)out(i), e);
          if (u(i) != u0(i)) fail("rhs-arg", "%s: the argument changed in row %u", what, i);
        }
      dv::stat("products", 2);
    }
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1); started();
  int N = thorough(argc, argv) ? 12 : 3;
  for (int n = 0; n < N; ++n)
    {
      Opts o;
      o.method = n % 2 ? "FMA" : "Direct";
      o.leaf = irand(2, 8);
      World<3> w(o);
      auto b = random_box(2, 2);
      b.mat[n % 6] = 1; b.mat[(n + 1) % 6] = 0;
      w.mesh(box(b));
      w.bem.reinit();
      if (n % 2) { w.bem.fma.generate_octree_blocking(); w.bem.fma.direct_integrals(); w.bem.fma.multipole_integrals(); }
      else w.bem.assemble_system();
      check<3>(w, n % 2 ? "box FMA" : "box Direct");
      if (n % 2 == 0)
        {
          World<2> v(o);
          auto s = random_polygon(2, n % 4 == 0);
          s[0].mat = 1;
          v.mesh(s);
          v.bem.reinit();
          v.bem.assemble_system();
          check<2>(v, "polygon Direct");
        }
    }
  return done();
}
