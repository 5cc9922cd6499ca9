#include <deal.II/base/point.h>
#include <deal.II/base/tensor.h>
using namespace dealii;
#include "dv.h"
#include "laplace_kernel.h"
template <int dim> static long double G(const Tensor<1, dim> &x)
{
  long double s = 0;
  for (int i = 0; i < dim; ++i) s += (long double)x[i] * x[i];
  s = sqrtl(s);
  return dim == 2 ? -logl(s) / (2 * M_PIl) : 1 / (4 * M_PIl * s);
}
template <int dim> static void run(int N)
{
  for (int n = 0; n < N; ++n)
    {
      Tensor<1, dim> R, D, D2;
      Tensor<2, dim> H, H0;
      double         d = 7, d2 = 7;
      double         sc = std::pow(10., dv::uni(-2, 2));
      for (int i = 0; i < dim; ++i) R[i] = sc * dv::uni(-1, 1);
      if (n % 5 == 0) R[n % dim] = 0;
      if (R.norm() < 1e-3 * sc) continue;
      for (int i = 0; i < dim; ++i) { D[i] = D2[i] = 1e9; for (int j = 0; j < dim; ++j) H[i][j] = 1e9; }
      dv::stat("points");
      double r = R.norm(), g = G<dim>(R), w = dim == 2 ? 2 * M_PI * r * r : 4 * M_PI * r * r * r, o = dim == 3 ? -1 : 1;
      LaplaceKernel::kernels(R, D, d);
      LaplaceKernel::kernels(R, H, D2, d2);
      double s1 = LaplaceKernel::single_layer<dim>(Point<dim>(R));
      Point<dim> D3 = LaplaceKernel::double_layer<dim>(Point<dim>(R));
      H0 = LaplaceKernel::hypersingular<dim>(Point<dim>(R));
      double gs = std::fabs(g) + 1e-3;
      if (!dv::close(d, g, gs)) dv::fail("green", "dim=%d R0=%g R1=%g: %.15g, Green function %.15g", dim, R[0], R[1], d, g);
      if (!dv::close(d2, g, gs)) dv::fail("green4", "dim=%d R0=%g R1=%g: %.15g, Green function %.15g", dim, R[0], R[1], d2, g);
      if (!dv::close(s1, g, gs)) dv::fail("single_layer", "dim=%d R0=%g R1=%g: %.15g, Green function %.15g", dim, R[0], R[1], s1, g);
      for (int i = 0; i < dim; ++i)
        {
          double e = -R[i] / w, sc1 = r / w;
          if (!dv::close(D[i], e, sc1)) dv::fail("gradient", "dim=%d R0=%g R1=%g component %d: %.15g, gradient %.15g", dim, R[0], R[1], i, D[i], e);
          if (!dv::close(o * D2[i], e, sc1)) dv::fail("gradient4", "dim=%d R0=%g R1=%g component %d: %.15g, gradient %.15g", dim, R[0], R[1], i, D2[i], o * e);
          if (!dv::close(D3[i], e, sc1)) dv::fail("double_layer", "dim=%d R0=%g R1=%g component %d: %.15g, gradient %.15g", dim, R[0], R[1], i, D3[i], e);
          for (int j = 0; j < dim; ++j)
            {
              double h = (dim * R[i] * R[j] - (i == j ? r * r : 0)) / (w * r * r), hs = 1 / w;
              if (!dv::close(o * H[i][j], h, hs)) dv::fail("hessian4", "dim=%d R0=%g R1=%g entry %d%d: %.15g, specified %.15g", dim, R[0], R[1], i, j, H[i][j], o * h);
              if (!dv::close(o * H0[i][j], h, hs)) dv::fail("hypersingular", "dim=%d R0=%g R1=%g entry %d%d: %.15g, specified %.15g", dim, R[0], R[1], i, j, H0[i][j], o * h);
            }
        }
    }
}
int main(int argc, char **argv)
{
  int N = dv::thorough(argc, argv) ? 20000 : 500;
  run<2>(N);
  run<3>(N);
  return dv::done();
}
