// P16 on the real code: singular panel integrals against an independent evaluation of the polar expansion.
#include <deal.II/base/quadrature.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/grid_reordering.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/manifold.h>
#include <deal.II/grid/tria.h>
#include <memory>
#define private public
#include "singular_kernel_integral.h"
#undef private
#include "dv.h"
using namespace dealii;
using namespace dv;
typedef Tensor<1, 3> V3;

// a smooth surface over a skewed plane
struct Surface : ChartManifold<2, 3, 2>
{
  double c[8], size;
  V3     e1, e2, e3;
  Surface(double s, double bend) : size(s)
  {
    for (auto &x : c) x = bend * uni(-1, 1);
    for (int i = 0; i < 3; ++i) { e1[i] = uni(-1, 1); e2[i] = uni(-1, 1); }
    e1 /= e1.norm();
    e2 -= (e1 * e2) * e1;
    e2 /= e2.norm();
    e3 = cross_product_3d(e1, e2);
    e2 += uni(-.4, .4) * e1;
  }
  double h(double u, double v) const { return c[0] * u * u + c[1] * u * v + c[2] * v * v + c[3] * u * u * u + c[4] * std::sin(2 * v + u); }
  Point<3> push_forward(const Point<2> &p) const override
  {
    V3 x = size * (p[0] * e1 + p[1] * e2 + h(p[0], p[1]) * e3);
    return Point<3>(x);
  }
  Point<2> pull_back(const Point<3> &x) const override
  {
    double v = (x - Point<3>()) * cross_product_3d(e3, e1) / size;
    V3     w = (x - Point<3>()) / size - v * e2;
    return Point<2>((w - (w * e3) * e3) * e1, v / 1.);
  }
  std::unique_ptr<Manifold<2, 3>> clone() const override { return std::make_unique<Surface>(*this); }
};

struct Sample { std::vector<V3> R, nJ; std::vector<double> J; std::vector<std::vector<double>> N; };

static Sample at(const DoFHandler<2, 3>::active_cell_iterator &cell, const FiniteElement<2, 3> &fe, const Mapping<2, 3> &map, const Point<2> &eta, const std::vector<Point<2>> &p)
{
  std::vector<Point<2>> q(p);
  q.push_back(eta);
  FEValues<2, 3> v(map, fe, Quadrature<2>(q, std::vector<double>(q.size(), 1.)), update_values | update_quadrature_points | update_jacobians);
  v.reinit(cell);
  Sample s;
  for (unsigned int i = 0; i < p.size(); ++i)
    {
      s.R.push_back(v.quadrature_point(i) - v.quadrature_point(p.size()));
      V3 a, b;
      for (int d = 0; d < 3; ++d) { a[d] = v.jacobian(i)[d][0]; b[d] = v.jacobian(i)[d][1]; }
      s.nJ.push_back(cross_product_3d(a, b));
      s.J.push_back(s.nJ.back().norm());
      s.N.emplace_back();
      for (unsigned int j = 0; j < fe.dofs_per_cell; ++j) s.N.back().push_back(v.shape_value(j, i));
    }
  return s;
}

// rho^2 times (the kernel times rho N J): smooth through rho = 0
static V3 scaled(bool hyper, double rho, const V3 &R, const V3 &nJ, double J, double N)
{
  double r = R.norm() / std::abs(rho);
  V3     e = R / rho;
  if (hyper) return -N * (3. * (e * nJ) * e / std::pow(r, 5) - nJ / std::pow(r, 3));
  return N * rho * e * J / std::pow(r, 3);
}

int main(int argc, char **argv)
{
  int       N = thorough(argc, argv) ? 120 : 24;
  for (int n = 0; n < N; ++n)
    {
      double                        size = std::pow(10., irand(-2, 2));
      Surface                       surf(size, n % 4 == 0 ? 0. : .35);
      int                           degree = irand(1, 3);
      Triangulation<2, 3>           tria;
      std::vector<Point<3>>         vert;
      for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) vert.push_back(surf.push_forward(Point<2>(i - .5 + uni(-.15, .15), j - .5 + uni(-.15, .15))));
      std::vector<CellData<2>> cells(1);
      for (int i = 0; i < 4; ++i) cells[0].vertices[i] = i;
      tria.create_triangulation(vert, cells, SubCellData());
      tria.set_all_manifold_ids(0);
      tria.set_manifold(0, surf);
      std::unique_ptr<FiniteElement<2, 3>> fe;
      int fd = irand(0, 2);
      if (fd == 0 || irand(0, 2) == 0) fe.reset(new FE_DGQ<2, 3>(fd)); else fe.reset(new FE_Q<2, 3>(fd));
      DoFHandler<2, 3> dh(tria);
      dh.distribute_dofs(*fe);
      MappingQ<2, 3> map(degree);
      DoFHandler<2, 3>::active_cell_iterator cell = dh.begin_active();
      Point<2> eta(uni(.08, .92), uni(.08, .92));
      int      where = irand(0, 3);
      if (where == 1) eta[irand(0, 1)] = irand(0, 1);
      if (where == 2) { eta[0] = irand(0, 1); eta[1] = irand(0, 1); }
      SingularKernelIntegral<3> code(cell, *fe, map, eta);
      const unsigned int        nd = fe->dofs_per_cell;
      auto V = code.evaluate_VkNj_integrals(), W = code.evaluate_WkNj_integrals();
      V3   b = code.evaluate_free_term_b();
      if (V.size() != nd || W.size() != nd) fail("size", "%d and %d integrals for %d shape functions", (int)V.size(), (int)W.size(), (int)nd);
      QGauss<1> qt(code.theta_quadrature_order), qr(code.rho_quadrature_order);
      std::vector<V3> I[2];
      double          mag[2] = {0, 0}, bmag = 0;
      V3              bref;
      I[0].resize(nd);
      I[1].resize(nd);
      const Point<2> corner[4] = {Point<2>(0, 0), Point<2>(1, 0), Point<2>(1, 1), Point<2>(0, 1)};
      const double   h = .01;
      for (int f = 0; f < 4; ++f)
        {
          Tensor<1, 2> p = corner[f] - eta, q = corner[(f + 1) % 4] - eta;
          int          ax = f % 2 == 0 ? 1 : 0; // this coordinate is constant on the side
          if (p[ax] == 0) continue;
          double t0 = std::atan2(p[1], p[0]), dt = std::atan2(p[0] * q[1] - p[1] * q[0], p * q);
          for (unsigned int k = 0; k < qt.size(); ++k)
            {
              double t = t0 + dt * qt.point(k)[0], w = dt * qt.weight(k);
              Tensor<1, 2> dir;
              dir[0] = std::cos(t);
              dir[1] = std::sin(t);
              double                hat = p[ax] / dir[ax];
              std::vector<double>   rho = {-3 * h, -2 * h, -h, h, 2 * h, 3 * h};
              for (unsigned int m = 0; m < qr.size(); ++m) rho.push_back(hat * qr.point(m)[0]);
              std::vector<Point<2>> y;
              for (double r : rho) y.push_back(eta + r * dir);
              Sample s = at(cell, *fe, map, eta, y);
              auto   c0 = [&](auto g) { return (15. * (g(2) + g(3)) - 6. * (g(1) + g(4)) + (g(0) + g(5))) / 20.; };
              auto   c1 = [&](auto g) { return (45. * (g(3) - g(2)) - 9. * (g(4) - g(1)) + (g(5) - g(0))) / (60. * h); };
              auto   ray = [&](int i) { return s.R[i] / rho[i]; };
              V3     A = c0(ray), B = c1(ray);
              double beta = 1 / A.norm(), gamma = -(A * B) / std::pow(A.norm(), 4);
              for (int hyper = 0; hyper < 2; ++hyper)
                for (unsigned int j = 0; j < nd; ++j)
                  {
                    auto G = [&](int i) { return scaled(hyper, rho[i], s.R[i], s.nJ[i], s.J[i], s.N[i][j]); };
                    V3   F2 = c0(G), F1 = c1(G);
                    V3   e = F1 * std::log(hat / beta) - F2 * (gamma / (beta * beta) + 1 / hat);
                    mag[hyper] = std::max(mag[hyper], (F1.norm() * std::abs(std::log(hat / beta)) + F2.norm() * (std::abs(gamma) / beta / beta + 1 / hat)) * w);
                    for (unsigned int m = 0; m < qr.size(); ++m)
                      {
                        double r = rho[6 + m];
                        e += hat * qr.weight(m) * (G(6 + m) - F2 - r * F1) / (r * r);
                        mag[hyper] = std::max(mag[hyper], hat * qr.weight(m) * (G(6 + m).norm() + F2.norm() + r * F1.norm()) / (r * r) * w);
                      }
                    I[hyper][j] += e * w / (4 * numbers::PI);
                  }
              V3 g = c0([&](int i) { return s.nJ[i]; });
              V3 add = 2. * (g * B) * A / std::pow(A.norm(), 5) * w;
              bref += add;
              bmag = std::max(bmag, std::max(add.norm(), g.norm() * B.norm() / std::pow(A.norm(), 4) * w * 1e-3));
            }
        }
      const char *pos[] = {"inside", "on a side", "at a corner", "inside"};
      for (int hyper = 0; hyper < 2; ++hyper)
        for (unsigned int j = 0; j < nd; ++j)
          {
            V3 got = hyper ? V[j] : W[j];
            if (!((got - I[hyper][j]).norm() <= 1e-6 * mag[hyper] + 1e-12))
              fail(hyper ? "hypersingular" : "strongly-singular", "panel of degree %d and size %g, %s, source (%.9g,%.9g) %s, shape function %d: (%.10g,%.10g,%.10g), the expansion gives (%.10g,%.10g,%.10g)", degree, size,
                   fe->get_name().c_str(), eta[0], eta[1], pos[where], (int)j, got[0], got[1], got[2], I[hyper][j][0], I[hyper][j][1], I[hyper][j][2]);
            stat("integrals");
          }
      if (!((b - bref).norm() <= 1e-6 * bmag))
        fail("free-term", "panel of degree %d and size %g, source (%.9g,%.9g) %s: (%.10g,%.10g,%.10g), the curvature integral is (%.10g,%.10g,%.10g)", degree, size, eta[0], eta[1], pos[where], b[0], b[1], b[2], bref[0], bref[1], bref[2]);
      stat("panels");
    }
  return done();
}
