#include "multipole_expansion.h"
#include "solid.h"
using namespace dv;
static bool cnear(std::complex<double> a, cld b, ld scale) { return std::isfinite(a.real()) && std::isfinite(a.imag()) && std::abs(cld(a.real(), a.imag()) - b) <= 1e-8L * (scale + 1e-30L); }
int main(int argc, char **argv)
{
  AssLegFunction alf;
  const int      N = thorough(argc, argv) ? 400 : 40;
  for (int t = 0; t < N; ++t)
    {
      int  p = t % 11;
      P3   c = t % 3 ? rpoint(2) : P3(0, 0, 0);
      double rad = std::pow(10., uni(-1.5, 1));
      MultipoleExpansion E(p, c, &alf);
      Co   ex((p + 1) * (p + 2) / 2, cld(0));
      std::vector<ld> mag(ex.size(), 0);
      if (!E.is_zero) fail("initially-zero", "a new expansion of order %d is not flagged zero", p);
      std::vector<std::pair<P3, double>> mono, dip;
      std::vector<V3> ns;
      int k = irand(1, 4);
      for (int i = 0; i < k; ++i)
        {
          P3 d = rpoint(rad);
          if (i == 1) d = P3(d[0], 0, d[2]);
          if (i == 2) d = P3(-fabs(d[0]), d[1], 0);
          double s = i == 3 ? 0 : uni(-2, 2);
          stat("sources");
          if (t % 2 == 0)
            {
              E.Add(s, c + d);
              P3 dd = (c + d) + (-1.) * c;
              mono.push_back({dd, s});
              for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) { ex[n * (n + 1) / 2 + m] += cld(s) * R(n, m, dd); mag[n * (n + 1) / 2 + m] += std::abs(s) * powl(dd.norm(), n); }
            }
          else
            {
              V3 nn; for (int a = 0; a < 3; ++a) nn[a] = uni(-1, 1);
              nn *= uni(0.5, 3);
              E.AddNormDer(s, c + d, nn);
              P3 dd = (c + d) + (-1.) * c;
              dip.push_back({dd, s}); ns.push_back(nn);
              ld h = 1e-5L * dd.norm();
              for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
                {
                  ld u[3]; for (int a = 0; a < 3; ++a) u[a] = nn[a] / (ld)nn.norm();
                  auto f = [&](ld q) { return R(n, m, dd[0] + q * u[0], dd[1] + q * u[1], dd[2] + q * u[2]); };
                  cld der = (f(-2 * h) - 8.L * f(-h) + 8.L * f(h) - f(2 * h)) / (12 * h);
                  ex[n * (n + 1) / 2 + m] += cld(s) * der; mag[n * (n + 1) / 2 + m] += std::abs(s) * (n + 1) * powl(dd.norm(), n - 1);
                }
            }
          if (s == 0 && i == 0 && !E.is_zero) fail("zero-source", "a zero source makes the expansion non-zero");
          if (s != 0 && E.is_zero) fail("zero-flag", "expansion still flagged zero after a source of strength %g", s);
        }
      for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
        {
          int ix = n * (n + 1) / 2 + m;
          if (!cnear(E.GetCoeff(n, m), ex[ix], mag[ix]))
            fail(t % 2 ? "dipole-moment" : "monopole-moment", "p=%d n=%d m=%d centre (%g,%g,%g) %d sources within %g: code (%.12g,%.12g) specified (%.12Lg,%.12Lg)", p, n, m, c[0], c[1], c[2], k, rad, E.GetCoeff(n, m).real(), E.GetCoeff(n, m).imag(), (ld)ex[ix].real(), (ld)ex[ix].imag());
        }
      // far field
      P3 x = rpoint(1); x *= 6 * rad * std::sqrt(3.) / x.norm();
      double v = E.Evaluate(c + x);
      P3 xx = (c + x) + (-1.) * c;
      ld sv = dv::eval_series(ex, p, xx, true), ssum = 0;
      for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) ssum += 2 * mag[n * (n + 1) / 2 + m] / powl(xx.norm(), n + 1);
      if (!close(v, sv, ssum, 1e-9)) fail("evaluate", "p=%d value %.12g, truncated outer series %.12Lg", p, v, sv);
      ld exact = 0, sm = 0;
      for (auto &q : mono) { exact += q.second / (ld)(xx - q.first).norm(); sm += std::abs(q.second) / (ld)xx.norm(); }
      for (size_t i = 0; i < dip.size(); ++i) { V3 r = xx - dip[i].first; exact += dip[i].second * (r * (ns[i] / ns[i].norm())) / powl(r.norm(), 3); sm += (p + 1) * std::abs(dip[i].second) / (ld)(xx.norm() * rad); }
      if (!close(v, exact, sm, 4 * std::pow(1. / 6, p + (t % 2 ? 0 : 1)) + 1e-10)) fail("potential", "p=%d value %.12g, exact potential %.12Lg", p, v, exact);
      // linear combination
      MultipoleExpansion F(p, c, &alf);
      for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) { std::complex<double> q(uni(-1, 1), uni(-1, 1)); F.SetCoeff(n, m, q); }
      F.is_zero = false;
      MultipoleExpansion G(E);
      double s = t % 5 == 4 ? 0 : uni(-2, 2);
      G.Add(F, s);
      for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
        {
          std::complex<double> w = E.GetCoeff(n, m) + F.GetCoeff(n, m) * s;
          if (!cnear(G.GetCoeff(n, m), cld(w.real(), w.imag()), std::abs(w) + 1)) fail("axpy", "p=%d n=%d m=%d factor %g", p, n, m, s);
        }
      if (G.is_zero != (s == 0 ? E.is_zero : false)) fail("axpy-flag", "factor %g flag %d", s, (int)G.is_zero);
      MultipoleExpansion Z(p, c, &alf);
      if (Z.Evaluate(c + x) != 0) fail("zero-evaluate", "a zero expansion evaluates to %g", Z.Evaluate(c + x));
      bool gz = G.is_zero; std::complex<double> g00 = G.GetCoeff(0, 0);
      G.Add(Z, 1.5);
      if (G.is_zero != gz || G.GetCoeff(0, 0) != g00) fail("axpy-zero", "adding a zero expansion changes the target");
    }
  // finding: a dipole on the polar axis through the centre
  {
    MultipoleExpansion E(3, P3(0, 0, 0), &alf);
    V3 n; n[0] = 0.3; n[1] = 0.2; n[2] = 0.9;
    E.AddNormDer(1., P3(0, 0, 1), n);
    if (!std::isfinite(E.GetCoeff(1, 1).real())) fail("dipole-on-axis", "centre (0,0,0), dipole at (0,0,1): moment 1,1 is not finite");
  }
  {
    MultipoleExpansion E(3, P3(0, 0, 0), &alf);
    E.Add(1., P3(0, 0, 0));
    if (!std::isfinite(E.GetCoeff(0, 0).real())) fail("monopole-at-centre", "centre (0,0,0), source at (0,0,0): moment 0,0 is not finite");
  }
  return done();
}
