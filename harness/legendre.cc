#include "ass_leg_function.h"
#include "dv.h"
#include <vector>
typedef long double        ld;
typedef std::vector<ld>    poly;
static poly der(const poly &c) { poly r; for (size_t i = 1; i < c.size(); ++i) r.push_back(c[i] * (ld)i); if (r.empty()) r.push_back(0); return r; }
static poly legendre(int n)
{
  poly a{1}, b{0, 1};
  if (n == 0) return a;
  for (int k = 1; k < n; ++k)
    {
      poly c(k + 2, 0);
      for (size_t i = 0; i < b.size(); ++i) c[i + 1] += (2 * k + 1) * b[i] / (k + 1);
      for (size_t i = 0; i < a.size(); ++i) c[i] -= k * a[i] / (k + 1);
      a = b; b = c;
    }
  return b;
}
static ld ev(const poly &c, ld x, ld &mag) { ld r = 0, p = 1; for (auto v : c) { r += v * p; mag += fabsl(v * p); p *= x; } return r; }
static void spec(int n, int m, ld x, ld &val, ld &dval, ld &sv, ld &sd)
{
  poly c = legendre(n);
  for (int i = 0; i < m; ++i) c = der(c);
  ld nrm = 1;
  for (int i = n - m + 1; i <= n + m; ++i) nrm /= sqrtl((ld)i);
  if (m % 2) nrm = -nrm;
  ld s = sqrtl(1 - x * x), m0 = 0, m1 = 0;
  ld q = ev(c, x, m0), dq = ev(der(c), x, m1);
  val = nrm * q * powl(s, m);
  sv  = fabsl(nrm) * m0 * powl(s, m);
  dval = nrm * (dq * powl(s, m) - (m ? m * x * q * powl(s, m - 2) : 0));
  sd   = fabsl(nrm) * (m1 * powl(s, m) + (m ? m * fabsl(x) * m0 * powl(s, m - 2) : 0));
}
int main(int argc, char **argv)
{
  AssLegFunction f;
  const int      N = dv::thorough(argc, argv) ? 200 : 24;
  for (int t = 0; t < N; ++t)
    {
      double x = t == 0 ? 0.0 : t == 1 ? 0.5 : t == 2 ? -0.75 : t == 3 ? 0.999 : dv::uni(-0.999, 0.999);
      for (int m = 0; m <= 20; ++m)
        {
          double y[64], y2[64], dy[64];
          for (int i = 0; i < 64; ++i) y[i] = y2[i] = dy[i] = 1e77;
          int p = dv::irand(m, 20);
          f.AssLegFunSph(p, m, x, y);
          f.AssLegFunSphDeriv(p, m, x, y2, dy);
          for (int n = m; n <= 20; ++n)
            {
              ld v, d, sv, sd;
              spec(n, m, x, v, d, sv, sd);
              dv::stat("points");
              double a = f.GetAssLegFunSph(n, m, x), b = f.GetAssLegFunSphDeriv(n, m, x);
              if (!dv::close(a, v, sv + 1e-3, 1e-9)) dv::fail("value", "n=%d m=%d x=%.17g code %.15g specified %.15Lg", n, m, x, a, v);
              if (!dv::close(b, d, sd + 1e-3, 1e-9)) dv::fail("derivative", "n=%d m=%d x=%.17g code %.15g specified %.15Lg", n, m, x, b, d);
              if (n <= p)
                {
                  if (!(y[n - m] == a || dv::close(y[n - m], v, sv + 1e-3))) dv::fail("table", "p=%d n=%d m=%d x=%.17g code %.15g specified %.15Lg", p, n, m, x, y[n - m], v);
                  if (!dv::close(y2[n - m], v, sv + 1e-3) || !dv::close(dy[n - m], d, sd + 1e-3)) dv::fail("deriv-table", "p=%d n=%d m=%d x=%.17g", p, n, m, x);
                }
            }
          for (int i = p - m + 1; i < 64; ++i)
            if (y[i] != 1e77 || y2[i] != 1e77 || dy[i] != 1e77) dv::fail("frame", "p=%d m=%d entry %d written beyond the p-m+1 requested", p, m, i);
        }
    }
  return dv::done();
}
