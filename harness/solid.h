// Independent long-double implementation of the solid harmonics.
#ifndef DV_SOLID_H
#define DV_SOLID_H
#include <deal.II/base/point.h>
#include <complex>
#include <vector>
#include "dv.h"
namespace dv
{
  typedef long double           ld;
  typedef std::complex<ld>      cld;
  typedef dealii::Point<3>      P3;
  typedef dealii::Tensor<1, 3>  V3;
  inline ld fact(int n) { ld r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
  // associated Legendre by upward recurrence, normalised, Condon-Shortley sign
  inline ld leg(int n, int m, ld x)
  {
    if (m > n) return 0;
    ld s = sqrtl(std::max((ld)0, 1 - x * x)), pmm = 1;
    for (int i = 1; i <= m; ++i) pmm *= -(2 * i - 1) * s;
    ld p0 = pmm, p1 = x * (2 * m + 1) * pmm, r = n == m ? p0 : p1;
    for (int k = m + 2; k <= n; ++k) { r = ((2 * k - 1) * x * p1 - (k + m - 1) * p0) / (k - m); p0 = p1; p1 = r; }
    return r * sqrtl(fact(n - m) / fact(n + m));
  }
  struct Sph { ld r, c, b; Sph(ld x, ld y, ld z) { r = sqrtl(x * x + y * y + z * z); c = z / r; b = atan2l(y, x); } };
  inline cld R(int n, int m, ld x, ld y, ld z) { Sph s(x, y, z); return std::polar(powl(s.r, n) * leg(n, abs(m), s.c), -m * s.b); }
  inline cld O(int n, int m, ld x, ld y, ld z) { Sph s(x, y, z); return std::polar(leg(n, abs(m), s.c) / powl(s.r, n + 1), -m * s.b); }
  inline cld R(int n, int m, const P3 &d) { return R(n, m, d[0], d[1], d[2]); }
  inline cld O(int n, int m, const P3 &d) { return O(n, m, d[0], d[1], d[2]); }
  inline ld  A(int n, int m) { return (ld)(n % 2 ? -1 : 1) / sqrtl(fact(n - abs(m)) * fact(n + abs(m))); }
  inline int ipow(int k) { k = ((k % 4) + 4) % 4; return k == 0 ? 1 : k == 2 ? -1 : 0; }
  typedef std::vector<cld> Co;
  inline cld at(const Co &c, int n, int m) { cld v = c[n * (n + 1) / 2 + abs(m)]; return m < 0 ? std::conj(v) : v; }
  // coefficients of the translation theorems; g = other centre - this centre
  inline cld m2m(const Co &c, const P3 &g, int n, int m)
  {
    cld z = 0;
    for (int nn = 0; nn <= n; ++nn)
      for (int mm = -nn; mm <= nn; ++mm)
        if (abs(m - mm) <= n - nn)
          z += at(c, n - nn, m - mm) * R(nn, mm, g) * (A(nn, mm) * A(n - nn, m - mm) / A(n, m) * ipow(abs(m) - abs(mm) - abs(m - mm)));
    return z;
  }
  inline cld m2l(const Co &c, int p, const P3 &g, int n, int m)
  {
    cld z = 0;
    for (int nn = 0; nn <= p; ++nn)
      for (int mm = -nn; mm <= nn; ++mm)
        z += at(c, nn, mm) * O(n + nn, m - mm, g) * (A(nn, mm) * A(n, m) / A(n + nn, m - mm) * ipow(abs(m - mm) - abs(m) - abs(mm)) * (nn % 2 ? -1 : 1));
    return z;
  }
  inline cld l2l(const Co &c, int p, const P3 &g, int n, int m)
  {
    cld z = 0;
    for (int nn = n; nn <= p; ++nn)
      for (int mm = -nn; mm <= nn; ++mm)
        if (abs(mm - m) <= nn - n)
          z += at(c, nn, mm) * R(nn - n, m - mm, g) * (A(nn - n, mm - m) * A(n, m) / A(nn, mm) * ipow(abs(mm) - abs(mm - m) - abs(m)) * ((nn + n) % 2 ? -1 : 1));
    return z;
  }
  inline ld eval_series(const Co &c, int p, const P3 &d, bool outer)
  {
    ld v = 0;
    for (int n = 0; n <= p; ++n)
      for (int m = 0; m <= n; ++m)
        v += (ld)(m ? 2 : 1) * (c[n * (n + 1) / 2 + m] * std::conj(outer ? O(n, m, d) : R(n, m, d))).real();
    return v;
  }
  inline P3 rpoint(double s) { return P3(uni(-s, s), uni(-s, s), uni(-s, s)); }
} // namespace dv
#endif
