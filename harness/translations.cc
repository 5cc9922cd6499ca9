#include "local_expansion.h"
#include "multipole_expansion.h"
#include "solid.h"
using namespace dv;
static bool near(std::complex<double> a, cld b, ld scale) { return std::isfinite(a.real()) && std::isfinite(a.imag()) && std::abs(cld(a.real(), a.imag()) - b) <= 1e-7L * (scale + 1e-30L); }
template <class E> static void rnd(E &e, int p, Co &c)
{
  c.assign((p + 1) * (p + 2) / 2, cld(0));
  for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
    {
      std::complex<double> q(uni(-1, 1), m ? uni(-1, 1) : 0);
      e.SetCoeff(n, m, q);
      c[n * (n + 1) / 2 + m] = cld(q.real(), q.imag());
    }
  e.is_zero = false;
}
template <class E> static ld mx(const E &e, int p) { ld s = 0; for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) s = std::max(s, (ld)std::abs(e.GetCoeff(n, m))); return s; }
int main(int argc, char **argv)
{
  AssLegFunction alf;
  const int      N = thorough(argc, argv) ? 660 : 231;
  for (int t = 0; t < N; ++t)
    {
      int p = t % 11;
      P3  a = rpoint(2), b = a + rpoint(1);
      if (t % 3 == 1) b = a + rpoint(std::pow(10., uni(-5, 0.5)));
      if (t % 7 == 3) b = P3(a[0], a[1], a[2] - 0.8);
      if (t % 7 == 5) b = P3(a[0] - 0.7, a[1], a[2]);
      if (t % 7 == 6) b = a;
      P3 g = b + (-1.) * a;
      stat("pairs");
      Co src, dst;
      { // multipole to multipole
        MultipoleExpansion T(p, a, &alf), S(p, b, &alf);
        rnd(S, p, src); rnd(T, p, dst);
        if (t % 2) T.is_zero = true;
        T.Add(S);
        ld s = mx(T, p);
        for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
          {
            int ix = n * (n + 1) / 2 + m;
            cld w = dst[ix] + (t % 7 == 6 ? src[ix] : m2m(src, g, n, m));
            if (!near(T.GetCoeff(n, m), w, s)) fail("m2m", "p=%d n=%d m=%d shift (%g,%g,%g): code (%.12g,%.12g) specified (%.12Lg,%.12Lg)", p, n, m, g[0], g[1], g[2], T.GetCoeff(n, m).real(), T.GetCoeff(n, m).imag(), w.real(), w.imag());
            if (std::abs(cld(S.GetCoeff(n, m).real(), S.GetCoeff(n, m).imag()) - src[ix]) > 0) fail("m2m-frame", "translating changes its source");
          }
        if (T.is_zero) fail("m2m-flag", "target still flagged zero");
        MultipoleExpansion Z(p, b, &alf), T2(p, a, &alf), T3(p, a, &alf);
        T2.Add(Z);
        if (!T2.is_zero) fail("m2m-zero", "zero plus zero is flagged non-zero");
        rnd(T3, p, dst); T3.Add(Z);
        if (T3.is_zero || !near(T3.GetCoeff(p, p), dst.back(), 1)) fail("m2m-zero", "adding a zero expansion changes the target");
        // moments formed directly about the new centre
        if (t % 7 != 6)
          {
            MultipoleExpansion C(p, b, &alf), D(p, a, &alf), M(p, a, &alf);
            for (int i = 0; i < 3; ++i) { P3 q = b + rpoint(0.5); double st = uni(-1, 1); C.Add(st, q); D.Add(st, q); }
            M.Add(C);
            ld sc = mx(D, p);
            for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
              if (!near(M.GetCoeff(n, m), cld(D.GetCoeff(n, m).real(), D.GetCoeff(n, m).imag()), sc)) fail("m2m-direct", "p=%d n=%d m=%d: translated moment differs from the moment formed about the new centre", p, n, m);
          }
      }
      { // local to local
        LocalExpansion T(p, a, &alf), S(p, b, &alf), V(p, a, &alf);
        rnd(S, p, src); rnd(T, p, dst);
        if (t % 2) T.is_zero = true;
        T.Add(S);
        V.Add(S);
        ld s = mx(T, p);
        for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
          {
            int ix = n * (n + 1) / 2 + m;
            cld w = dst[ix] + (t % 7 == 6 ? src[ix] : l2l(src, p, g, n, m));
            if (!near(T.GetCoeff(n, m), w, s)) fail("l2l", "p=%d n=%d m=%d shift (%g,%g,%g): code (%.12g,%.12g) specified (%.12Lg,%.12Lg)", p, n, m, g[0], g[1], g[2], T.GetCoeff(n, m).real(), T.GetCoeff(n, m).imag(), w.real(), w.imag());
          }
        if (T.is_zero || V.is_zero) fail("l2l-flag", "target still flagged zero");
        P3 x = a + rpoint(0.7);
        double v1 = S.Evaluate(x), v2 = V.Evaluate(x);
        P3 xd = x + (-1.) * b;
        ld ev = eval_series(src, p, xd, false), es = 0;
        for (int n = 0; n <= p; ++n) es += (2 * n + 1) * 2 * powl(xd.norm() + g.norm(), n);
        if (!close(v1, ev, es, 1e-9)) fail("local-evaluate", "p=%d value %.12g, truncated inner series %.12Lg", p, v1, ev);
        if (!close(v2, v1, es, 1e-8)) fail("l2l-value", "p=%d the re-centred expansion evaluates to %.12g instead of %.12g", p, v2, v1);
        LocalExpansion Z(p, b, &alf), T2(p, a, &alf);
        if (Z.Evaluate(x) != 0) fail("zero-evaluate", "a zero local expansion evaluates to %g", Z.Evaluate(x));
        T2.Add(Z);
        if (!T2.is_zero) fail("l2l-zero", "zero plus zero is flagged non-zero");
      }
      if (t % 7 != 6)
        { // multipole to local
          bool std3 = t % 2;
          P3 bb = a + g * ((std3 ? 3. : std::pow(10., uni(-0.3, 1.3))) / g.norm());
          P3 gg = bb + (-1.) * a;
          LocalExpansion     T(p, a, &alf), V(p, a, &alf);
          MultipoleExpansion S(p, bb, &alf);
          rnd(S, p, src); rnd(T, p, dst);
          if (t % 2) T.is_zero = true;
          T.Add(S);
          ld s = mx(T, p);
          for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m)
            {
              cld w = dst[n * (n + 1) / 2 + m] + m2l(src, p, gg, n, m);
              if (!near(T.GetCoeff(n, m), w, s)) fail("m2l", "p=%d n=%d m=%d shift (%g,%g,%g): code (%.12g,%.12g) specified (%.12Lg,%.12Lg)", p, n, m, gg[0], gg[1], gg[2], T.GetCoeff(n, m).real(), T.GetCoeff(n, m).imag(), w.real(), w.imag());
            }
          if (T.is_zero) fail("m2l-flag", "target still flagged zero");
          MultipoleExpansion Z(p, bb, &alf);
          LocalExpansion     T2(p, a, &alf);
          T2.Add(Z);
          if (!T2.is_zero) fail("m2l-zero", "a zero multipole makes the local expansion non-zero");
          // value against the exact potential
          if (!std3) continue;
          MultipoleExpansion C(p, bb, &alf);
          P3 q = bb + rpoint(0.2);
          C.Add(1., q);
          V.Add(C);
          P3 x = a + rpoint(0.2);
          if (!close(V.Evaluate(x), 1. / (x - q).norm(), 1, 8 * std::pow(0.25, p + 1) + 1e-9)) fail("m2l-value", "p=%d local value %.12g, exact potential %.12g", p, V.Evaluate(x), 1. / (x - q).norm());
        }
    }
  FullMatrix<double> m1 = MultipoleExpansion::A_n_m_Matrix(20), m2 = LocalExpansion::A_n_m_Matrix(20);
  for (int n = 0; n <= 20; ++n) for (int m = 0; m <= n; ++m)
    {
      if (!close(m1(n, m), A(n, m), A(n, m))) fail("A-table", "n=%d m=%d %.15g specified %.15Lg", n, m, m1(n, m), A(n, m));
      if (!close(m2(n, m), A(n, m), A(n, m))) fail("A-table", "n=%d m=%d %.15g specified %.15Lg", n, m, m2(n, m), A(n, m));
    }
  return done();
}
