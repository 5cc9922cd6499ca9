#include "local_expansion.h"
#include "multipole_expansion.h"
#include "dv.h"
using namespace dv;
typedef dealii::Point<3> P3;
static AssLegFunction alf;
template <class E> E make(int p, const P3 &c, std::vector<std::complex<double>> &v)
{
  E e(p, c, &alf);
  v.clear();
  for (int n = 0; n <= p; ++n) for (int m = 0; m <= n; ++m) { std::complex<double> q(uni(-1, 1), m ? uni(-1, 1) : 0); e.SetCoeff(n, m, q); v.push_back(q); }
  e.is_zero = uni(0, 1) < 0.3;
  return e;
}
template <class E> void same(const E &e, int p, const P3 &c, const std::vector<std::complex<double>> &v, bool z, const char *w)
{
  for (int n = 0, k = 0; n <= p; ++n) for (int m = 0; m <= n; ++m, ++k) if (e.GetCoeff(n, m) != v[k]) fail("coefficient", "%s: p=%d coefficient %d,%d differs", w, p, n, m);
  if ((e.GetCenter() - c).norm() != 0) fail("centre", "%s: p=%d centre differs", w, p);
  if (e.is_zero != z) fail("zero-flag", "%s: p=%d zero flag differs", w, p);
}
template <class E> void run(const char *nm)
{
  for (int p = 0; p <= 10; ++p) for (int q = 0; q <= 10; q += 2)
    {
      std::vector<std::complex<double>> va, vb;
      P3 ca(uni(-1, 1), uni(-1, 1), uni(-1, 1)), cb(1, 2, 3);
      std::string w = nm;
      E b = make<E>(q, cb, vb);
      {
        E a = make<E>(p, ca, va);
        E c(a);
        same(c, p, ca, va, a.is_zero, (w + " copy").c_str());
        std::complex<double> s(7, 0);
        c.SetCoeff(p, p, s); c.SetCenter(cb);
        same(a, p, ca, va, a.is_zero, (w + " original after writing to the copy").c_str());
        bool z = a.is_zero;
        b = a;
        same(b, p, ca, va, z, (w + " assignment").c_str());
        a.SetCoeff(p, p, s);
        same(b, p, ca, va, z, (w + " target after writing to the source").c_str());
        E &r = b; b = r;
        same(b, p, ca, va, z, (w + " self-assignment").c_str());
      }
      same(b, p, ca, va, b.is_zero, (w + " target after the source is gone").c_str());
      E d, e(d), f(b);
      e = b; same(e, p, ca, va, b.is_zero, (w + " assigned over a default object").c_str());
      e = d; if (!e.is_zero) fail("default", "%s: assignment from a default object", nm);
      stat("pairs");
    }
}
int main(int, char **)
{
  run<MultipoleExpansion>("multipole");
  run<LocalExpansion>("local");
  for (unsigned p = 0; p <= 10; ++p)
    {
      LocalExpansionCoeff a(p), d;
      std::vector<double> v;
      for (unsigned n = 0; n <= p; ++n) for (unsigned m = 0; m <= n; ++m) for (int nn = 0; nn <= (int)p; ++nn) for (int mm = -nn; mm <= nn; ++mm) { v.push_back(uni(-1, 1)); a.set(n, m, nn, mm, v.back()); }
      LocalExpansionCoeff b(a), c(3), e(d);
      c = a; c = *&c; e = a;
      size_t k = 0;
      for (unsigned n = 0; n <= p; ++n) for (unsigned m = 0; m <= n; ++m) for (int nn = 0; nn <= (int)p; ++nn) for (int mm = -nn; mm <= nn; ++mm, ++k)
        if (a.get(n, m, nn, mm) != v[k] || b.get(n, m, nn, mm) != v[k] || c.get(n, m, nn, mm) != v[k] || e.get(n, m, nn, mm) != v[k]) { fail("table", "p=%u entry %u,%u,%d,%d", p, n, m, nn, mm); break; }
      b.set(p, p, p, p, 5.);
      if (a.get(p, p, p, p) == 5.) fail("table-alias", "p=%u copy shares storage", p);
      stat("tables");
    }
  return done();
}
