// P22 on the real code: cached projections equal those of the uncached manifold.
#include <deal.II/base/point.h>
#include <deal.II/opencascade/manifold_lib.h>
#include <deal.II/opencascade/utilities.h>
#include <BRepTools.hxx>
#include <BRepBuilderAPI_MakeFace.hxx>
#include <Geom_BezierSurface.hxx>
#include <Geom_CylindricalSurface.hxx>
#include <TColgp_Array2OfPnt.hxx>
#include <gp_Ax3.hxx>
#include <cached_nurbs_patch_manifold.h>
#include "dv.h"
using namespace dealii;
using namespace dv;
static TopoDS_Face patch(double s)
{
  if (irand(0, 1))
    {
      Handle(Geom_CylindricalSurface) c = new Geom_CylindricalSurface(gp_Ax3(), s);
      return BRepBuilderAPI_MakeFace(c, .2, 1.4, .1 * s, 1.1 * s, 1e-9).Face();
    }
  TColgp_Array2OfPnt p(1, 4, 1, 4);
  for (int i = 1; i <= 4; ++i) for (int j = 1; j <= 4; ++j) p.SetValue(i, j, gp_Pnt(s * (i + uni(-.2, .2)) / 4, s * (j + uni(-.2, .2)) / 4, s * uni(-.15, .15)));
  Handle(Geom_BezierSurface) b = new Geom_BezierSurface(p);
  return BRepBuilderAPI_MakeFace(b, 0, 1, 0, 1, 1e-9).Face();
}
int main(int argc, char **argv)
{
  int N = thorough(argc, argv) ? 200 : 30;
  for (int n = 0; n < N; ++n)
    {
      double s = std::pow(10., irand(-3, 3));
      auto f = patch(s);
      OpenCASCADE::NURBSPatchManifold<2, 3> plain(f, 1e-7 * s);
      CachedNURBSPatchManifold<2, 3> cached(f, 1e-7 * s);
      double u0, u1, v0, v1;
      BRepTools::UVBounds(f, u0, u1, v0, v1);
      std::vector<Point<3>> h;
      auto on = [&]() { return plain.push_forward(Point<2>(uni(u0, u1), uni(v0, v1))); };
      for (int k = 0; k < 60; ++k)
        {
          Point<3> p;
          int      w = h.empty() ? 0 : irand(0, 4);
          if (w <= 1) p = on();                       // new point
          else if (w == 2) p = h[irand(0, h.size() - 1)]; // served before
          else
            { // close to an earlier one, or differing from it in one coordinate only
              p = h[irand(0, h.size() - 1)];
              if (w == 3) { Point<2> c = plain.pull_back(p); double e = std::pow(10., -irand(2, 7)); c[0] += e * uni(-1, 1); c[1] += e * uni(-1, 1); p = plain.push_forward(c); }
              else p[irand(0, 2)] += s * uni(-.01, .01);
            }
          h.push_back(p);
          Point<2> e = plain.pull_back(p), g = cached.pull_back(p);
          if (g.distance(e) > 1e-9 * (1 + e.norm()))
            fail("projection", "patch of size %g, query %d: the cache gives (%.12g,%.12g) for the point (%.15g,%.15g,%.15g), the manifold (%.12g,%.12g)", s, k, g[0], g[1], p[0], p[1], p[2], e[0], e[1]);
          stat("projections");
          if (k % 4 == 0)
            {
              std::vector<Point<3>> q;
              std::vector<double>   wt;
              double t = 0;
              for (int i = irand(2, 4); i > 0; --i) { q.push_back(irand(0, 1) ? on() : h[irand(0, h.size() - 1)]); wt.push_back(uni(.1, 1)); t += wt.back(); }
              for (auto &x : wt) x /= t;
              auto a = plain.get_new_point(make_array_view(q.begin(), q.end()), make_array_view(wt.begin(), wt.end()));
              auto b = cached.get_new_point(make_array_view(q.begin(), q.end()), make_array_view(wt.begin(), wt.end()));
              if (a.distance(b) > 1e-9 * s) fail("midpoint", "patch of size %g: new point %g away from that of the uncached manifold", s, a.distance(b));
              for (auto &x : q) h.push_back(x);
              stat("midpoints");
            }
        }
    }
  return done();
}
