// P17 on the real code: edge conformity, ids and ownership after refinement.
#include "world.h"
using namespace dv;
typedef Triangulation<2, 3> Tria;
// every boundary edge of every active panel has a coincident edge on another patch
static void conforming(const Tria &tria, const char *what)
{
  struct E { Point<3> a, b; };
  std::vector<E> es;
  for (auto c : tria.active_cell_iterators())
    for (unsigned f = 0; f < 4; ++f)
      if (c->face(f)->at_boundary()) es.push_back({c->face(f)->vertex(0), c->face(f)->vertex(1)});
  unsigned bad = 0;
  for (unsigned i = 0; i < es.size(); ++i)
    {
      unsigned m = 0;
      for (unsigned j = 0; j < es.size(); ++j)
        if (i != j && ((es[i].a.distance(es[j].a) < 1e-6 && es[i].b.distance(es[j].b) < 1e-6) || (es[i].a.distance(es[j].b) < 1e-6 && es[i].b.distance(es[j].a) < 1e-6))) ++m;
      if (!m && !bad++)
        fail("cut-on-one-side", "%s: the panel edge (%.6g %.6g %.6g)-(%.6g %.6g %.6g) on a patch boundary has no counterpart on the other patch", what, es[i].a[0], es[i].a[1], es[i].a[2], es[i].b[0], es[i].b[1], es[i].b[2]);
    }
  stat("edges", es.size());
}
template <int dim> static void ids(const Triangulation<dim - 1, dim> &tria, const std::vector<std::pair<unsigned, unsigned>> &coarse, const char *what)
{
  for (auto c : tria.active_cell_iterators())
    {
      auto p = typename Triangulation<dim - 1, dim>::cell_iterator(c);
      while (p->level() > 0) p = p->parent();
      auto e = coarse[p->index()];
      if (c->material_id() != e.first) fail("boundary-id", "%s: a panel refined from id %u carries id %u", what, e.first, (unsigned)c->material_id());
      if (c->manifold_id() != e.second) fail("manifold", "%s: a panel refined from manifold %u carries manifold %u", what, e.second, (unsigned)c->manifold_id());
      stat("panels");
    }
}
template <int dim> static std::vector<std::pair<unsigned, unsigned>> coarse_ids(const Triangulation<dim - 1, dim> &tria)
{
  std::vector<std::pair<unsigned, unsigned>> r(tria.n_cells(0));
  for (auto c = tria.begin(0); c != tria.end(0); ++c) r[c->index()] = {c->material_id(), c->manifold_id()};
  return r;
}
template <int dim> static void owned(const ComputationalDomain<dim> &d, const char *what)
{
  // the owner of every panel is a process, the same on every process
  unsigned np = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD), k = 0;
  std::vector<unsigned> s;
  for (auto c : d.tria.active_cell_iterators()) s.push_back(c->subdomain_id());
  std::vector<unsigned> lo(s.size()), hi(s.size());
  MPI_Allreduce(s.data(), lo.data(), s.size(), MPI_UNSIGNED, MPI_MIN, MPI_COMM_WORLD);
  MPI_Allreduce(s.data(), hi.data(), s.size(), MPI_UNSIGNED, MPI_MAX, MPI_COMM_WORLD);
  if (lo != hi) fail("owner", "%s: two processes disagree on the owner of a panel", what);
  for (unsigned x : s) if (x >= np) { fail("owner", "%s: a panel belongs to process %u of %u", what, x, np); break; }
  std::set<unsigned> used(s.begin(), s.end());
  if (s.size() > 8 * np && used.size() != np) fail("owner", "%s: %u panels are spread over %u of %u processes", what, (unsigned)s.size(), (unsigned)used.size(), np);
  (void)k;
  stat("owned", s.size());
}
static double ratio(const Tria &tria)
{
  double r = 0;
  for (auto c : tria.active_cell_iterators()) { double a = c->extent_in_direction(0), b = c->extent_in_direction(1); r = std::max(r, std::max(a, b) / std::min(a, b)); }
  return r;
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  started();
  int N = thorough(argc, argv) ? 60 : 14;
  quiet();
  for (int n = 0; n < N; ++n)
    {
      char what[200];
      ComputationalDomain<3> d(MPI_COMM_WORLD);
      d.pcout.set_condition(false);
      auto b = random_box(2, 3);
      b.jitter = n % 2;
      auto s = box(b);
      if (n % 4 == 3) s = mapped<3>(s, [](const Point<3> &p) { return Point<3>(p[0] + .2 * p[1], p[1], p[2] - .15 * p[0]); });
      fill<3>(d.tria, s);
      bool sphere = n % 5 == 4;
      if (sphere)
        {
          // shared manifold: the copies of an edge stay together
          Point<3> m;
          for (int k = 0; k < 3; ++k) m[k] = .5 * (b.lo[k] + b.hi[k]);
          d.tria.set_all_manifold_ids(7);
          d.tria.set_manifold(7, SphericalManifold<2, 3>(m));
        }
      else
        for (auto c : d.tria.active_cell_iterators()) c->set_manifold_id(c->material_id() + 20), d.tria.set_manifold(c->material_id() + 20, FlatManifold<2, 3>());
      auto ci = coarse_ids<3>(d.tria);
      bool iso = irand(0, 1);
      int rounds = irand(1, 3);
      for (int r = 0; r < rounds; ++r)
        {
          for (auto c : d.tria.active_cell_iterators())
            if (irand(0, 4) == 0) c->set_refine_flag(irand(0, 1) && !sphere && !iso ? RefinementCase<2>::cut_axis(irand(0, 1)) : RefinementCase<2>::isotropic_refinement);
          d.tria.execute_coarsening_and_refinement();
          d.make_edges_conformal(true, iso);
          if(getenv("V"))fprintf(stderr,"%d %d %d %u\n",n,r,iso,(unsigned)d.tria.n_active_cells());
          snprintf(what, sizeof what, "box %d round %d (%s)", n, r, iso ? "isotropic" : "anisotropic");
          conforming(d.tria, what);
          ids<3>(d.tria, ci, what);
        }
      d.update_triangulation();
      snprintf(what, sizeof what, "box %d update_triangulation", n);
      conforming(d.tria, what);
      ids<3>(d.tria, ci, what);
      owned<3>(d, what);
    }
  for (int n = 0; n < N; ++n)
    {
      char what[200];
      snprintf(what, sizeof what, "elongated box %d", n);
      ComputationalDomain<3> d(MPI_COMM_WORLD);
      d.pcout.set_condition(false);
      BoxSpec b;
      for (int k = 0; k < 3; ++k) { b.lo[k] = 0; b.hi[k] = std::exp(uni(-1.6, 1.6)); b.n[k] = irand(1, 2); }
      for (int f = 0; f < 6; ++f) b.mat[f] = irand(0, 3);
      fill<3>(d.tria, box(b));
      for (auto c : d.tria.active_cell_iterators()) c->set_manifold_id(c->material_id() + 20), d.tria.set_manifold(c->material_id() + 20, FlatManifold<2, 3>());
      auto ci = coarse_ids<3>(d.tria);
      d.use_cad_surface_and_curves = d.surface_curvature_refinement = false;
      d.max_element_aspect_ratio = uni(2.1, 4);
      unsigned lev = irand(0, 1);
      d.refine_and_resize(lev);
      conforming(d.tria, what);
      ids<3>(d.tria, ci, what);
      owned<3>(d, what);
      if (ratio(d.tria) > d.max_element_aspect_ratio * (1 + 1e-9)) fail("aspect-ratio", "%s: aspect ratio %g left, %g allowed", what, ratio(d.tria), d.max_element_aspect_ratio);
      stat("aspect");
    }
  for (int n = 0; n < 3; ++n)
    {
      // open plates: borders without a second patch, re-entrant corners with three panels
      ComputationalDomain<3> d(MPI_COMM_WORLD);
      d.pcout.set_condition(false);
      Surface<3> s;
      int m[2] = {irand(1, 3), irand(1, 3)};
      for (int i = 0; i < 2 * m[0]; ++i)
        for (int j = 0; j < 2 * m[1]; ++j)
          if (i < m[0] || j < m[1])
            {
              auto P = [&](int a, int b) { return Point<3>(a + .3, b - .2, .1); };
              s.push_back({{P(i, j), P(i + 1, j), P(i, j + 1), P(i + 1, j + 1)}, (unsigned)irand(0, 3), 0});
            }
      fill<3>(d.tria, s);
      auto ci = coarse_ids<3>(d.tria);
      d.make_edges_conformal(true, n == 1);
      if (d.tria.n_active_cells() != s.size()) fail("refine", "an open plate of %u panels has %u after enforcing conformity", (unsigned)s.size(), d.tria.n_active_cells());
      for (auto c : d.tria.active_cell_iterators()) if (irand(0, 2) == 0) c->set_refine_flag();
      d.tria.execute_coarsening_and_refinement();
      d.make_edges_conformal(true, n == 1);
      ids<3>(d.tria, ci, "open plate");
    }
  for (int n = 0; n < 3; ++n)
    {
      ComputationalDomain<2> d(MPI_COMM_WORLD);
      d.pcout.set_condition(false);
      fill<2>(d.tria, random_polygon(3, n % 2));
      auto ci = coarse_ids<2>(d.tria);
      unsigned m = d.tria.n_active_cells();
      d.refine_and_resize(2);
      ids<2>(d.tria, ci, "polygon");
      owned<2>(d, "polygon");
      if (d.tria.n_active_cells() != 4 * m) fail("refine", "two global refinements of %u panels give %u", m, (unsigned)d.tria.n_active_cells());
    }
  return done();
}
