// P06, P07, P08 on the real fast multipole code: tree, interaction lists, products.
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/base/quadrature_selector.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/grid/manifold_lib.h>
#include <deal.II/lac/full_matrix.h>
#include <deal.II/lac/trilinos_precondition.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>
#include <deal.II/lac/trilinos_vector.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#define protected public
#define private public
#include "octree_block.h"
#include "bem_fma.h"
#undef protected
#undef private
#include "world.h"
using namespace dv;
typedef types::global_dof_index gi;
typedef TrilinosWrappers::MPI::Vector TV;
static std::string P;
static bool on(const char *p) { return P == p; }
template <int dim> bool inside(const OctreeBlock<dim> &b, const Point<dim> &x)
{
  double e = 1e-9 * b.delta;
  for (int d = 0; d < dim; ++d) if (x[d] < b.pMin[d] - e || x[d] > b.pMin[d] + b.delta + e) return false;
  return true;
}
template <int dim, class C> bool quads_of_has(const OctreeBlock<dim> &b, const C &c, gi q)
{
  auto l = b.GetBlockQuadPointsList();
  auto p = l.find(c);
  return p != l.end() && std::count(p->second.begin(), p->second.end(), q) == 1;
}
template <int dim> void p06(World<dim> &w, const char *what)
{
  auto &f = w.bem.fma;
  auto  x = w.nodes();
  const unsigned L = f.num_octree_levels, n = x.size();
  auto &B = f.blocks;
  typedef typename BEMFMA<dim>::cell_it cell_it;
  std::map<cell_it, std::vector<Point<dim>>> qp;
  {
    FEValues<dim - 1, dim> fe(*w.bem.mapping, *w.bem.fe, QGauss<dim - 1>(w.o.quad), update_quadrature_points);
    for (auto c : w.bem.dh.active_cell_iterators()) { fe.reinit(c); qp[c] = fe.get_quadrature_points(); }
  }
  // every block: level, cube, parent link
  std::vector<int> seen(f.num_blocks, 0);
  if (f.num_blocks > B.size()) { fail("storage", "%s: %lu blocks in a table of %lu", what, (unsigned long)f.num_blocks, (unsigned long)B.size()); return; }
  if (f.startLevel[0] != 0 || f.endLevel[0] != 0) fail("levels", "%s: root level starts at %u, ends at %u", what, (unsigned)f.startLevel[0], (unsigned)f.endLevel[0]);
  for (unsigned l = 0; l <= L; ++l)
    {
      if (l && f.startLevel[l] != f.endLevel[l - 1] + 1) fail("levels", "%s: level %u starts at block %u, level %u ends at %u", what, l, (unsigned)f.startLevel[l], l - 1, (unsigned)f.endLevel[l - 1]);
      for (gi k = f.startLevel[l]; k < f.endLevel[l] + 1; ++k)
        {
          if (k >= f.num_blocks) { fail("levels", "%s: level %u ends at block %u of %u", what, l, (unsigned)f.endLevel[l], (unsigned)f.num_blocks); return; }
          ++seen[k];
          if (B[k]->level != l) fail("level", "%s: block %u lies on level %u, says %u", what, (unsigned)k, l, B[k]->level);
          if (l && (B[k]->parentId < f.startLevel[l - 1] || B[k]->parentId > f.endLevel[l - 1])) fail("parent", "%s: parent of block %u of level %u is block %u", what, (unsigned)k, l, (unsigned)B[k]->parentId);
        }
    }
  for (gi k = 0; k < f.num_blocks; ++k) if (seen[k] != 1) fail("levels", "%s: block %u on %d levels", what, (unsigned)k, seen[k]);
  // contents
  typedef std::set<std::pair<cell_it, gi>> QS;
  auto nodes_of = [&](gi k) { std::vector<gi> v = B[k]->GetBlockNodeList(); std::multiset<gi> s(v.begin(), v.end()); return s; };
  auto quads_of = [&](gi k) { std::multiset<std::pair<cell_it, gi>> s; for (auto &e : B[k]->GetBlockQuadPointsList()) for (auto q : e.second) s.insert({e.first, q}); return s; };
  std::multiset<gi> rn;
  std::multiset<std::pair<cell_it, gi>> rq;
  for (gi i = 0; i < n; ++i) rn.insert(i);
  for (auto &e : qp) for (unsigned q = 0; q < e.second.size(); ++q) rq.insert({e.first, q});
  if (nodes_of(0) != rn) fail("root", "%s: the root holds %u of %u nodes", what, (unsigned)nodes_of(0).size(), n);
  if (quads_of(0) != rq) fail("root", "%s: the root holds %u of %u quadrature points", what, (unsigned)quads_of(0).size(), (unsigned)rq.size());
  std::set<gi> leaves(f.childlessList.begin(), f.childlessList.end());
  if (leaves.size() != f.childlessList.size()) fail("leaves", "%s: a leaf is listed twice", what);
  std::vector<int> leaf_of(n, 0);
  std::map<std::pair<cell_it, gi>, int> leaf_q;
  for (gi k = 0; k < f.num_blocks; ++k)
    {
      auto &b = *B[k];
      auto bn = nodes_of(k);
      auto bq = quads_of(k);
      for (auto i : bn) if (!inside(b, x[i])) fail("cube-node", "%s: node %u lies outside the cube of its block %u (level %u)", what, (unsigned)i, (unsigned)k, b.level);
      for (auto &e : bq) if (!inside(b, qp[e.first][e.second])) fail("cube-quad", "%s: quadrature point %u of panel %d lies outside the cube of its block %u (level %u)", what, (unsigned)e.second, e.first->index(), (unsigned)k, b.level);
      double cnt = 0;
      for (auto i : bn) cnt += 1. / w.bem.double_nodes_set[i].size();
      bool big = std::round(cnt) > f.max_num_nodes_per_block;
      unsigned nc = b.GetBlockChildrenNum();
      bool split = b.level == 0 || (big && b.level < L);
      if (L == 0) split = false;
      if (split != (nc > 0)) fail("split", "%s: block %u of level %u with %.3g distinct nodes (capacity %u, %u levels) has %u children", what, (unsigned)k, b.level, cnt, f.max_num_nodes_per_block, L, nc);
      if (split == leaves.count(k)) fail("leaves", "%s: block %u of level %u with %u children is %s the list of leaves", what, (unsigned)k, b.level, nc, leaves.count(k) ? "in" : "not in");
      bool filled = std::count(f.dofs_filled_blocks[b.level].begin(), f.dofs_filled_blocks[b.level].end(), k);
      if (b.level && filled != bn.size() > 0) fail("filled", "%s: block %u with %u nodes %s the list of blocks with nodes", what, (unsigned)k, (unsigned)bn.size(), filled ? "is in" : "is missing from");
      filled = std::count(f.quad_points_filled_blocks[b.level].begin(), f.quad_points_filled_blocks[b.level].end(), k);
      if (b.level && filled != bq.size() > 0) fail("filled", "%s: block %u with %u quadrature points %s the list of blocks with quadrature points", what, (unsigned)k, (unsigned)bq.size(), filled ? "is in" : "is missing from");
      if (leaves.count(k)) { for (auto i : bn) ++leaf_of[i]; for (auto &e : bq) ++leaf_q[e]; }
      std::multiset<gi> un;
      std::multiset<std::pair<cell_it, gi>> uq;
      std::set<gi> kids;
      for (unsigned j = 0; j < nc; ++j)
        {
          gi c = b.GetChildId(j);
          if (c >= f.num_blocks) { fail("child", "%s: child %u of block %u does not exist", what, (unsigned)c, (unsigned)k); continue; }
          if (!kids.insert(c).second) fail("child", "%s: block %u is twice a child of %u", what, (unsigned)c, (unsigned)k);
          auto &cb = *B[c];
          if (cb.GetParentId() != k) fail("parent", "%s: block %u is a child of %u, its parent is said to be %u", what, (unsigned)c, (unsigned)k, (unsigned)cb.GetParentId());
          if (cb.level != b.level + 1) fail("level", "%s: child %u of a block of level %u has level %u", what, (unsigned)c, b.level, cb.level);
          if (!close(cb.GetDelta(), b.GetDelta() / 2, b.GetDelta())) fail("cube", "%s: child edge %.10g in a block of edge %.10g", what, cb.GetDelta(), b.GetDelta());
          for (int d = 0; d < dim; ++d)
            {
              double o = (cb.GetPMin()[d] - b.GetPMin()[d]) / (b.GetDelta() / 2);
              if (std::fabs(o) > 1e-9 && std::fabs(o - 1) > 1e-9) fail("cube", "%s: child %u of block %u is %.10g half edges away in direction %d", what, (unsigned)c, (unsigned)k, o, d);
            }
          for (unsigned m = 0; m < j; ++m) if (B[b.GetChildId(m)]->GetPMin().distance(cb.GetPMin()) < 1e-9 * b.GetDelta()) fail("cube", "%s: two children of block %u share a cube", what, (unsigned)k);
          auto cn = nodes_of(c); un.insert(cn.begin(), cn.end());
          auto cq = quads_of(c); uq.insert(cq.begin(), cq.end());
          if (cn.empty() && cq.empty()) fail("child", "%s: empty block %u", what, (unsigned)c);
        }
      if (nc && un != bn) fail("partition", "%s: the children of block %u hold %u nodes, the block %u", what, (unsigned)k, (unsigned)un.size(), (unsigned)bn.size());
      if (nc && uq != bq) fail("partition", "%s: the children of block %u hold %u quadrature points, the block %u", what, (unsigned)k, (unsigned)uq.size(), (unsigned)bq.size());
      stat("blocks");
    }
  for (gi i = 0; i < n; ++i) if (leaf_of[i] != 1) fail("one-leaf", "%s: node %u in %d leaves", what, (unsigned)i, leaf_of[i]);
  for (auto &e : rq) if (leaf_q[e] != 1) fail("one-leaf", "%s: quadrature point %u of panel %d in %d leaves", what, (unsigned)e.second, e.first->index(), leaf_q[e]);
  // tables from points to blocks
  auto at = [&](gi k, unsigned l) { return k < f.num_blocks && (B[k]->level == l || (B[k]->level < l && leaves.count(k))); };
  for (auto &e : qp)
    for (unsigned q = 0; q < e.second.size(); ++q)
      {
        auto &v = f.quad_point_to_block[e.first][q];
        if (v.size() != L + 1) { fail("quad-table", "%s: quadrature point listed on %u of %u levels", what, (unsigned)v.size(), L + 1); continue; }
        for (unsigned l = 0; l <= L; ++l) if (!at(v[l], l) || !quads_of_has(*B[v[l]], e.first, q)) fail("quad-table", "%s: block %u of level %u does not hold quadrature point %u of panel %d", what, (unsigned)v[l], l, q, e.first->index());
      }
  for (gi i = 0; i < n; ++i)
    {
      auto &v = f.dof_to_block[i];
      if (v.size() != L + 1) { fail("node-table", "%s: node %u listed on %u of %u levels", what, (unsigned)i, (unsigned)v.size(), L + 1); continue; }
      for (unsigned l = 0; l <= L; ++l)
        {
          auto nl = at(v[l], l) ? B[v[l]]->GetBlockNodeList() : std::vector<gi>();
          if (!std::count(nl.begin(), nl.end(), i)) fail("node-table", "%s: block %u of level %u does not hold node %u", what, (unsigned)v[l], l, (unsigned)i);
        }
    }
}
template <int dim> void p07(World<dim> &w, const char *what)
{
  auto &f = w.bem.fma;
  auto  x = w.nodes();
  auto &B = f.blocks;
  typedef typename BEMFMA<dim>::cell_it cell_it;
  const unsigned n = x.size();
  std::map<cell_it, unsigned> id;
  for (auto c : w.bem.dh.active_cell_iterators()) { unsigned k = id.size(); id[c] = k; }
  const unsigned nq = f.quadrature->size(), m = id.size() * nq;
  // how often each pair is integrated directly / through expansions
  std::vector<int> dir(n * m, 0), far(n * m, 0);
  auto all = [&](gi i, gi k, std::vector<int> &v) { for (auto &e : B[k]->GetBlockQuadPointsList()) for (auto q : e.second) ++v[i * m + id[e.first] * nq + q]; };
  auto gap = [&](const OctreeBlock<dim> &a, const Point<dim> &p) { double g = 0; for (int d = 0; d < dim; ++d) g = std::max(g, std::max(a.pMin[d] - p[d], p[d] - a.pMin[d] - a.delta)); return g; };
  for (auto k : f.childlessList)
    {
      auto bn = B[k]->GetBlockNodeList();
      for (auto k2 : B[k]->GetIntList(B[k]->GetIntListSize() - 1)) for (auto i : bn) all(i, k2, dir);
    }
  for (unsigned l = 1; l <= f.num_octree_levels; ++l)
    for (auto k : f.dofs_filled_blocks[l])
      {
        auto bn = B[k]->GetBlockNodeList();
        for (unsigned s = 0; s < B[k]->NumNearNeighLevels(); ++s)
          for (auto k2 : B[k]->GetNonIntList(s))
            {
              auto &b = *B[k2];
              for (auto i : bn) all(i, k2, k2 < f.startLevel[l] ? dir : far);
              if (k2 < f.startLevel[l]) continue;
              // both expansions converge for well separated blocks
              if (k2 <= f.endLevel[l])
                {
                  double g = 0;
                  for (int d = 0; d < dim; ++d) g = std::max(g, std::fabs(b.pMin[d] - B[k]->pMin[d]));
                  if (g < 1.99 * b.delta) fail("separation", "%s: blocks %u and %u of edge %.6g exchange expansions %.6g apart", what, (unsigned)k, (unsigned)k2, b.delta, g - b.delta);
                }
              else for (auto i : bn) if (gap(b, x[i]) < .99 * b.delta) fail("separation", "%s: the expansion of block %u of edge %.6g is evaluated at a node %.6g away", what, (unsigned)k2, b.delta, gap(b, x[i]));
            }
      }
  for (gi i = 0; i < n; ++i)
    for (auto &e : id)
      for (unsigned q = 0; q < nq; ++q)
        {
          int a = dir[i * m + e.second * nq + q], b = far[i * m + e.second * nq + q];
          if (a + b != 1) fail("once", "%s: node %u and quadrature point %u of panel %u: %d times directly, %d times through expansions", what, (unsigned)i, q, e.second, a, b);
          stat(a ? "direct-pairs" : "expanded-pairs");
        }
}
struct Dense { FullMatrix<double> N, D; };
template <int dim> Dense dense(World<dim> &w)
{
  auto &b = w.bem;
  const unsigned n = b.dh.n_dofs(), m = b.fe->dofs_per_cell;
  Dense r{FullMatrix<double>(n, n), FullMatrix<double>(n, n)};
  auto x = w.nodes();
  auto t = w.twins(true);
  std::vector<gi> d(m);
  const auto &up = b.fe->get_unit_support_points();
  std::vector<std::unique_ptr<FEValues<dim - 1, dim>>> fs;
  auto fl = update_values | update_normal_vectors | update_quadrature_points | update_JxW_values;
  for (unsigned j = 0; j < m; ++j) fs.emplace_back(new FEValues<dim - 1, dim>(*b.mapping, *b.fe, QTelles<dim - 1>(w.o.squad, up[j]), fl));
  FEValues<dim - 1, dim> fr(*b.mapping, *b.fe, QGauss<dim - 1>(w.o.quad), fl);
  for (auto c : b.dh.active_cell_iterators())
    {
      c->get_dof_indices(d);
      fr.reinit(c);
      for (auto &f : fs) f->reinit(c);
      for (gi i = 0; i < n; ++i)
        {
          FEValues<dim - 1, dim> *f = &fr;
          for (unsigned j = 0; j < m; ++j) if (t[i].count(d[j])) { f = fs[j].get(); break; }
          for (unsigned q = 0; q < f->n_quadrature_points; ++q)
            {
              Tensor<1, dim> R = f->quadrature_point(q) - x[i];
              double s = dim == 3 ? 1 / (4 * M_PI * R.norm()) : -std::log(R.norm()) / (2 * M_PI);
              double k = (-R * f->normal_vector(q)) / (dim == 3 ? 4 * M_PI * std::pow(R.norm(), 3) : 2 * M_PI * R.norm_square());
              for (unsigned j = 0; j < m; ++j) { r.N(i, d[j]) += k * f->shape_value(j, q) * f->JxW(q); r.D(i, d[j]) += s * f->shape_value(j, q) * f->JxW(q); }
            }
        }
    }
  return r;
}
// the same random density on every process
template <int dim> TV density(World<dim> &w, std::vector<double> &u, double lo = -1, double hi = 1)
{
  u.resize(w.bem.dh.n_dofs());
  for (auto &x : u) x = uni(lo, hi);
  auto v = w.vec();
  for (auto i : w.bem.this_cpu_set) v(i) = u[i];
  v.compress(VectorOperation::insert);
  return v;
}
template <int dim> void product(World<dim> &w, const TV &phi, const TV &dphi, TV &N, TV &D)
{
  N = w.vec();
  D = w.vec();
  w.bem.fma.generate_multipole_expansions(phi, dphi);
  w.bem.fma.multipole_matr_vect_products(phi, dphi, N, D);
}
// three times the largest truncation error seen over some thousand products
static double bn(int p) { return .06 * std::pow(2., 3 - p); }
static double bd(int p) { return .01 * std::pow(2.6, 3 - p); }
template <int dim> void p08(World<dim> &w, const char *what)
{
  auto &f = w.bem.fma;
  const unsigned n = w.bem.dh.n_dofs();
  auto M = dense(w);
  std::vector<double> A, B, C, E;
  auto a = density(w, A), b = density(w, B), c = density(w, C, 0, 1), e = density(w, E, 0, 1);
  TV N1, D1, N2, D2, N3, D3;
  const int orders[] = {3, 6, 9};
  auto cmp = [&](const TV &v, const FullMatrix<double> &A, const std::vector<double> &u, double tol, const char *key, int p) {
    double s = 0, er = 0;
    for (gi i = 0; i < n; ++i)
      {
        double r = 0, g = 0;
        for (gi j = 0; j < n; ++j) { r += A(i, j) * u[j]; g += std::fabs(A(i, j) * u[j]); }
        s = std::max(s, g);
        if (w.bem.this_cpu_set.is_element(i)) er = std::max(er, std::fabs(r - v(i)));
      }
    if (getenv("DV_CAL")) printf("CAL %s %d %g\n", key, p, er / s);
    if (!(er <= tol * s)) fail(key, "%s: order %d: deviation %.4g from the assembled operator, of %.4g", what, p, er, s);
    stat("products");
  };
  for (int p : orders)
    {
      f.trunc_order = p;
      f.multipole_integrals();
      product(w, c, e, N1, D1);
      cmp(N1, M.N, C, bn(p), "neumann", p);
      cmp(D1, M.D, E, bd(p), "dirichlet", p);
      product(w, a, b, N2, D2);
      cmp(N2, M.N, A, bn(p), "neumann", p);
      cmp(D2, M.D, B, bd(p), "dirichlet", p);
      // linear
      TV u = a, v = b;
      u.sadd(-1.7, .6, c);
      v.sadd(-1.7, .6, e);
      product(w, u, v, N3, D3);
      for (auto i : w.bem.this_cpu_set)
        {
          if (!close(N3(i), -1.7 * N2(i) + .6 * N1(i), 3, 1e-10)) fail("linear", "%s: order %d, row %u: %.12g instead of %.12g", what, p, (unsigned)i, (double)N3(i), -1.7 * N2(i) + .6 * N1(i));
          if (!close(D3(i), -1.7 * D2(i) + .6 * D1(i), 3, 1e-10)) fail("linear", "%s: order %d, row %u: %.12g instead of %.12g", what, p, (unsigned)i, (double)D3(i), -1.7 * D2(i) + .6 * D1(i));
        }
      // the same product again
      product(w, c, e, N3, D3);
      for (auto i : w.bem.this_cpu_set)
        if (!close(N3(i), N1(i), 1, 1e-11) || !close(D3(i), D1(i), 1, 1e-11)) fail("history", "%s: order %d, row %u: a later product gives (%.14g, %.14g), the first (%.14g, %.14g)", what, p, (unsigned)i, (double)N3(i), (double)D3(i), (double)N1(i), (double)D1(i));
    }
}
// single entries of the operators, for pairs integrated in any way
template <int dim> void entries(World<dim> &w, const char *what)
{
  auto M = dense(w);
  const unsigned n = w.bem.dh.n_dofs();
  w.bem.fma.trunc_order = 8;
  w.bem.fma.multipole_integrals();
  for (int k = 0; k < 6; ++k)
    {
      gi j = irand(0, n - 1);
      auto u = w.vec();
      if (w.bem.this_cpu_set.is_element(j)) u(j) = 1;
      u.compress(VectorOperation::insert);
      TV N, D;
      product(w, u, u, N, D);
      for (auto i : w.bem.this_cpu_set)
        {
          double s = std::fabs(M.D(i, j)) + 1e-12;
          if (getenv("DV_CAL")) printf("CAL entryN %g\n", std::fabs(N(i) - M.N(i, j)) / s);
          if (getenv("DV_CAL")) printf("CAL entry 8 %g\n", std::max(std::fabs(D(i) - M.D(i, j)) / s, .3*std::fabs(N(i) - M.N(i, j)) / s));
          if (!(std::fabs(D(i) - M.D(i, j)) <= .02 * s)) fail("pair", "%s: the single layer of node %u seen from node %u is %.8g, directly %.8g", what, (unsigned)j, (unsigned)i, (double)D(i), M.D(i, j));
          if (!(std::fabs(N(i) - M.N(i, j)) <= .04 * s)) fail("pair", "%s: the double layer of node %u seen from node %u is %.8g, directly %.8g", what, (unsigned)j, (unsigned)i, (double)N(i), M.N(i, j));
          stat("entries");
        }
    }
}
// one level: every pair is integrated directly
template <int dim, class S> void near_field(const S &s, const Opts &o, const char *what)
{
  World<dim> w(o);
  w.mesh(s);
  w.bem.reinit();
  auto &f = w.bem.fma;
  f.generate_octree_blocking();
  f.direct_integrals();
  auto M = dense(w);
  auto x = w.nodes();
  for (auto i : w.bem.this_cpu_set)
    {
      double s = 0;
      for (gi j = 0; j < x.size(); ++j) s = std::max(s, std::fabs(M.D(i, j)) + std::fabs(M.N(i, j)));
      for (gi j = 0; j < x.size(); ++j)
        if (!close(f.prec_neumann_matrix.el(i, j), M.N(i, j), s, 1e-10) || !close(f.prec_dirichlet_matrix.el(i, j), M.D(i, j), s, 1e-10))
          fail("near field", "%s, entry (%u, %u): (%.12g, %.12g) instead of (%.12g, %.12g)", what, (unsigned)i, (unsigned)j, (double)f.prec_neumann_matrix.el(i, j), (double)f.prec_dirichlet_matrix.el(i, j), M.N(i, j), M.D(i, j));
    }
  stat("near-fields");
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1); started();
  P = argv[1];
  int N = thorough(argc, argv) ? 40 : 8;
  for (int n = 0; n < N; ++n)
    {
      Opts o;
      o.method = "FMA";
      o.order = o.vorder = n % 4 == 2 ? 2 : 1;
      if (n % 5 == 4) { o.fe = o.vfe = "FEDGQ"; o.mapping = "Q"; }
      o.quad = irand(2, 4);
      o.squad = irand(3, 6);
      o.leaf = n % 3 == 0 ? irand(1, 3) : irand(4, 20);
      o.levels = irand(on("P06") ? 1 : 2, 6);
      World<3> w(o);
      auto b = random_box(on("P06") && n % 2 ? 6 : 3, 2);
      if (n % 2) for (auto &g : b.group) g = irand(0, 2);
      if (n % 4 == 1) b.hi[0] += 2; // elongated
      auto s = box(b);
      if (n % 3 == 1) s = mapped<3>(s, [](const Point<3> &p) { return Point<3>(p[0] + .1 * p[1] * p[1], p[1] + .1 * p[0] * p[2], p[2]); });
      if (n % 4 == 2) for (auto &p : s) for (auto &v : p.v) v = Point<3>(4 + v[0], v[1] - 3, v[2]); // away from the origin
      w.mesh(s);
      int r = irand(0, 2);
      for (int k = 0; k < r; ++k)
        { // local refinement towards one corner
          unsigned c = 0;
          for (auto e : w.dom.tria.active_cell_iterators()) if ((c++ % 7 == 0 && k == 0) || (k == 1 && e->center().distance(b.lo) < .5)) e->set_refine_flag();
          w.dom.tria.execute_coarsening_and_refinement();
        }
      GridTools::partition_triangulation(w.dom.n_mpi_processes, w.dom.tria);
      w.bem.reinit();
      auto &f = w.bem.fma;
      auto t = "case " + std::to_string(n) + " (" + o.fe + std::to_string(o.order) + ", " + std::to_string(w.dom.tria.n_active_cells()) + " panels, leaf " + std::to_string(o.leaf) + ", " + std::to_string(o.levels) + " levels, quadrature " + std::to_string(o.quad) + ")";
      f.generate_octree_blocking();
      if (n % 3 == 2) f.generate_octree_blocking(); // built again
      if (on("P06")) p06(w, t.c_str());
      if (on("P07")) p07(w, t.c_str());
      if (on("P07") || on("P08")) { f.direct_integrals(); f.multipole_integrals(); }
      if (on("P07")) entries(w, t.c_str());
      if (on("P08")) p08(w, t.c_str());
    }
  for (int n = 0; on("P06") && Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) == 1 && n < (thorough(argc, argv) ? 12 : 4); ++n)
    { // coarse rules, coarse curved panels, few panels
      Opts o;
      o.method = "FMA";
      o.quad = n % 2 ? irand(2, 3) : 1;
      o.leaf = irand(1, 2);
      o.levels = n / 2 % 2 ? irand(2, 7) : 1;
      if (n % 2) { o.mapping = "Q"; o.mdegree = irand(2, 3); }
      else if (n % 4 == 2) o.order = o.vorder = 2;
      World<3> w(o);
      BoxSpec b;
      for (int d = 0; d < 3; ++d) { b.lo[d] = -1; b.hi[d] = 1; b.n[d] = 1; }
      for (auto &g : b.group) g = 0;
      w.mesh(box(b));
      if (n % 2) { w.dom.tria.set_all_manifold_ids(1); w.dom.tria.set_manifold(1, SphericalManifold<2, 3>()); }
      w.bem.reinit();
      auto t = "small case " + std::to_string(n) + " (" + std::to_string(o.order) + ", mapping degree " + std::to_string(o.mdegree) + ", leaf " + std::to_string(o.leaf) + ", " + std::to_string(o.levels) + " levels, quadrature " + std::to_string(o.quad) + ")";
      w.bem.fma.generate_octree_blocking();
      p06(w, t.c_str());
    }
  for (int n = 0; on("P07") && n < N / 2; ++n)
    {
      Opts o;
      o.method = "FMA";
      o.levels = 1;
      o.leaf = irand(2, 9);
      o.order = o.vorder = n % 2 + 1;
      o.quad = irand(2, 4);
      o.squad = irand(3, 6);
      auto t = "near field " + std::to_string(n) + " (degree " + std::to_string(o.order) + ", leaf " + std::to_string(o.leaf) + ")";
      near_field<3>(box(random_box(3, 2)), o, ("3D " + t).c_str());
      if (Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) == 1) near_field<2>(random_polygon(5, n % 2), o, ("2D " + t).c_str());
    }
  return done();
}
