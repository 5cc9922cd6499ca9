// P11-P15, P19 on the real code: classification, data, constraints, solve and preconditioners.
#include "world.h"
#include "constrained_matrix.h"
using namespace dv;
typedef types::global_dof_index gi;
typedef TrilinosWrappers::MPI::Vector TV;
static std::string P;
static bool on(const char *p) { return P == p; }

template <int dim> void p13(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  auto  d = w.dirichlet();
  auto  t = w.twins(true);
  bool  any = false;
  for (gi i = 0; i < b.dh.n_dofs(); ++i)
    {
      any = any || d[i];
      if (!b.this_cpu_set.is_element(i)) continue;
      if (b.dirichlet_nodes(i) != (d[i] ? 1. : 0.)) fail("dirichlet", "%s: node %u: indicator %g, on a Dirichlet panel: %d", what, (unsigned)i, (double)b.dirichlet_nodes(i), d[i]);
      if (b.neumann_nodes(i) != (d[i] ? 0. : 1.)) fail("neumann", "%s: node %u: Neumann indicator %g, on a Dirichlet panel: %d", what, (unsigned)i, (double)b.neumann_nodes(i), d[i]);
    }
  if (b.have_dirichlet_bc != any) fail("have", "%s: have_dirichlet_bc=%d, a Dirichlet panel exists: %d", what, b.have_dirichlet_bc, any);
  if (b.double_nodes_set.size() != t.size()) fail("doubles-size", "%s: %u sets for %u nodes", what, (unsigned)b.double_nodes_set.size(), (unsigned)t.size());
  else for (gi i = 0; i < t.size(); ++i)
    if (b.double_nodes_set[i] != t[i]) fail("doubles", "%s: node %u: %u coincident nodes recorded, %u in the geometry", what, (unsigned)i, (unsigned)b.double_nodes_set[i].size(), (unsigned)t[i].size());
  auto inv = [&](const std::vector<gi> &a, const std::vector<gi> &c, gi n, const char *nm) {
    if (a.size() != n || c.size() != n) { fail(nm, "%s: %u and %u entries for %u dofs", what, (unsigned)a.size(), (unsigned)c.size(), (unsigned)n); return; }
    for (gi i = 0; i < n; ++i)
      if (a[i] >= n || c[i] >= n || c[a[i]] != i || a[c[i]] != i) fail(nm, "%s: index %u maps to %u and back to %u", what, (unsigned)i, (unsigned)a[i], (unsigned)(a[i] < n ? c[a[i]] : a[i]));
  };
  inv(b.original_to_sub_wise, b.sub_wise_to_original, b.dh.n_dofs(), "perm");
  inv(b.vec_original_to_sub_wise, b.vec_sub_wise_to_original, b.gradient_dh.n_dofs(), "vecperm");
  // component d of the vector node paired with scalar node i sits at the same place
  if (b.gradient_dh.n_dofs() == dim * b.dh.n_dofs())
    {
      auto s = w.nodes();
      std::vector<Point<dim>> v(b.gradient_dh.n_dofs());
      DoFTools::map_dofs_to_support_points<dim - 1, dim>(*b.mapping, b.gradient_dh, v);
      for (gi i = 0; i < b.dh.n_dofs(); ++i) for (int c = 0; c < dim; ++c)
        {
          gi k = b.vec_original_to_sub_wise[b.gradient_dh.n_dofs() / dim * c + b.sub_wise_to_original[i]];
          if (v[k].distance(s[i]) > 1e-9) fail("pairing", "%s: component %d of node %u sits %g away", what, c, (unsigned)i, v[k].distance(s[i]));
        }
    }
  stat("nodes", b.dh.n_dofs());
}
template <int dim> double normal_c(const BEMProblem<dim> &b, gi i, int d)
{ return b.vector_normals_solution(b.vec_original_to_sub_wise[b.gradient_dh.n_dofs() / dim * d + b.sub_wise_to_original[i]]); }
template <int dim> double surfg_c(const BEMProblem<dim> &b, gi i, int d)
{ return b.vector_surface_gradients_solution(b.vec_original_to_sub_wise[b.gradient_dh.n_dofs() / dim * d + b.sub_wise_to_original[i]]); }

// expected boundary data per node: value and kind
template <int dim> struct Data { std::vector<double> val; std::vector<char> dir; std::vector<char> given; };
template <int dim> Data<dim> data(World<dim> &w)
{
  auto &b = w.bem;
  Data<dim> r;
  r.dir = w.dirichlet();
  r.val.assign(b.dh.n_dofs(), 0.);
  r.given.assign(b.dh.n_dofs(), 0);
  auto p = w.nodes();
  std::vector<gi> dd(b.fe->dofs_per_cell);
  std::vector<int> last(b.dh.n_dofs(), -1);
  for (auto c : b.dh.active_cell_iterators())
    {
      c->get_dof_indices(dd);
      for (auto i : dd)
        {
          if (!b.this_cpu_set.is_element(i)) continue;
          if (r.dir[i]) { r.val[i] = w.bc.potential.value(p[i]); r.given[i] = 1; }
          else if (w.is_in(w.o.neumann, c->material_id()))
            {
              Vector<double> v(dim);
              w.bc.wind.vector_value(p[i], v);
              double s = 0;
              for (int d = 0; d < dim; ++d) s += v[d] * normal_c<dim>(b, i, d);
              if (r.given[i] && r.val[i] == 0 && std::fabs(s) > 0 && last[i] == 2) r.given[i] = 2; // shared with a panel with neither id
              else { r.val[i] = s; r.given[i] = 1; }
              last[i] = 1;
            }
          else { if (last[i] == 1) r.given[i] = 2; else { r.val[i] = 0; r.given[i] = 1; } last[i] = last[i] == 1 ? 1 : 2; }
        }
    }
  return r;
}
template <int dim> void p14(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  w.bc.this_cpu_set = b.this_cpu_set;
  w.bc.phi.reinit(b.this_cpu_set, MPI_COMM_WORLD);
  w.bc.dphi_dn.reinit(b.this_cpu_set, MPI_COMM_WORLD);
  w.bc.tmp_rhs.reinit(b.this_cpu_set, MPI_COMM_WORLD);
  for (int rep = 0; rep < 2; ++rep)
    {
      b.compute_normals();
      for (auto i : b.this_cpu_set) w.bc.tmp_rhs(i) = uni(-5, 5);
      w.bc.prepare_bem_vectors();
      auto r = data(w);
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        {
          if (r.given[i] == 2 || !b.this_cpu_set.is_element(i)) continue;
          double f = r.dir[i] ? (double)w.bc.phi(i) : (double)w.bc.dphi_dn(i), sc = std::fabs(r.val[i]) + 1;
          if (!close(w.bc.tmp_rhs(i), r.val[i], sc)) fail("rhs-data", "%s: node %u (%s): right-hand side data %.12g, prescribed %.12g", what, (unsigned)i, r.dir[i] ? "Dirichlet" : "Neumann", (double)w.bc.tmp_rhs(i), r.val[i]);
          if (!close(f, r.val[i], sc)) fail("field-data", "%s: node %u (%s): field %.12g, prescribed %.12g", what, (unsigned)i, r.dir[i] ? "Dirichlet" : "Neumann", f, r.val[i]);
        }
      stat("data", b.dh.n_dofs());
    }
}
template <int dim> bool flat(const BEMProblem<dim> &b, gi i, gi j, double &dist)
{
  dist = 0;
  for (int d = 0; d < dim; ++d) dist += std::pow(normal_c<dim>(b, i, d) - normal_c<dim>(b, j, d), 2);
  return dist < 1e-4;
}
template <int dim> void p11(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  auto  rhs = w.random();
  b.compute_normals();
  auto dir = w.dirichlet();
  AffineConstraints<double> hn;
  DoFTools::make_hanging_node_constraints(b.dh, hn);
  hn.close();
  AffineConstraints<double> c;
  IndexSet cs;
  for (int rep = 0; rep < 2; ++rep)
    {
      try { b.compute_constraints(cs, c, rhs); } catch (std::exception &e) { fail("throws", "%s: compute_constraints throws: %.300s", what, e.what()); return; }
      auto t = w.twins(true);
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        {
          gi first = *t[i].begin();
          for (gi j : t[i]) if (dir[j]) { first = j; break; }
          bool has = c.is_constrained(i);
          auto *e = has ? c.get_constraint_entries(i) : nullptr;
          double inh = has ? c.get_inhomogeneity(i) : 0;
          if (has) for (auto &x : *e)
            {
              if (x.first == i) fail("self", "%s: node %u is constrained to itself", what, (unsigned)i);
              if (c.is_constrained(x.first)) fail("chain", "%s: node %u is constrained to the constrained node %u", what, (unsigned)i, (unsigned)x.first);
            }
          if (hn.is_constrained(i))
            {
              // hanging node: its interpolation constraint (masters resolved through their own constraints)
              if (!has) fail("hanging", "%s: hanging node %u lost its constraint", what, (unsigned)i);
              continue;
            }
          bool hangset = false;
          for (gi j : t[i]) if (hn.is_constrained(j)) hangset = true;
          if (hangset) continue;
          if (!dir[i])
            {
              if (i == first) { if (has) fail("first", "%s: the first of the coincident Neumann nodes %u is constrained", what, (unsigned)i); }
              else if (dir[first])
                {
                  if (!has || e->size() || !close(inh, rhs(first), std::fabs(rhs(first)) + 1)) fail("neumann-dirichlet", "%s: Neumann node %u coincident with Dirichlet node %u: constrained %d, entries %d, value %g, prescribed potential %g", what, (unsigned)i, (unsigned)first, has, has ? (int)e->size() : 0, inh, (double)rhs(first));
                }
              else if (!has || e->size() != 1 || (*e)[0].first != first || (*e)[0].second != 1. || inh != 0)
                fail("neumann-neumann", "%s: Neumann node %u coincident with first node %u: constrained %d, entries %d, value %g", what, (unsigned)i, (unsigned)first, has, has ? (int)e->size() : 0, inh);
            }
          else
            {
              // Dirichlet side: free, tied to the first on a common tangent plane, or prescribed by the continuous-gradient formula
              unsigned nd = 0; for (gi j : t[i]) nd += dir[j];
              double dist, dfirst = 1;
              bool isflat = i != first && flat<dim>(b, first, i, dist);
              if (nd == 1 && has) fail("dirichlet-free", "%s: the only Dirichlet node %u of its set is constrained", what, (unsigned)i);
              if (nd > 1 && !b.continuos_gradient)
                {
                  if (i == first && has) fail("dirichlet-free", "%s: the first Dirichlet node %u is constrained", what, (unsigned)i);
                  if (i != first && isflat && (!has || e->size() != 1 || (*e)[0].first != first || (*e)[0].second != 1. || inh != 0)) fail("dirichlet-flat", "%s: Dirichlet nodes %u, %u share the tangent plane but the fluxes are not tied", what, (unsigned)i, (unsigned)first);
                  if (i != first && !isflat && has) fail("dirichlet-angle", "%s: Dirichlet nodes %u, %u meet at an angle but the flux is constrained", what, (unsigned)i, (unsigned)first);
                }
              if (nd == 2 && b.continuos_gradient)
                {
                  gi o = first;
                  if (i == first) for (gi j : t[i]) if (dir[j] && j != i) o = j;
                  bool fl = flat<dim>(b, i, o, dfirst);
                  double nn = 0, si = 0, so = 0; // normals product, surf_i . n_o, surf_o . n_i
                  for (int d = 0; d < dim; ++d) { nn += normal_c<dim>(b, i, d) * normal_c<dim>(b, o, d); si += surfg_c<dim>(b, i, d) * normal_c<dim>(b, o, d); so += surfg_c<dim>(b, o, d) * normal_c<dim>(b, i, d); }
                  if (fl)
                    {
                      if (i == first ? has : (!has || e->size() != 1 || (*e)[0].first != first || (*e)[0].second != 1. || inh != 0)) fail("dirichlet-flat", "%s: Dirichlet nodes %u, %u share the tangent plane: constrained %d, value %g", what, (unsigned)i, (unsigned)o, has, inh);
                    }
                  else
                    {
                      double g = (so + si * nn) / (1 - nn * nn);
                      if (!has || e->size() || !close(inh, g, std::fabs(g) + 1, 1e-8)) fail("dirichlet-sharp", "%s: Dirichlet node %u at an edge: constrained %d, flux %g, continuous gradient gives %g", what, (unsigned)i, has, inh, g);
                    }
                }
              if (nd > 2 && b.continuos_gradient && has && !std::isfinite(inh)) fail("dirichlet-finite", "%s: Dirichlet node %u prescribed the flux %g", what, (unsigned)i, inh);
            }
        }
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        {
          if (!cs.is_element(i)) fail("cpu-set", "%s: owned node %u missing from the constraint index set", what, (unsigned)i);
        }
      stat("nodes", b.dh.n_dofs());
    }
}
template <int dim> void residual(World<dim> &w, const char *what, const TV &data)
{
  auto &b = w.bem;
  auto &phi = w.bc.phi, &dn = w.bc.dphi_dn;
  auto N = w.vec(), D = w.vec();
  if (b.solution_method == "FMA") { b.fma.generate_multipole_expansions(phi, dn); b.fma.multipole_matr_vect_products(phi, dn, N, D); }
  else { b.neumann_matrix.vmult(N, phi); b.dirichlet_matrix.vmult(D, dn); }
  double sc = 1e-30;
  for (gi i = 0; i < b.dh.n_dofs(); ++i) sc = std::max(sc, std::fabs((double)N(i)) + std::fabs((double)D(i)) + std::fabs((double)phi(i)));
  for (gi i = 0; i < b.dh.n_dofs(); ++i)
    if (!b.constraints.is_constrained(i))
      {
        double r = b.alpha(i) * phi(i) + N(i) - D(i);
        if (!(std::fabs(r) <= 1e-7 * sc)) fail("equation", "%s: row %u: alpha phi + N phi - D dphi_dn = %g (scale %g)", what, (unsigned)i, r, sc);
      }
  for (gi i = 0; i < b.dh.n_dofs(); ++i)
    if (b.constraints.is_constrained(i))
      {
        double u = b.dirichlet_nodes(i) == 0 ? (double)phi(i) : (double)dn(i), r = u - b.constraints.get_inhomogeneity(i);
        for (auto &x : *b.constraints.get_constraint_entries(i)) r -= x.second * (b.dirichlet_nodes(x.first) == 0 ? (double)phi(x.first) : (double)dn(x.first));
        if (!(std::fabs(r) <= 1e-7 * (1 + std::fabs(u) + sc))) fail("constraint", "%s: row %u misses its constraint by %g", what, (unsigned)i, r);
      }
}
template <int dim> void p15(World<dim> &w, const char *what, bool full)
{
  auto &b = w.bem;
  std::vector<double> phi0, dn0;
  for (int rep = 0; rep < 2; ++rep)
    {
      if (full) // through the public entry point
        {
          try { w.bc.solve_problem(); } catch (std::exception &e) { stat("no-convergence"); return; }
          auto d = data(w);
          double shift = 0;
          auto p = w.nodes();
          if (!b.have_dirichlet_bc)
            {
              gi f = *b.this_cpu_set.begin();
              if (!close(w.bc.phi(f), w.bc.potential.value(p[f]), 1 + std::fabs(w.bc.phi(f)), 1e-10)) fail("shift", "%s: pure Neumann: potential at the reference node %g, prescribed %g", what, (double)w.bc.phi(f), w.bc.potential.value(p[f]));
            }
          (void)shift;
          for (gi i = 0; i < b.dh.n_dofs(); ++i)
            {
              double f = d.dir[i] ? (double)w.bc.phi(i) : (double)w.bc.dphi_dn(i);
              if (d.given[i] == 1 && !close(f, d.val[i], 1 + std::fabs(d.val[i]))) fail("data", "%s: node %u (%s): %.12g after the solve, prescribed %.12g", what, (unsigned)i, d.dir[i] ? "Dirichlet" : "Neumann", f, d.val[i]);
            }
          if (b.have_dirichlet_bc) residual(w, what, w.bc.tmp_rhs);
        }
      else // arbitrary data straight into solve
        {
          w.bc.phi.reinit(b.this_cpu_set, MPI_COMM_WORLD);
          w.bc.dphi_dn.reinit(b.this_cpu_set, MPI_COMM_WORLD);
          w.bc.tmp_rhs.reinit(b.this_cpu_set, MPI_COMM_WORLD);
          b.compute_normals();
          static std::vector<double> val;
          if (!rep) { val.clear(); auto t = w.twins(); val.resize(b.dh.n_dofs()); for (gi i = 0; i < val.size(); ++i) val[i] = *t[i].begin() == i ? uni(-1, 1) : val[*t[i].begin()]; }
          auto dir = w.dirichlet();
          for (gi i = 0; i < b.dh.n_dofs(); ++i)
            {
              w.bc.tmp_rhs(i) = val[i];
              if (dir[i]) { w.bc.phi(i) = val[i]; w.bc.dphi_dn(i) = rep ? 7 : 0; } else { w.bc.dphi_dn(i) = val[i]; w.bc.phi(i) = rep ? 7 : 0; }
            }
          try { b.solve(w.bc.phi, w.bc.dphi_dn, w.bc.tmp_rhs); } catch (std::exception &e) { stat("no-convergence"); return; }
          for (gi i = 0; i < b.dh.n_dofs(); ++i)
            {
              double f = dir[i] ? (double)w.bc.phi(i) : (double)w.bc.dphi_dn(i);
              if (f != val[i]) fail("data", "%s: node %u: %.12g after the solve, prescribed %.12g", what, (unsigned)i, f, val[i]);
            }
          if (b.have_dirichlet_bc) residual(w, what, w.bc.tmp_rhs);
        }
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        {
          if (!std::isfinite((double)w.bc.phi(i)) || !std::isfinite((double)w.bc.dphi_dn(i))) fail("finite", "%s: node %u: phi %g, dphi_dn %g", what, (unsigned)i, (double)w.bc.phi(i), (double)w.bc.dphi_dn(i));
          if (rep && b.have_dirichlet_bc && (!close(w.bc.phi(i), phi0[i], 1 + std::fabs(phi0[i]), 1e-6) || !close(w.bc.dphi_dn(i), dn0[i], 1 + std::fabs(dn0[i]), 1e-6)))
            fail("repeat", "%s: node %u: second solve gives phi %.9g, dphi_dn %.9g, first %.9g, %.9g", what, (unsigned)i, (double)w.bc.phi(i), (double)w.bc.dphi_dn(i), phi0[i], dn0[i]);
        }
      phi0.clear(); dn0.clear();
      for (gi i = 0; i < b.dh.n_dofs(); ++i) { phi0.push_back(w.bc.phi(i)); dn0.push_back(w.bc.dphi_dn(i)); }
      stat("solves");
    }
}
template <int dim> void p19(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  auto rhs = w.random();
  b.compute_normals();
  b.assemble_system();
  b.compute_alpha();
  for (auto i : b.this_cpu_set) b.alpha(i) = uni(.2, .8);
  auto dir = w.dirichlet();
  for (int rep = 0; rep < 2; ++rep)
    {
      b.compute_constraints(b.constr_cpu_set, b.constraints, rhs);
      b.preconditioner_band = rep ? b.preconditioner_band : std::max(2u, (unsigned)b.dh.n_dofs() / (unsigned)irand(1, 4));
      b.assemble_preconditioner();
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        for (auto e = b.band_system.begin(i); e != b.band_system.end(i); ++e)
          {
            gi j = e->column();
            double x, v = e->value();
            if (b.constraints.is_constrained(i)) x = i == j ? 1 : 0; // the constraint row is represented by its diagonal
            else x = dir[j] ? -b.dirichlet_matrix(i, j) : b.neumann_matrix(i, j) + (i == j ? (double)b.alpha(i) : 0.);
            if (b.constraints.is_constrained(i) && i != j) { for (auto &c : *b.constraints.get_constraint_entries(i)) if (c.first == j && v != 0) x = -c.second; }
            if (!close(v, x, std::fabs(x) + 1e-3)) fail("band", "%s: entry (%u,%u) is %.10g, the constrained operator has %.10g (row %s, column %s)", what, (unsigned)i, (unsigned)j, v, x, b.constraints.is_constrained(i) ? "constrained" : dir[i] ? "Dirichlet" : "Neumann", dir[j] ? "Dirichlet" : "Neumann");
            stat("entries");
          }
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        {
          gi lo = i > b.preconditioner_band / 2 ? i - b.preconditioner_band / 2 : 0, hi = std::min<gi>(i + b.preconditioner_band / 2, b.dh.n_dofs());
          gi got = 0;
          for (auto e = b.band_system.begin(i); e != b.band_system.end(i); ++e) got += e->column() >= lo && e->column() < hi;
          if (got != hi - lo) fail("pattern", "%s: row %u holds %u entries of its band [%u,%u)", what, (unsigned)i, (unsigned)got, (unsigned)lo, (unsigned)hi);
        }
    }
}
template <int dim> void p19fma(World<dim> &w, const char *what)
{
  auto &b = w.bem;
  auto rhs = w.random();
  b.compute_normals();
  b.fma.generate_octree_blocking();
  b.fma.direct_integrals();
  b.fma.multipole_integrals();
  auto alpha = w.random(.2, .8);
  auto dir = w.dirichlet();
  b.compute_constraints(b.constr_cpu_set, b.constraints, rhs);
  for (int rep = 0; rep < 2; ++rep)
    {
      b.fma.FMA_preconditioner(alpha, b.constraints);
      auto &M = b.fma.final_preconditioner;
      for (gi i = 0; i < b.dh.n_dofs(); ++i)
        {
          std::map<gi, double> want;
          if (b.constraints.is_constrained(i)) { want[i] = 1; for (auto &c : *b.constraints.get_constraint_entries(i)) want[c.first] -= c.second; }
          else for (gi j = 0; j < b.dh.n_dofs(); ++j)
            if (b.fma.init_prec_sparsity_pattern.exists(i, j)) want[j] = dir[j] ? -b.fma.prec_dirichlet_matrix.el(i, j) : b.fma.prec_neumann_matrix.el(i, j) + (i == j ? (double)alpha(i) : 0.);
          for (auto &x : want)
            {
              double v = M.el(i, x.first);
              if (!close(v, x.second, std::fabs(x.second) + 1e-3)) fail("fma", "%s: entry (%u,%u) is %.10g, the constrained operator has %.10g (row %s, column %s)", what, (unsigned)i, (unsigned)x.first, v, x.second, b.constraints.is_constrained(i) ? "constrained" : dir[i] ? "Dirichlet" : "Neumann", dir[x.first] ? "Dirichlet" : "Neumann");
              stat("entries");
            }
          for (auto e = M.begin(i); e != M.end(i); ++e)
            if (!want.count(e->column()) && e->value() != 0) fail("fma-extra", "%s: extra entry (%u,%u) = %g", what, (unsigned)i, (unsigned)e->column(), (double)e->value());
        }
    }
}
// ---------------------------------------------------------------- P12
struct Op { mutable TV keep; void vmult(TV &d, const TV &s) const { for (auto i : d.locally_owned_elements()) { d(i) = 3 * s(i) + i; } } };
void p12()
{
  for (int rep = 0; rep < (P == "P12" ? 60 : 0); ++rep)
    {
      unsigned n = irand(1, 12);
      IndexSet is(n); is.add_range(0, n); is.compress();
      AffineConstraints<double> c;
      std::vector<int> role(n);
      for (unsigned i = 0; i < n; ++i) role[i] = irand(0, 2);
      for (unsigned i = 0; i < n; ++i)
        if (role[i] == 2)
          {
            c.add_line(i);
            for (unsigned j = 0; j < n; ++j) if (role[j] != 2 && irand(0, 2) == 0) c.add_entry(i, j, uni(-2, 2));
            if (irand(0, 1)) c.set_inhomogeneity(i, uni(-3, 3));
          }
      c.close();
      Op op;
      ConstrainedOperator<TV, Op> co(op, c, is, MPI_COMM_WORLD);
      TV src(is, MPI_COMM_WORLD), dst(is, MPI_COMM_WORLD), rhs(is, MPI_COMM_WORLD);
      for (unsigned i = 0; i < n; ++i) { src(i) = uni(-1, 1); dst(i) = uni(-9, 9); rhs(i) = uni(-1, 1); }
      TV s0 = src, r0 = rhs;
      co.vmult(dst, src);
      co.distribute_rhs(rhs);
      for (unsigned i = 0; i < n; ++i)
        {
          double e = 3 * s0(i) + i, r = r0(i);
          if (c.is_constrained(i)) { e = s0(i); for (auto &x : *c.get_constraint_entries(i)) e -= x.second * s0(x.first); r = c.get_inhomogeneity(i); }
          if (!close(dst(i), e, 1 + std::fabs(e), 1e-12)) fail("vmult", "n=%u row %u (%s): %.12g, specified %.12g", n, i, c.is_constrained(i) ? "constrained" : "free", (double)dst(i), e);
          if (rhs(i) != r) fail("rhs", "n=%u row %u (%s): %.12g, specified %.12g", n, i, c.is_constrained(i) ? "constrained" : "free", (double)rhs(i), r);
          if (src(i) != s0(i)) fail("arg", "the argument changed in row %u", i);
        }
      stat("operators");
    }
}
template <int dim> void all(World<dim> &w, const std::string &what)
{
  const char *s = what.c_str();
  if (on("P13")) p13(w, s);
  if (on("P14")) p14(w, s);
  if (on("P11")) p11(w, s);
  if (on("P15")) { p15(w, s, true); p15(w, s, false); }
  if (on("P19")) { if (w.o.method == "FMA") p19fma(w, s); else p19(w, s); }
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1); started();
  P = argv[1];
  p12();
  int N = P == "P12" ? 0 : thorough(argc, argv) ? 40 : 10;
  for (int n = 0; n < N; ++n)
    {
      Opts o;
      o.dirichlet = {1, 3};
      o.neumann = {0, 4};
      o.cont = n % 2;
      o.order = o.vorder = (n % 5 == 3) ? 2 : 1;
      o.potential = "x*y-2*z+0.3";
      o.wind = "y;x;-2";
      if (on("P15") || on("P19")) o.method = n % 3 == 2 ? "FMA" : "Direct";
      o.leaf = 1000;
      o.trunc = 4;
      if (o.method == "FMA") o.order = o.vorder = 1;
      {
        World<3> w(o);
        auto b = random_box(2, n % 4 == 0 ? 2 : 5);
        if (n % 4 == 1) for (auto &g : b.group) g = irand(0, 2); // some shared edges
        if (n % 5 == 4) for (auto &m : b.mat) m = 0;             // pure Neumann
        auto s = box(b);
        if (n % 3 == 0) // one flat side split into two patches
          { int k = 0; for (auto &p : s) if (p.group == b.group[2]) { p.group = 10 + (k++ % 2); } }
        if (n % 6 == 5) { int k = 20; for (auto &p : s) p.group = k++; } // every panel a patch: up to eight copies of a node
        w.mesh(s);
        if (n % 4 == 3) // locally refined: hanging nodes inside a patch
          { auto c = w.dom.tria.begin_active(); c->set_refine_flag(); w.dom.tria.execute_coarsening_and_refinement(); }
        w.bem.reinit();
        all(w, "3D " + o.method + " case " + std::to_string(n));
        if (n % 2) { w.bem.reinit(); all(w, "3D reinit " + o.method + " case " + std::to_string(n)); }
      }
      if (o.method == "Direct")
      {
        o.potential = "x*y+0.3"; o.wind = "y;x";
        World<2> w(o);
        auto s = random_polygon(n % 4 == 0 ? 2 : 5, n % 3 == 1);
        w.mesh(s);
        w.bem.reinit();
        all(w, "2D case " + std::to_string(n));
      }
    }
  return done();
}
