From 6a63a4fb6c45744bcb5ad5546a2279ce7f3ff630 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 01/20] fix: hypersingular kernel returns a rank-2 tensor on
 its unreachable branch

The function template could not be instantiated: the default branch returned a
Point<dim> where a Tensor<2, dim> is declared.
---
 include/laplace_kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/laplace_kernel.h b/include/laplace_kernel.h
index ac8e6c4..3439495 100644
--- a/include/laplace_kernel.h
+++ b/include/laplace_kernel.h
@@ -84,7 +84,7 @@ namespace LaplaceKernel
 
         default:
           Assert(false, ExcInternalError());
-          return Point<dim>();
+          return Tensor<2, dim>();
       }
   }
 
-- 
2.43.0


From 148e2bc95ae6a8df4618e82c2ca49796726261fd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 02/20] fix: diagonal of the 3D hypersingular kernel

The loop over the other two components stopped at the diagonal index instead of
skipping it, so the first two diagonal entries missed terms and the tensor was
not trace free.
---
 include/laplace_kernel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/laplace_kernel.h b/include/laplace_kernel.h
index 3439495..6c1ee80 100644
--- a/include/laplace_kernel.h
+++ b/include/laplace_kernel.h
@@ -72,8 +72,9 @@ namespace LaplaceKernel
                 if (i == j)
                   {
                     Hyper[j][j] = 2 * (R[j] * R[j]);
-                    for (unsigned int k = 0; k < dim && k != i; ++k)
-                      Hyper[j][j] -= (R[k] * R[k]);
+                    for (unsigned int k = 0; k < dim; ++k)
+                      if (k != i)
+                        Hyper[j][j] -= (R[k] * R[k]);
                   }
                 else
                   Hyper[i][j] = 3 * R[i] * R[j];
-- 
2.43.0


From 70c28ae71797bf58a143e09e15298a62981115b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/20] fix: copy every entry of a LocalExpansionCoeff table

The copy constructor passed an element count to memcpy, which takes bytes, so
seven eighths of the copied table stayed uninitialised.
---
 source/local_expansion_coeff.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/local_expansion_coeff.cc b/source/local_expansion_coeff.cc
index c1eea65..9eabbfe 100644
--- a/source/local_expansion_coeff.cc
+++ b/source/local_expansion_coeff.cc
@@ -30,7 +30,9 @@ LocalExpansionCoeff::LocalExpansionCoeff(const LocalExpansionCoeff &orig)
 {
   _p     = orig._p;
   _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
-  memcpy(_coeff, orig._coeff, this->getNumberOfElements());
+  memcpy(_coeff,
+         orig._coeff,
+         sizeof(double) * this->getNumberOfElements());
 }
 
 LocalExpansionCoeff::~LocalExpansionCoeff()
-- 
2.43.0


From 2fc7713faefc6a929a70f494295f185766aa27b6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 04/20] fix: LocalExpansionCoeff owns its table on assignment
 and copies of empty tables

---
 include/local_expansion_coeff.h |  2 ++
 source/local_expansion_coeff.cc | 25 +++++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/local_expansion_coeff.h b/include/local_expansion_coeff.h
index 4d5499c..8530440 100644
--- a/include/local_expansion_coeff.h
+++ b/include/local_expansion_coeff.h
@@ -21,6 +21,8 @@ public:
   LocalExpansionCoeff();
   LocalExpansionCoeff(const unsigned int &p);
   LocalExpansionCoeff(const LocalExpansionCoeff &orig);
+  LocalExpansionCoeff &
+  operator=(const LocalExpansionCoeff &orig);
   double
   get(const unsigned int &n,
       const unsigned int &m,
diff --git a/source/local_expansion_coeff.cc b/source/local_expansion_coeff.cc
index 9eabbfe..7d660e2 100644
--- a/source/local_expansion_coeff.cc
+++ b/source/local_expansion_coeff.cc
@@ -8,6 +8,7 @@
 #include "local_expansion_coeff.h"
 
 #include <iostream>
+#include <utility>
 
 #include "string.h"
 
@@ -29,10 +30,26 @@ LocalExpansionCoeff::LocalExpansionCoeff(const unsigned int &p)
 LocalExpansionCoeff::LocalExpansionCoeff(const LocalExpansionCoeff &orig)
 {
   _p     = orig._p;
-  _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
-  memcpy(_coeff,
-         orig._coeff,
-         sizeof(double) * this->getNumberOfElements());
+  _coeff = NULL;
+  if (orig._coeff != NULL)
+    {
+      _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
+      memcpy(_coeff,
+             orig._coeff,
+             sizeof(double) * this->getNumberOfElements());
+    }
+}
+
+LocalExpansionCoeff &
+LocalExpansionCoeff::operator=(const LocalExpansionCoeff &orig)
+{
+  if (this != &orig)
+    {
+      LocalExpansionCoeff copy(orig);
+      std::swap(_p, copy._p);
+      std::swap(_coeff, copy._coeff);
+    }
+  return *this;
 }
 
 LocalExpansionCoeff::~LocalExpansionCoeff()
-- 
2.43.0


From c45713cf839cfce4a3a93772d9c00a42ffe747d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 05/20] fix: expansions survive self-assignment and copies of
 default-constructed objects

---
 source/local_expansion.cc     | 30 ++++++++++++++++++++++--------
 source/multipole_expansion.cc | 28 ++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 2f1e511..1172997 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -48,10 +48,15 @@ LocalExpansion::LocalExpansion(const LocalExpansion &other)
   this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
   this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
   this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_L_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
 }
 
@@ -64,15 +69,24 @@ LocalExpansion::~LocalExpansion()
 LocalExpansion &
 LocalExpansion::operator=(const LocalExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p                  = other.p;
   this->assLegFunction     = other.assLegFunction;
   this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
   this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
   this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  if (_L_n_m != NULL)
+    delete[] _L_n_m;
+  this->_L_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 8dbe221..61e39e1 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -39,10 +39,15 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_M_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
 }
 
@@ -51,15 +56,22 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
 MultipoleExpansion &
 MultipoleExpansion::operator=(const MultipoleExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
   if (_M_n_m != NULL)
     delete[] _M_n_m;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  this->_M_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
-- 
2.43.0


From 08fedfc6705b7f9ed8dc78f42d083c9891eebacf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 06/20] fix: LocalExpansion::Add(real, imag) writes the stored
 (non-negative) orders only

---
 source/local_expansion.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 1172997..5b2e849 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -106,9 +106,7 @@ LocalExpansion::Add(const std::vector<double> &real,
         {
           std::complex<double> a(real.at(count), imag.at(count));
           sum += norm(a);
-          this->AddToCoeff(n, n + m, a);
-          a = std::conj(a);
-          this->AddToCoeff(n, n - m, a);
+          this->AddToCoeff(n, m, a);
           count++;
         }
     }
-- 
2.43.0


From 7caa98818698e845cb92439e25bfb10e8a36f468 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 07/20] fix: BEMProblem::compute_rhs overwrites its result with
 the fast multipole method too

---
 source/bem_problem.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 5c38cc1..950f9af 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1661,6 +1661,7 @@ BEMProblem<dim>::compute_rhs(TrilinosWrappers::MPI::Vector       &dst,
   matrVectProdN.reinit(this_cpu_set, mpi_communicator);
   matrVectProdD.reinit(this_cpu_set, mpi_communicator);
 
+  dst = 0;
 
   serv_phi.scale(dirichlet_nodes);
   serv_dphi_dn.scale(neumann_nodes);
-- 
2.43.0


From dbe80e2b8b4b04c7d5877e194a4a9c21bddc4e2b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 08/20] fix: a node shared by Dirichlet and Neumann panels
 keeps its Dirichlet datum

---
 source/boundary_conditions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 60ced12..90c787d 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -279,7 +279,9 @@ BoundaryConditions<dim>::prepare_bem_vectors()
                 // ("<<node_normals[j]<<")  "<<" pos ("<<node_coors[j]<<")
                 // "<<node_coors[j](0)<<std::endl;
               }
-            else
+            // a node shared with a Dirichlet panel carries the potential, the
+            // fluxes of its other panels are not data
+            else if (bem.dirichlet_nodes(local_dof_indices[j]) == 0)
               {
                 for (auto nbound : comp_dom.neumann_boundary_ids)
                   if (cell->material_id() == nbound)
-- 
2.43.0


From 00dcba8d538e064f94c32ad546c3b942183ad266 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 09/20] fix: compute_constraints compares the normals of
 coincident Dirichlet nodes

---
 source/bem_problem.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 950f9af..7429b5f 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1978,10 +1978,11 @@ BEMProblem<dim>::compute_constraints(
                                          // + ((*it) -
                                          // start_per_process[this_mpi_process])
                                          // * dim + idim;//(*it)*dim+idim
-                            normal_distance += localized_normals[index1] *
-                                               localized_normals[index2];
+                            normal_distance += (localized_normals[index1] -
+                                                localized_normals[index2]) *
+                                               (localized_normals[index1] -
+                                                localized_normals[index2]);
                           }
-                        normal_distance /= normal_distance;
                         if (normal_distance < 1e-4)
                           {
                             c.add_line(*it);
-- 
2.43.0


From b3a5f019c24a7c9bf30e2e92f4629c546182a1c6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 10/20] fix: assemble_preconditioner takes the operator of the
 unknown of each column

---
 source/bem_problem.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 7429b5f..76c34c4 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -2199,6 +2199,8 @@ BEMProblem<dim>::assemble_preconditioner()
   else
     band_system = 0;
 
+  // the unknown of a column, potential or flux, may belong to another process
+  const Vector<double> localized_dirichlet_nodes(dirichlet_nodes);
 
   for (types::global_dof_index i = 0; i < dh.n_dofs(); ++i)
     {
@@ -2228,7 +2230,7 @@ BEMProblem<dim>::assemble_preconditioner()
             {
               if (constraints.is_constrained(i) == false)
                 {
-                  if (dirichlet_nodes(i) == 0)
+                  if (localized_dirichlet_nodes(j) == 0)
                     {
                       // Nodo di Dirichlet
                       band_system.add(i, j, neumann_matrix(i, j));
-- 
2.43.0


From f371b743bf47ae205bb1cd987d79398cfa04c979 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 11/20] fix: FMA_preconditioner holds the constraint equation
 on constrained rows

---
 source/bem_fma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index a584ee9..e430f50 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3421,7 +3421,7 @@ BEMFMA<dim>::FMA_preconditioner(
                   {
                     final_preconditioner.set(i,
                                              (*entries)[j].first,
-                                             (*entries)[j].second);
+                                             -(*entries)[j].second);
                     // pcout<<i<<" "<<(*entries)[j].first<<"  *
                     // "<<(*entries)[j].second<<std::endl;
                   }
-- 
2.43.0


From 2dc839c038c5d26d7c4e6ea491f220461030885c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 12/20] fix: singular quadratures belong to the finite element
 and order they were built for

---
 source/bem_problem.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 76c34c4..f734849 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -426,7 +426,12 @@ BEMProblem<3>::get_singular_quadrature(const unsigned int index) const
 
 
 
-  static std::vector<Quadrature<2>> quadratures;
+  // one set of rules for each finite element and order
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<2>>>
+    cache;
+  std::vector<Quadrature<2>> &quadratures =
+    cache[std::make_pair(fe->get_name(), singular_quadrature_order)];
   {
     if (quadratures.size() == 0)
       for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
@@ -445,7 +450,12 @@ BEMProblem<2>::get_singular_quadrature(const unsigned int index) const
 {
   Assert(index < fe->dofs_per_cell, ExcIndexRange(0, fe->dofs_per_cell, index));
 
-  static std::vector<Quadrature<1>> quadratures;
+  // one set of rules for each finite element and order
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<1>>>
+    cache;
+  std::vector<Quadrature<1>> &quadratures =
+    cache[std::make_pair(fe->get_name(), singular_quadrature_order)];
   if (quadratures.size() == 0)
     for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
       {
-- 
2.43.0


From abf903f3738f7a499872481742d3b3bb9d719332 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 13/20] fix: nodes on Dirichlet panels of other processes are
 Dirichlet nodes

---
 source/bem_problem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index f734849..55059d9 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -603,7 +603,8 @@ BEMProblem<dim>::compute_dirichlet_and_neumann_dofs_vectors()
   unsigned int helper_dirichlet = 0;
   for (; cell != endc; ++cell)
     {
-      if (cell->subdomain_id() == this_mpi_process)
+      // every process visits every panel: a node it owns may lie on a Dirichlet
+      // panel of another process
         {
           bool dirichlet = false;
           for (auto dummy : comp_dom.dirichlet_boundary_ids)
-- 
2.43.0


From 46fea4e87320ac61cd09f92b46910b8d7a691413 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 14/20] fix: compute_errors reports the maximum of the nodal
 potential error under that name

---
 source/boundary_conditions.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 90c787d..3678b4c 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -413,8 +413,6 @@ BoundaryConditions<dim>::compute_errors()
                                           2 * (2 * bem.fe->degree + 1)),
                                         VectorTools::L2_norm);
 
-      phi_max_error = difference_per_cell.linfty_norm();
-
       //        }
       VectorTools::integrate_difference(*bem.mapping,
                                         bem.gradient_dh,
@@ -449,6 +447,7 @@ BoundaryConditions<dim>::compute_errors()
 
       phi_node_error *= -1.0;
       phi_node_error.add(1., localized_phi);
+      phi_max_error = phi_node_error.linfty_norm();
 
       Vector<double>              dphi_dn_node_error(bem.dh.n_dofs());
       std::vector<Vector<double>> dphi_dn_nodes_errs(bem.dh.n_dofs(),
-- 
2.43.0


From e959579ab1daf2ab0070e40d6912297e1bcd52db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:39:36 +0000
Subject: [PATCH 15/20] fix: make_edges_conformal does not write past the two
 neighbours of a boundary vertex

---
 source/computational_domain.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 830fd2c..b5d92d3 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1031,8 +1031,7 @@ ComputationalDomain<dim>::make_edges_conformal(
               if (vertex_on_boundary[i] == true &&
                   double_vertex_vector[i].size() == 1)
                 {
-                  std::vector<Point<dim>> nodes(
-                    GeometryInfo<dim - 1>::vertices_per_face);
+                  std::vector<Point<dim>> nodes;
                   for (types::global_dof_index kk = 0;
                        kk < vert_to_elems[i].size();
                        ++kk) // ogni faccia ha due estremi
@@ -1052,16 +1051,20 @@ ComputationalDomain<dim>::make_edges_conformal(
                               // "<<cell->face(f)->vertex(0)<<std::endl;
                               if (all_vertices[i].distance(
                                     cell->face(f)->vertex(0)) < tol)
-                                nodes[kk] = cell->face(f)->vertex(1);
+                                nodes.push_back(cell->face(f)->vertex(1));
                               else if (all_vertices[i].distance(
                                          cell->face(f)->vertex(1)) < tol)
-                                nodes[kk] = cell->face(f)->vertex(0);
+                                nodes.push_back(cell->face(f)->vertex(0));
                             }
                         }
                       // std::cout<<std::endl;
                     }
                   // std::cout<<nodes[0]<<"    "<<ref_points[i]<<"
                   // "<<nodes[1]<<std::endl;
+                  // only the vertices in the middle of a cut edge have a parent
+                  // face: they have exactly two neighbors on the boundary
+                  if (nodes.size() != 2)
+                    continue;
                   // we can now compute the center of the parent cell face
                   Point<3> parent_face_center = 0.5 * (nodes[0] + nodes[1]);
                   for (auto jt = edge_cells.begin(); jt != edge_cells.end();
-- 
2.43.0


From 6ff9e2152581554e25ca3e206f449ac2b1734661 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 16/20] fix: CachedNURBSPatchManifold keys its cache by the
 exact coordinates of the point

---
 include/cached_nurbs_patch_manifold.h | 13 +++++++------
 source/cached_nurbs_patch_manifold.cc | 16 ++++++++--------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/cached_nurbs_patch_manifold.h b/include/cached_nurbs_patch_manifold.h
index ff9607c..78099c6 100644
--- a/include/cached_nurbs_patch_manifold.h
+++ b/include/cached_nurbs_patch_manifold.h
@@ -1,7 +1,8 @@
 #include <deal.II/opencascade/manifold_lib.h>
 #include <deal.II/opencascade/utilities.h>
 
-#include <unordered_map>
+#include <array>
+#include <map>
 DEAL_II_NAMESPACE_OPEN
 
 
@@ -33,7 +34,7 @@ public:
   // virtual Tensor<1,3> get_tangent_vector (const Point<3> &x1,
   //                    const Point<3> &x2) const;
 
-  inline std::unordered_map<std::size_t, Point<dim>> &
+  inline std::map<std::array<double, spacedim>, Point<dim>> &
   get_projections_cache()
   {
     return projections_cache;
@@ -42,10 +43,10 @@ public:
   mutable types::global_dof_index new_pull_backs, cache_hits;
 
 private:
-  mutable std::unordered_map<std::size_t, Point<dim>> projections_cache;
-  double                                              tolerance;
-  TopoDS_Face                                         face;
-  const FlatManifold<dim, dim>                        sub_manifold;
+  mutable std::map<std::array<double, spacedim>, Point<dim>> projections_cache;
+  double                                                     tolerance;
+  TopoDS_Face                                                face;
+  const FlatManifold<dim, dim>                               sub_manifold;
 };
 
 
diff --git a/source/cached_nurbs_patch_manifold.cc b/source/cached_nurbs_patch_manifold.cc
index 092a9c7..78ad023 100644
--- a/source/cached_nurbs_patch_manifold.cc
+++ b/source/cached_nurbs_patch_manifold.cc
@@ -13,12 +13,14 @@
 #include <cached_nurbs_patch_manifold.h>
 DEAL_II_NAMESPACE_OPEN
 
+// the cache key of a point: its coordinates, in full precision
 template <int spacedim>
-std::string
-point_to_string(const Point<spacedim> &point)
+std::array<double, spacedim>
+point_to_key(const Point<spacedim> &point)
 {
-  std::string result = std::to_string(point[0]) + std::to_string(point[1]) +
-                       std::to_string(point[2]);
+  std::array<double, spacedim> result;
+  for (unsigned int d = 0; d < spacedim; ++d)
+    result[d] = point[d];
   return result;
 }
 
@@ -136,8 +138,7 @@ Point<dim>
 CachedNURBSPatchManifold<dim, spacedim>::pull_back(
   const Point<spacedim> &space_point) const
 {
-  auto it_1 = projections_cache.find(
-    std::hash<std::string>()(point_to_string(space_point)));
+  auto it_1 = projections_cache.find(point_to_key(space_point));
   Point<dim> result;
   if (it_1 != projections_cache.end())
     {
@@ -153,8 +154,7 @@ CachedNURBSPatchManifold<dim, spacedim>::pull_back(
 
       result[0] = proj_params.X();
       result[1] = proj_params.Y();
-      projections_cache.insert(
-        {std::hash<std::string>()(point_to_string(space_point)), result});
+      projections_cache.insert({point_to_key(space_point), result});
       new_pull_backs += 1;
     }
 
-- 
2.43.0


From 2edd9bd30a3b701bf6e22608e5e429f8b933de19 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 17/20] fix: list nodes under the octree block that holds them

---
 source/bem_fma.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index e430f50..fe1cd65 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -4275,11 +4275,11 @@ BEMFMA<dim>::generate_octree_blocking()
                             }
                         }
                       std::vector<types::global_dof_index> blockNodesList =
-                        blocks[jj]->GetBlockNodeList();
+                        blocks[blocksCount]->GetBlockNodeList();
                       for (types::global_dof_index k = 0;
                            k < blockNodesList.size();
                            k++)
-                        dof_to_block[blockNodesList[k]].push_back(jj);
+                        dof_to_block[blockNodesList[k]].push_back(blocksCount);
                     }
                   else
                     {
@@ -4405,11 +4405,11 @@ BEMFMA<dim>::generate_octree_blocking()
                             }
                         }
                       std::vector<types::global_dof_index> blockNodesList =
-                        blocks[jj]->GetBlockNodeList();
+                        blocks[blocksCount]->GetBlockNodeList();
                       for (types::global_dof_index k = 0;
                            k < blockNodesList.size();
                            k++)
-                        dof_to_block[blockNodesList[k]].push_back(jj);
+                        dof_to_block[blockNodesList[k]].push_back(blocksCount);
                     }
                   else
                     {
-- 
2.43.0


From 7159479865c9c947779c941cae6456e2aa35e7bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 18/20] fix: make room for every octree block

---
 source/bem_fma.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index fe1cd65..51e2300 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3887,9 +3887,13 @@ BEMFMA<dim>::generate_octree_blocking()
         delete blocks[ii];
     }
 
+  // besides the root, each level has at most one block for each quadrature
+  // point and each node
   types::global_dof_index maxNumBlocks =
-    num_octree_levels * fma_dh->get_triangulation().n_active_cells() *
-    fe_v.n_quadrature_points;
+    1 +
+    num_octree_levels * (fma_dh->get_triangulation().n_active_cells() *
+                           fe_v.n_quadrature_points +
+                         fma_dh->n_dofs());
   // unsigned int maxNumBlocks = 0;
   // for (unsigned int ii = 0; ii < num_octree_levels + 1;  ii++)
   //  {
-- 
2.43.0


From c01dc8ffd1b5c37ec980eee3c9753966c3934494 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 19/20] fix: let the octree root enclose the quadrature points
 of curved panels

---
 source/bem_fma.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 51e2300..df02e4d 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3881,6 +3881,15 @@ BEMFMA<dim>::generate_octree_blocking()
         }
     }
 
+  // on curved panels the quadrature points can lie further out than the nodes
+  for (const auto &cell : fma_dh->active_cell_iterators())
+    {
+      fe_v.reinit(cell);
+      for (const Point<dim> &q_point : fe_v.get_quadrature_points())
+        for (unsigned int j = 0; j < dim; j++)
+          max_coor_value = std::max(max_coor_value, std::abs(q_point(j)));
+    }
+
   if (blocks.size() > 0)
     {
       for (types::global_dof_index ii = 0; ii < num_blocks; ii++)
-- 
2.43.0


From 2bf439bbd12c5c39978f8e05a7136da0318e6a9b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 20/20] fix: do not delete the shared singular quadratures in
 two dimensions

---
 source/bem_fma.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index df02e4d..3a9e0b7 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -1005,9 +1005,6 @@ BEMFMA<dim>::direct_integrals()
                                      fe_v_singular.JxW(q));
                                 }
                             }
-                          if (dim == 2)
-                            delete singular_quadrature;
-
                         } // end else
 
                       helper_index += 1;
-- 
2.43.0

