"""Writes properties.jsonl (the text of record is properties.jsonl itself)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe, 'hook_needed': None}})


p('P01', 'Tabulated Legendre functions are the normalised associated Legendre functions',
  'For every degree n up to 20, order 0 <= m <= n and argument x, the value returned is sqrt((n-m)!/(n+m)!) times the associated Legendre function of degree n and order m without Condon-Shortley phase, and the derivative returned is its exact derivative (for odd orders with the sqrt(1-x^2) factor of the angle parametrisation). The two tables are consistent with each other for every degree and order.',
  ['inputs'], 'all degrees 0..20, all orders 0..degree, all real x in (-1,1)',
  'The stable tests evaluate expansions of one or two fixed orders at a few points; each of the 462 closed-form polynomials is independent code, and a wrong coefficient in one of them shows only for that degree and order.',
  ['source/ass_leg_function.cc', 'include/ass_leg_function.h'],
  [('one function per degree and order, dispatched through a table', 'source/ass_leg_function.cc: AssLegFunction::AssLegFunction, GetAssLegFunSph, GetAssLegFunSphDeriv')],
  ['GetAssLegFunSph', 'GetAssLegFunSphDeriv', 'AssLegFunSph', 'AssLegFunSphDeriv'])
p('P02', 'Laplace kernels are the free-space Green function and its derivatives',
  'For every nonzero vector R, in two and three dimensions, the single-layer kernel is the free-space Green function of the Laplacian, the double-layer kernel is its gradient and the hypersingular kernel its (symmetric, trace-free) second derivative, up to the documented orientation: in three dimensions the hypersingular kernel and the routine returning all three kernels differentiate at the source point, which flips the sign of both gradient and second derivative. Every entry point (single kernels and combined routines) agrees with this.',
  ['inputs'], 'all R != 0 in 2D and 3D, both overload families',
  'The stable tests touch the kernels only through one fixed geometry of the singular quadrature in 3D.',
  ['include/laplace_kernel.h'], [('closed formulas', 'include/laplace_kernel.h')], ['LaplaceKernel::single_layer', 'double_layer', 'hypersingular', 'kernels'])
p('P03', 'Multipole moments represent their sources and evaluate to their potential',
  'Adding a point charge or a normal dipole to a multipole expansion adds exactly the solid harmonic (respectively its derivative along the unit normal) of the source about the centre times its strength to every stored moment; scaling-and-adding another expansion is exactly linear and leaves its argument alone; evaluation returns the truncated outer series of the moments. A zero source, a zero factor or a zero expansion changes nothing, and an expansion that has received a source is never treated as zero.',
  ['inputs', 'histories'], 'all orders up to 10 (20 in thorough), all centres, source positions, normals, strengths and earlier contents',
  'The stable tests compare printed values for one order and a few points on one geometry; signs, normalisations or orders that vanish there are free to be wrong.',
  ['source/multipole_expansion.cc', 'include/multipole_expansion.h'], [('Add / AddNormDer / Evaluate', 'source/multipole_expansion.cc')], ['MultipoleExpansion::GetCoeff', 'MultipoleExpansion::Evaluate', 'is_zero'])
p('P04', 'Multipole and local expansions translate without loss',
  'Moving a multipole expansion to another centre, converting it to a local expansion about a well-separated centre, and moving a local expansion to another centre add to the target exactly the coefficients given by the translation theorems of the truncated series, for every order and relative position of the centres, and add the coefficients unchanged when the centres coincide. Evaluating a local expansion returns its truncated inner series, and a zero expansion contributes nothing.',
  ['inputs', 'histories'], 'all orders up to 10, all pairs of centres, all coefficients and earlier contents of the target',
  'The stable tests translate along a few fixed directions with one order, and compare low-precision output.',
  ['source/multipole_expansion.cc', 'source/local_expansion.cc', 'include/local_expansion.h', 'source/local_expansion_coeff.cc'],
  [('Add overloads with precomputed coefficient tables', 'source/local_expansion.cc, source/multipole_expansion.cc'), ('mExp_to_lExp_Coeff_Build / lExp_to_lExp_Coeff_Build / A_n_m_Matrix', 'include/local_expansion.h')],
  ['MultipoleExpansion::Add', 'LocalExpansion::Add', 'LocalExpansion::Evaluate'])
p('P05', 'Expansions and coefficient tables are safe values',
  'A copy or an assignment of an expansion or of a translation-coefficient table equals its source in every observable (all coefficients, centre, order, zero flag) and is independent of it from then on, also for self-assignment, for targets of another order and for default-constructed objects. Every table entry reads back exactly what was last stored for its indices, no access leaves the allocated storage, and no storage is used after release, released twice or lost.',
  ['inputs', 'histories'], 'all orders 0..10, all contents, all orders of a target being overwritten, all later writes and destructions',
  'The stable copy test copies one expansion once and prints it; aliasing, truncation of the copied bytes and lifetime errors need particular later operations.',
  ['source/multipole_expansion.cc', 'source/local_expansion.cc', 'source/local_expansion_coeff.cc'],
  [('copy constructors, assignment operators, destructors', 'source/multipole_expansion.cc, source/local_expansion.cc, source/local_expansion_coeff.cc')],
  ['GetCoeff', 'LocalExpansionCoeff::get', 'AddressSanitizer'])
p('P06', 'The octree partitions nodes and panels',
  'For every discretised surface and every tree depth and leaf capacity, each degree of freedom and each quadrature point belongs to exactly one block on its level, lies in that block\'s cube, and is handed down to exactly the one child whose octant contains it; a block is split only while it exceeds the leaf capacity or was split by its parent level rule, and every point ends in exactly one leaf. Parent and child links, block levels and child cubes (half the edge, inside the parent) are mutually consistent.',
  ['inputs', 'configurations'], 'all meshes, mappings, finite element degrees, depths and leaf capacities',
  'No stable test builds an octree.',
  ['source/bem_fma.cc', 'source/octree_block.cc', 'include/octree_block.h'],
  [('generate_octree_blocking', 'source/bem_fma.cc'), ('OctreeBlock containers', 'source/octree_block.cc')], ['BEMFMA blocks, dof_to_block, childlessList'])
p('P07', 'Every node-panel interaction is accounted exactly once',
  'For every pair of a collocation node and a quadrature point the octree lists put the interaction either in the directly integrated near field or in exactly one multipole-to-local or multipole evaluation on the chain of ancestors, never in both and never in none. Interactions handled through expansions are between blocks separated enough for the expansion to converge.',
  ['inputs', 'configurations'], 'all meshes, tree depths and leaf capacities',
  'No stable test runs the fast multipole method; a missing or duplicated pair of blocks changes the solution only slightly.',
  ['source/bem_fma.cc'], [('nearest-neighbour, intermediate and non-intermediate lists', 'source/bem_fma.cc: generate_octree_blocking'), ('direct_integrals, multipole_matr_vect_products', 'source/bem_fma.cc')],
  ['block interaction lists', 'init_prec_neumann_matrix sparsity'])
p('P08', 'The fast multipole products agree with the assembled operators',
  'For every density the fast multipole products with the single- and double-layer operators equal the products with the fully assembled collocation matrices up to the truncation error of the expansion order, and are linear in the density. The result does not depend on earlier products with the same object.',
  ['inputs', 'configurations', 'histories'], 'all densities, meshes, expansion orders, tree shapes and earlier products',
  'No stable test applies the fast multipole operator.',
  ['source/bem_fma.cc'], [('generate_multipole_expansions, multipole_matr_vect_products, direct_integrals, multipole_integrals', 'source/bem_fma.cc')], ['BEMFMA::multipole_matr_vect_products'])
p('P09', 'Assembled matrices hold the collocation integrals',
  'Each entry of the assembled double- and single-layer matrices is the sum over the panels carrying that shape function of the quadrature of kernel(node position, quadrature point) times shape function, using the singular rule exactly on panels containing the node or a node registered as coincident with it and the regular rule elsewhere; rows of all owned nodes are filled and no contribution is lost or counted twice.',
  ['inputs', 'configurations'], 'all meshes, element degrees, quadratures, coincident-node configurations and partitions',
  'No stable test assembles the global matrices.',
  ['source/bem_problem.cc'], [('assemble_system', 'source/bem_problem.cc')], ['neumann_matrix', 'dirichlet_matrix'])
p('P10', 'Operator, right-hand side and free term realise the boundary integral equation',
  'The system operator maps unknowns u (potential on Neumann nodes, normal derivative on Dirichlet nodes) to (alpha + N) u_N - D u_D and the right-hand side maps boundary data g to D g_N - (alpha + N) g_D, where N and D are the double- and single-layer operators, for the assembled and for the fast multipole variant alike (for problems with a Dirichlet part; pure Neumann problems are closed by fixing one potential value); hence operator(u) - rhs(g) vanishes exactly when the completed fields satisfy the boundary integral equation. The free-term coefficient is minus the double-layer operator applied to the constant one, so constants always satisfy the equation with zero flux, whatever was computed before.',
  ['inputs', 'configurations', 'histories'], 'all vectors, all splits into Dirichlet and Neumann nodes, both solution methods, all earlier calls',
  'No stable test applies the system operator; sign or mask errors that cancel on pure Neumann or pure Dirichlet problems need mixed data.',
  ['source/bem_problem.cc'], [('vmult, compute_rhs, compute_alpha', 'source/bem_problem.cc')], ['BEMProblem::vmult', 'compute_rhs', 'alpha'])
p('P11', 'Constraints tie coincident nodes correctly',
  'Among coincident nodes the potential is single-valued: every Neumann-side node is tied to one representative, or to the prescribed potential where the set has a Dirichlet side. Normal-derivative unknowns of coincident Dirichlet-side nodes are tied only when the sides share the tangent plane; where they meet at an angle they stay free, unless the continuous-gradient option prescribes them from the surface gradient of the potential. No node is constrained to itself or twice, and hanging nodes keep their interpolation constraint.',
  ['inputs', 'configurations'], 'all meshes, boundary condition splits, coincident-node sets and data',
  'No stable test builds the constraints; only particular corner configurations (Dirichlet meeting Neumann, three panels at a corner) distinguish the cases.',
  ['source/bem_problem.cc'], [('compute_constraints', 'source/bem_problem.cc')], ['BEMProblem::constraints'])
p('P12', 'Constrained rows of the operator are the constraint equations',
  'Applying the constrained operator to any vector gives, on each unconstrained owned row, the unconstrained operator, and on each constrained row the value minus the weighted sum of the values it is tied to; the right-hand side gets the constraint inhomogeneity on constrained rows and is untouched elsewhere. Hence any solution of the constrained system satisfies every constraint exactly.',
  ['inputs', 'configurations'], 'all operators, vectors and constraint sets',
  'No stable test uses the constrained operator.',
  ['include/constrained_matrix.h'], [('ConstrainedOperator::vmult, distribute_rhs', 'include/constrained_matrix.h')], ['ConstrainedOperator'])
p('P13', 'Nodes are classified and coincident nodes identified exactly',
  'A node is a Dirichlet node exactly if some panel containing it, on any process, carries a Dirichlet boundary id and a Neumann node otherwise, so the two indicator vectors are complementary; for elements with nodes on panel edges the coincident-node set of a node contains itself and exactly the other (non-hanging) edge nodes within the geometric tolerance, hence the relation is reflexive and symmetric. The renumbering vectors between original and partition-wise order are mutually inverse permutations.',
  ['inputs', 'configurations'], 'all meshes, boundary id assignments and partitions',
  'No stable test sets up the global problem.',
  ['source/bem_problem.cc'], [('compute_dirichlet_and_neumann_dofs_vectors, compute_double_nodes_set, compute_reordering_vectors', 'source/bem_problem.cc')], ['dirichlet_nodes', 'neumann_nodes', 'double_nodes_set'])
p('P14', 'Boundary data are imposed where and as prescribed',
  'On every node of a Dirichlet panel the prescribed potential at the node position, and on every node touching only Neumann panels the prescribed wind dotted with the node normal, is what enters both the solution field and the right-hand side data; nodes whose panels all carry neither id get zero flux. For pure Neumann problems the computed potential is shifted by one constant so that it matches the reference potential at one node.',
  ['inputs', 'configurations'], 'all meshes, boundary ids, potentials, winds and normals',
  'No stable test runs the boundary condition code.',
  ['source/boundary_conditions.cc'], [('prepare_bem_vectors, solve_problem', 'source/boundary_conditions.cc')], ['phi', 'dphi_dn', 'tmp_rhs'])
p('P15', 'A solve returns fields that satisfy data and equation',
  'After a solve the returned potential and flux carry the prescribed data on their respective nodes unchanged and the computed unknowns elsewhere, each in its own field; together they satisfy the discrete boundary integral equation on every unconstrained row to solver tolerance, for the direct and for the fast multipole method. Solving again with the same inputs gives the same answer.',
  ['inputs', 'configurations', 'histories'], 'all boundary data, splits, meshes, methods, earlier solves with the same object',
  'No stable test solves a boundary value problem.',
  ['source/bem_problem.cc', 'source/boundary_conditions.cc'], [('solve_system, solve', 'source/bem_problem.cc')], ['phi', 'dphi_dn'])
p('P16', 'Singular panel integrals follow the polar-coordinate expansion',
  'The strongly singular and hypersingular integrals of the kernel derivatives against each shape function equal the finite-part values defined by the polar expansion about the source point: the quadrature of the full integrand minus the subtracted singular terms plus their exact one-dimensional integrals, for every curved panel, every interior, edge or corner source position and every shape function. The second free term of the hypersingular equation is the angular integral of the curvature term of the same expansion.',
  ['inputs'], 'all panels and mappings, all source positions, all shape functions',
  'The stable tests compare a handful of hand-computed values for three geometries.',
  ['source/singular_kernel_integral.cc'], [('evaluate_VkNj_integrals, evaluate_WkNj_integrals, evaluate_free_term_b', 'source/singular_kernel_integral.cc')], ['SingularKernelIntegral'])
p('P17', 'Edge conformity and mesh ownership survive refinement',
  'After a refinement step of a conforming mesh, enforcing edge conformity restores it: no panel edge on a boundary shared by two patches is cut on one side only: panels on both sides of a geometrically shared edge end at the same refinement. Refinement by aspect ratio halves every panel beyond the requested ratio across its longer direction, and goes on until every panel is within it (or ten passes are made). Refinement keeps every panel\'s boundary id and manifold, and every active panel is owned by exactly one process.',
  ['inputs', 'configurations'], 'all meshes, refinement patterns and process counts',
  'No stable test refines a mesh.',
  ['source/computational_domain.cc'], [('make_edges_conformal, compute_double_vertex_cache, update_triangulation', 'source/computational_domain.cc')], ['ComputationalDomain::tria'])
p('P18', 'Domain parameters are read completely and in order',
  'Every boundary id listed in the Dirichlet and in the Neumann entries of the parameter file, and no other, is in the corresponding list after parsing, for any number of ids; all other entries of the driver, problem, fast multipole and boundary condition sections reach the fields they name, whatever was parsed before.',
  ['inputs', 'histories'], 'all parameter files, repeated parsing',
  'No stable test parses the domain parameters.',
  ['source/computational_domain.cc', 'source/bem_problem.cc', 'source/bem_fma.cc', 'source/boundary_conditions.cc'], [('parse_parameters', 'source/computational_domain.cc')], ['dirichlet_boundary_ids', 'neumann_boundary_ids'])
p('P19', 'The preconditioners take the entries of the true system',
  'Every entry of the sparse preconditioning matrix is the corresponding entry of the constrained system operator on its sparsity pattern: minus the single-layer entry in Dirichlet columns, the double-layer entry (plus free term on the diagonal) in Neumann columns. On constrained rows the near-field preconditioner of the fast multipole method holds the whole constraint equation and the band preconditioner of the direct method its diagonal.',
  ['inputs', 'configurations'], 'all matrices, node splits, constraints and bandwidths',
  'No stable test builds a preconditioner; a wrong entry only slows convergence.',
  ['source/bem_problem.cc', 'source/bem_fma.cc'], [('assemble_preconditioner', 'source/bem_problem.cc'), ('FMA_preconditioner', 'source/bem_fma.cc')], ['band_system', 'final_preconditioner matrix'])
p('P20', 'Recovered normals and gradients are the projections of the geometry and solution',
  'The nodal normal field is the mass-matrix projection of the panel normals, and the recovered gradient is the projection of surface gradient of the potential plus flux times normal; for a flat panel and linear potential both are exact at every node, on every component ordering and partition.',
  ['inputs', 'configurations'], 'all meshes, potentials and fluxes',
  'No stable test recovers gradients.',
  ['source/bem_problem.cc'], [('compute_normals, compute_gradients, compute_surface_gradients', 'source/bem_problem.cc')], ['vector_normals_solution', 'vector_gradients_solution'])
p('P21', 'Reported errors measure the distance to the prescribed exact fields',
  'Each reported error is the stated norm of the difference between the computed and the prescribed field: it is zero exactly when they agree at the nodes and scales linearly with the difference, for the potential, its normal derivative and its gradient.',
  ['inputs', 'configurations'], 'all computed fields and prescribed functions',
  'No stable test computes errors.',
  ['source/boundary_conditions.cc'], [('compute_errors', 'source/boundary_conditions.cc')], ['console output'])
p('P22', 'Cached geometry equals the geometry it caches',
  'The surface coordinates (pull-back) returned for a point, whether computed or served from the cache, are those the underlying manifold projects that very point to; two different points never share a cache entry, whatever was asked before.',
  ['inputs', 'histories'], 'all points and query histories',
  'No stable test uses the cached manifold.',
  ['source/cached_nurbs_patch_manifold.cc', 'include/cached_nurbs_patch_manifold.h'], [('cache keyed by the coordinates of the point', 'source/cached_nurbs_patch_manifold.cc')], ['pull_back', 'point_to_key'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
