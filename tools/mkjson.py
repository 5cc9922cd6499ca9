import json
T='not yet under contract: work in progress'
NA={'P%02d'%i: T for i in range(1,23)}
NOTE={
'P01':{'note':'All 462 table functions and the dispatch proved equal to the normalised associated Legendre functions for every real argument in (-1,1); doubles as reals.'},
'P02':{'note':'Both overload families and both dimensions proved for every R != 0; doubles as reals.'},
'P03':{'note':'Proved for every order up to 10 with symbolic centre, position, normal, strength and contents, relative to the Legendre contract (P01); dipoles on the polar axis are a recorded finding. Doubles as reals.'},
'P04':{'note':'Proved for every order up to 10 with symbolic centres and coefficients relative to the Legendre contract (P01); the translation theorems themselves are the specification. Doubles as reals.'},
'P05':{'note':'Proved for every order up to 10 with symbolic contents: values, ownership, bounds and release of every allocation; heap model of the executor trusted.'},
'P06':{'note':'generate_octree_blocking proved in both dimensions statement by statement for every mesh, depth and capacity: the root, the splitting of a block (octants, exactly one child per node and quadrature point, links, histories), leaf or parent, level ranges, final leaves; each is the inductive step of the octree invariant from an arbitrary state satisfying it, the composition over the loops is argued in DESIGN.md. Real octrees also checked by a bounded harness.'},
'P08':{'note':'multipole_integrals, generate_multipole_expansions and multipole_matr_vect_products proved for every octree, density, level count and ownership: level-by-level loop invariants, panel expansions holding the quadrature points of the panel in the leaf, weighted by the density, M2M up, M2L and L2L down, near field, smaller far blocks and leaf evaluations. Expansion operations by their contracts (P03-P05), octree shape by P06. Agreement with dense products, and independence of history, also by a bounded harness.'},
'P07':{'note':'generate_octree_blocking (neighbours on every level and sublevel, direct and expansion lists) proved in both dimensions for every octree: neighbours are exactly sound and complete for touching blocks passed down, each pair passed down is either direct or far, never both; lemmas: exactly once along every path, far blocks separated. direct_integrals proved too: each list of blocks run exactly once, the rows of the near part (direct list and larger far blocks), sparsity pattern, copier and accumulation. The composition over the loops is argued in DESIGN.md; a bounded harness over all pairs runs in addition.'},
'P09':{'note':'assemble_system and get_singular_quadrature proved for every mesh, ownership, coincidence relation, element and rule order in both dimensions, any earlier content of the rule cache; FEValues uninterpreted, kernels by their contract (P02).'},
'P20':{'note':'compute_normals, compute_surface_gradients, compute_gradients proved for every mesh, field and constraint set in both dimensions relative to the contracts of the linear solver and AffineConstraints; FEValues uninterpreted. A bounded harness compares with dense projections and linear potentials.'},
'P21':{'note':'compute_errors proved for every solution, field and mesh in both dimensions, including index bounds into the renumbering tables; norms and integrate_difference by their deal.II contracts.'},
'P10':{'note':'vmult, compute_rhs, compute_alpha proved for every problem size, vector and Dirichlet/Neumann split with a Dirichlet part, both methods, relative to the contract of the fast multipole product (linear operators); one process (every index owned). Doubles as reals.'},
'P11':{'note':'compute_constraints proved for every mesh, classification, normal and surface gradient field in both dimensions: which rows are prescribed, tied or free, the values, the hanging-node merge and the relevant index set; coincidence an equivalence (P13). Where several angled Dirichlet sides compete the proof shows the value is that of one of them. Assumes coincident nodes carry no hanging-node line.'},
'P13':{'note':'Classification, coincident sets and renumbering proved for every mesh, id assignment, ownership and both dimensions; DoFHandler/IndexSet/DoFTools as uninterpreted queries. A bounded harness runs the real set-up serially and on 3 processes.'},
'P14':{'note':'prepare_bem_vectors and solve_problem proved for every mesh, id assignment and data in both dimensions; FEValues and parsed functions uninterpreted.'},
'P15':{'note':'solve_system and solve proved for every problem relative to the contract of the Krylov solver (returns a solution of the constrained system) and of the operator (P10, P12); the solver tolerance itself is covered by the bounded harness.'},
'P16':{'note':'evaluate_VkNj_integrals, evaluate_WkNj_integrals and evaluate_free_term_b (3D) proved for every panel map, source position in the closed reference square, shape function and quadrature order: the Laurent coefficients of the integrand are derived by series arithmetic from the panel map and the code must subtract exactly those and add their exact integrals. deal.II element evaluation by contract; 2D versions are not implemented in the code. A bounded harness compares random curved panels with numerically differentiated expansions.'},
'P17':{'note':'compute_double_vertex_cache, make_edges_conformal (with the double-node search every driver uses), update_triangulation, conditional_refine_and_resize and refine_and_resize (2D, 3D) proved for every mesh: the search loop by invariant, exactly the panels facing an edge cut on one side only are refined across that edge, the search only stops when none is left; aspect-ratio passes; refinement always ends with conforming edges and distributed panels. deal.II refinement, partitioning and face topology by contract; CAD-driven refinement outside the scope. A bounded harness refines real surfaces serially and on 3 processes.'},
'P18':{'note':'parse_parameters of every class proved for every parameter file, including arbitrary numbers of ids and earlier contents; ParameterHandler trusted.'},
'P19':{'note':'assemble_preconditioner (both dimensions, first and repeated assembly) and the final near-field preconditioner of the fast multipole method proved for every matrix, split, constraint set and ownership. WorkStream / parallel_for modelled as each item exactly once.'},
'P22':{'note':'pull_back proved for every point and earlier cache content satisfying the invariant.'},
'P12':{'note':'Proved for every operator, vector and constraint set, both dimensions; deal.II AffineConstraints/IndexSet as uninterpreted queries. Doubles as reals.'},
}
json.dump(NA,open('/verif/tools/na.json','w'),indent=1); json.dump(NOTE,open('/verif/tools/notes.json','w'),indent=1)
