NOTES = {
"C01": """Curves (polynomial/rational, double/float, dimension 1–4, degree 0–24) evaluated at ends, knots, knot
neighbours and interior through value / values / derivatives / begin / end / d_dm..., compared with the long-double
Cox–de Boor reference and quotient rule; partition of unity, locality, non-negativity of the basis observed directly.""",
"C02": """Same for tensor-product surfaces through single, list, grid and all-orders evaluation, plus iso-curve extraction.""",
"C03": """Definitions corrupted in a dozen ways given to every constructor (monitor decides validity independently and
requires throw / no throw), out-of-domain and invalid requests on valid objects, state hash before/after each rejected
request; AddressSanitizer/UBSan/checked containers decide the memory part.""",
"C04": """Random edit histories; after every step the definition invariants and the whole geometry are compared with the
reference of the step before under the parameter map of the edit.""",
"C05": """Same for surfaces, both directions, checking the other direction's knots stay untouched bit for bit.""",
"C06": """Point lists, Hermite data and shuffled value/derivative constraints (2–170 sites, both sides of the dense/sparse
solver switch) are interpolated; every prescribed datum is looked up on the result by the reference model, and the
parametrisation laws are recomputed in long double.""",
"C07": """Non-square grids under every parametrisation law and shuffled unisolvent constraint sets; each datum looked up on the
result by the reference model; grids whose size does not fit must be refused.""",
"C08": """The gradient of the squared error with respect to every free pole is recomputed in long double from the returned
definition (a least-squares optimum is exactly a zero of it; the tolerance is a backward error, so no conditioning
assumption hides a wrong solve), spline data must be reproduced, ends met bit for bit, and each refinement must have
stopped for one of its announced reasons (tolerance reached, pole limit, iteration limit, no admissible knot).""",
"C09": """Batch results compared bit for bit with single calls over list kinds, lengths around the thresholds, thread counts
and invalid elements; every algorithm with an internal parallel loop compared with its one-thread run; threads sharing
geometry, builds and meshes. Two builds: AddressSanitizer over the real TBB with a varying thread limit, and
ThreadSanitizer over an instrumented std::thread back end of the parallel algorithms (harness/pstl_shim) whose chunking,
order and delays are drawn from the seed, so that races inside the library are visible to the race detector (libtbb is
not instrumented and would hide them).""",
"C23": """Algebraic laws (round trips, counts, sortedness, law of the parametrisation, Schoenberg–Whitney of averaged
knots) over generated data.""",
"C10": """A Taylor-series (jet) model in long double mirrors each construction: the composed jet predicts value and every derivative;
nesting up to three levels exercises the interplay (reversed composite of extended offset ...). Bounds, begin/end,
derivative arrays and rejection outside the bounds are checked on the same objects.""",
"C20": """Random histories of transforms; after every step the affine map is applied to the reference evaluation of the geometry at
the start and compared with what the library evaluates (values by the affine map, derivatives by its linear part), then the
non-mutating forms, inverses, isometry of rotations and the added coordinate are checked.""",
"C16": """The monitor rebuilds, from the faces alone, the map of directed edges, the star of every vertex and the boundary loops,
and compares links, queries and areas with it after every edit of a random history; pinched vertices and holes are produced
on purpose by erasures. ASan catches stale links into dropped faces.""",
"C17": """Exact integer orientation and in-circle predicates (boost cpp_int) judge every triangle produced: orientation, exact
cover, absence of overlap, vertices used, empty circumcircles (globally, not only across edges), uniqueness in general position
(all insertion orders give one set, brute force over all triples), polygon edges present and nothing outside, recovered edges,
surface meshes in parameter space.""",
"C18": """Generators aim at the adaptive stages (points moved by ulps off a line, huge offsets, mixed scales, repeated points); the
counter orient/plain_formula_wrong shows how often the naive determinant has the wrong sign on them. The harness also runs in an
optimised build (-O2), where contraction or reassociation would break the error-free transformations.""",
"C12": """The distance and the parameters returned are confronted with each other and with dense sampling by the reference evaluator.
extrema_curve_point returns the square of the distance; the existing test tests_bscapprox.approx_curve asserts 1e-4 on it where the
true distance is 1.95e-4, so no repair keeps the suite unedited: this is the known finding (dev_from_points, which reports squared
distances as well, follows). The square is still checked to be exactly the square. nlopt's LD_MMA may not terminate on these costs (not a default): it is not judged.""",
"C13": """Operations are run on generated pairs with mixed degrees, rationality and bounds; the reference evaluator compares values over
every span, and one-sided derivatives at the junctions with the continuity announced.""",
"C14": """The sections are evaluated by the reference evaluator and compared with the isoparametric curves of the surface built, span by
span; derivatives and integrals of surfaces with respect to a direction are compared too. refine_approx may pile up knots on kinked
curves (ill-posed least squares) and build_simple_mult_flat_knots(u1,u2,n,p) makes its last span twice as long: both observed,
neither breaks a stated property.""",
"C11": """The reference length is a 12 point Gauss-Legendre rule on six pieces of every knot span of the reference evaluator, in extended
precision. Adaptive sampling is driven by bumps narrower than the spacing of the quadrature points, placed where the halves of an
interval see them and the whole does not, so that the insertion path runs. Deviation is judged as the code defines it: the angle at
the middle of every interval between the half chord and the chord stays within the tolerance unless the limit on the number of
points was reached, the limit being max(n_max, n + interior knots). The two adaptive laws are each other's inverse whichever of
them is the length (the names and the comments disagree; either is accepted).""",
"C15": """Round trips are compared member by member (rapidjson's default parser is exact to a few ulps) and by values; malformed documents
come from structural mutations of valid ones. Kinds written whole but without reader (trimmed, composite, offset, function, line) are
checked on their text. Not claimed: get_val<double> refuses integers, NaN and infinities are not JSON, lines are written with their
direction as second point, and the IGES writer needs a library this build does not have.""",
"C19": """Networks are generated so that their curves cross exactly at known parameters (on a surface, or corrected curve by curve), which
gives an exact oracle for every node on a hard curve. The smoothing oracle recomputes each sweep independently in extended precision;
convergence inside the hull is judged on convex boundaries. Not claimed: slopes of the controlled blendings, the block beyond the
grid (precondition), and that zero iterations do nothing.""",
"C21": """Well-posedness is decided by Gram-Schmidt on the scaled rows of the basis functions of the free poles; ill-posed sets are discarded
(they have no solution to judge).""",
"C22": """The kernel evaluates with its own code, so an index or weight error shows as a difference of values; the structure is compared
member by member as well. Not claimed: the approximating helpers (C1/C2 approximation) built on top of the kernel.""",
"C24": """A wire is read back edge by edge after every step; its chain is recomputed from the end points of the curves, so an edge inserted
at the wrong place, with the wrong orientation or with a vertex that is not shared shows at once.""",
"C25": """The criteria drive every refinement, so a wrong value silently stops it too early or puts the points elsewhere. Not claimed:
TriangleShape2 (the scalar products it compares with a sine are not normalised, it has no user) and base_delaunay2d_mesh (marked
for removal).""",
"C26": """The module is compiled from the sources of the bindings and imported by an embedded interpreter; the harness calls it through the
Python C interface, so overload resolution, default arguments, argument names and order, conversions to numpy, copies and pickles
are those a Python user gets. The other side calls the C++ function each binding announces, with the arguments spelled out: a
binding attached to another function, swapping or dropping an argument, or hidden by an earlier overload shows as a difference.""",
}
