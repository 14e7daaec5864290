#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Curve evaluation equals the B-spline / NURBS definition",
  "For every valid spline curve, polynomial or rational, evaluation at any parameter of its domain (ends and knots included) and any derivative order returns the value the Cox-de Boor / quotient-rule definition gives, up to rounding; at an interior knot the right-hand derivative is returned, at the last one the left-hand one. Evaluating one parameter, a list of them, all derivative orders at once, the begin/end of the curve, or the arc-length derivatives always gives that same result. The basis functions are non-negative, local, sum to one, and their derivatives sum to zero.",
  ["inputs"], "every degree, clamped knot vector (any interior multiplicity up to the degree), poles, positive weights, dimension 1..4, float and double, parameter and derivative order",
  "Tests evaluate a handful of hand-written curves of degree 1-5 at fixed parameters; nothing compares arbitrary multiplicities, degrees above 5, high derivative orders, rational high orders and knot/end parameters with an independent definition.",
  ["gbs/bscurve.h", "gbs/basisfunctions.ixx", "gbs/math.ixx", "gbs/vecop.ixx", "gbs/gbsconstants.h"],
  [("basis functions and derivatives", "gbs/basisfunctions.ixx: basis_function, basis_funcs, ders_basis_funs, find_span"),
   ("curve evaluation", "gbs/basisfunctions.ixx: eval_value_decasteljau, eval_ders_decasteljau, eval_rational_value_simple, eval_rational_ders"),
   ("public evaluation", "gbs/bscurve.h: value, values, derivatives, begin, end, d_dm, d_dm2")])

p("C02", "Surface evaluation equals the tensor-product B-spline / NURBS definition",
  "For every valid spline surface, polynomial or rational, evaluation at any parameter pair of its domain and any mixed derivative order returns the value the tensor-product definition (with the rational quotient rule) gives, up to rounding. Single, batch (list, pair list, grid) and all-orders evaluation agree, and the isoparametric curves extracted from the surface coincide with the surface along that parameter.",
  ["inputs"], "every pair of degrees and clamped knot vectors, pole nets with different counts in the two directions, positive weights, parameter pairs, mixed derivative orders",
  "Tests use small symmetric nets and derivative orders up to 2, mostly non-rational; swaps of u and v, of row strides, or errors in mixed rational terms only show on asymmetric nets and mixed orders.",
  ["gbs/bssurf.h", "gbs/basisfunctions.ixx"],
  [("surface evaluation", "gbs/bssurf.h: value, values, derivatives; gbs/basisfunctions.ixx: eval_value_decasteljau(u,v), eval_rational_ders(u,v)"),
   ("isoparametric curves", "gbs/bssurf.h: isoU, isoV, isoUV")])

p("C03", "Invalid definitions and out-of-domain requests are rejected, memory stays safe",
  "A curve or surface whose pole, knot, multiplicity, weight and degree data are inconsistent is never built: construction throws. Evaluating outside the domain (beyond the knot tolerance), addressing a non-existent pole, installing data of the wrong length, or requesting an invalid edit throws or leaves the object unchanged, and no request, valid or not, reads or writes outside the objects involved. After a rejected request the object evaluates exactly as before.",
  ["inputs", "histories"], "every inconsistent definition, every parameter outside the domain including just beyond the ends and huge values, every index, every knot edit at, near or beyond the ends",
  "Tests check two or three throwing calls; boundary values one step inside/outside each limit and memory effects of bad requests are not observable without instrumentation.",
  ["gbs/bscurve.h", "gbs/bssurf.h", "gbs/knotsfunctions.ixx", "gbs/exceptions.h", "gbs/curvecomposite.h"],
  [("definition checks", "gbs/bscurve.h: check_curve, constructors; gbs/bssurf.h: constructors"),
   ("domain checks", "OutOfBoundsCurveEval / OutOfBoundsSurfaceEval throws in value/derivatives"),
   ("pole and knot setters", "pole, copyPoles, movePoles, copyKnots, insertKnot, removeKnot")])

p("C04", "Curve edits preserve the geometry over any history",
  "Any sequence of knot insertion, degree elevation, reversal, reparametrisation, splitting and trimming leaves every point of the curve where it was (up to the corresponding change of parameter and to rounding), with a consistent definition: sorted knots, matching counts, requested degree, multiplicity and bounds. Removing knots moves the curve by no more than the given tolerance per knot removed, or leaves it unchanged, and undoes insertion.",
  ["histories", "inputs"], "every edit history on every valid polynomial or rational curve",
  "Tests apply one edit to one curve; sequences (insert, elevate, reverse, trim, insert again...), repeated knots and rational weights are not explored.",
  ["gbs/bscurve.h", "gbs/knotsfunctions.ixx", "gbs/bsctools.h", "gbs/math.ixx"],
  [("knot insertion / removal", "gbs/knotsfunctions.ixx: insert_knot(s), remove_knot"),
   ("degree elevation", "gbs/knotsfunctions.ixx: increase_degree, increase_bezier_degree"),
   ("trim / bounds / reverse", "gbs/knotsfunctions.ixx: trim, change_bounds; gbs/bscurve.h: reverse")])

p("C05", "Surface edits preserve the geometry over any history",
  "Any sequence of knot insertion, degree elevation, reversal, parameter swap, reparametrisation, splitting and trimming in either direction leaves every point of the surface where it was (up to the corresponding change of parameters and to rounding), touching only the requested direction, with a consistent definition.",
  ["histories", "inputs"], "every edit history in u and v on every valid polynomial or rational surface",
  "Tests apply single edits to one or two surfaces; u/v mix-ups, strides on non-square nets and edit sequences are not explored.",
  ["gbs/bssurf.h", "gbs/bsstools.h", "gbs/knotsfunctions.ixx"],
  [("directional edits", "gbs/bssurf.h: insertKnotU/V, removeKnotU/V, increaseDegreeU/V, reverseU/V, trimU/V, changeUBounds/changeVBounds, invertUV"),
   ("splitting", "gbs/bsstools.h: split_u, split_v")])

p("C06", "Curve interpolation meets every prescribed constraint",
  "Curves built by interpolation pass through every prescribed point at its parameter, and reproduce every prescribed derivative there, up to rounding scaled by the conditioning of the data, with the requested degree and the continuity the scheme promises. Parametrisations computed from points are strictly increasing, span the unit interval, and follow the requested chord-length, centripetal or uniform law.",
  ["inputs"], "every set of distinct points, constraint orders, degree, parametrisation, dimension",
  "Tests interpolate a few smooth point sets; unequal spacing, minimum counts, high orders and mixed constraints are not covered.",
  ["gbs/bscinterp.h", "gbs/bscbuild.h", "gbs/knotsfunctions.ixx"],
  [("interpolation systems", "gbs/bscinterp.h: interpolate, build_poles, build_poles_matix"),
   ("parametrisation", "gbs/knotsfunctions.ixx: curve_parametrization, build_simple_mult_flat_knots")])

p("C07", "Surface interpolation meets every prescribed constraint",
  "Surfaces built by interpolating a grid of points pass through each point at the corresponding grid parameters with the requested degrees, whatever the counts in each direction; surfaces built from general value and derivative constraints satisfy each of them. A grid whose size does not fit the requested direction count is rejected.",
  ["inputs"], "every rectangular point grid (square or not), degrees, parametrisation and well-posed constraint set",
  "Tests use one or two grids; transposition errors hide on square or symmetric grids.",
  ["gbs/bssinterp.h", "gbs/bssbuild.h"],
  [("grid interpolation", "gbs/bssinterp.h: interpolate(Q, n_poles_v, p, q, mode), interpolate(constraints)")])

p("C08", "Approximation is the least-squares optimum and honours its options",
  "Approximating points with a fixed knot vector and parameters returns the curve or surface of least squared error among all with that basis (no perturbation of free poles lowers the error), and data that lie on such a spline are reproduced exactly; when the ends are fixed they are met exactly. Refining approximations never exceed the requested pole count and either reach the requested tolerance or stop at their limit, and approximating a curve over a sub-range fits that sub-range.",
  ["inputs"], "every point set, parameter set, degree, pole count, end mode, sub-range and tolerance",
  "Tests compare one or two point clouds with loose tolerances; optimality is not checkable by fixed expected values.",
  ["gbs/bscapprox.h", "gbs/bssapprox.h"],
  [("least squares", "gbs/bscapprox.h: approx, approx_bound_fixed; gbs/bssapprox.h: approx"),
   ("refinement", "gbs/bscapprox.h: refine_approx")])

p("C09", "Batch and parallel evaluation equals serial evaluation on every schedule",
  "Evaluating a list of parameters, grid or point set returns, in order and bit for bit, what evaluating each element on its own returns, whatever the list length, the parallel threshold and the number of threads. Concurrent read-only use of the same curve, surface or mesh from several threads is free of data races, and an invalid element makes the batch call throw like the single call, whatever the list length.",
  ["schedules", "inputs"], "every list length around and beyond the parallel threshold, every thread count, every schedule and every position of an invalid element",
  "Tests call batch evaluation serially on short lists; races and exception behaviour above the parallel threshold depend on the schedule and the length.",
  ["gbs/execution.h", "gbs/bscurve.h", "gbs/bssurf.h", "gbs/bscanalysis.h", "gbs/bssanalysis.h", "gbs/extrema.h"],
  [("parallel dispatch", "gbs/execution.h: transform_threshold, GBS_PAR_EXEC"),
   ("batch evaluators", "gbs/bscurve.h: values, d_dms, d_dm2s; gbs/bssurf.h: values")])

p("C10", "Derived curves are consistent with the geometry they are built from",
  "A trimmed, reversed, extended, reparametrised, composite or offset curve, a curve on a surface, a line and a circle each take exactly the values their definition prescribes from the underlying geometry over their whole domain. Every derivative they return equals the derivative of their own values, and their bounds are those of the definition.",
  ["inputs"], "every underlying curve or surface, every domain, offset law, direction, extension and parameter",
  "Tests check points on one configuration each and hardly any derivative; chain-rule terms vanish on the straight or planar data they use.",
  ["gbs/curvetrimmed.h", "gbs/curveReversed.h", "gbs/curveextended.h", "gbs/curvereparametrized.h", "gbs/curvecomposite.h", "gbs/curveoffset.h", "gbs/curveonsurface.h", "gbs/curveline.h", "gbs/curvecircle.h"],
  [("value(u,d) of each adaptor", "the files listed")])

p("C11", "Arc length and discretisation are faithful to the curve",
  "The computed length of a curve or of a part of it equals its true arc length within the quadrature tolerance, is additive and independent of orientation; the arc-length function and its inverse are increasing and mutually consistent, and uniform discretisation gives points equally spaced along the curve. Discretisations start and end at the requested bounds, have strictly increasing parameters, respect their point-count limits, and adaptive ones leave, at the middle of every interval, an angle between half chord and chord within the requested tolerance unless the limit on the number of points is reached.",
  ["inputs"], "every regular curve, sub-range, sample count, tolerance and deviation",
  "Tests measure a few curves with known length; monotonicity, inversion and deviation bounds need many shapes.",
  ["gbs/bscanalysis.h", "gbs/bssanalysis.h"],
  [("length", "gbs/bscanalysis.h: length"), ("arc-length laws", "abs_curv, uniform_distrib_params"),
   ("discretisation", "discretize, deviation_based_params, deviation_based_params_2, refine_params")])

p("C12", "Projection and extremum searches return true stationary minima",
  "The point-to-curve, point-to-surface, curve-to-curve and curve-to-surface searches return parameters inside the domain together with the distance between the points at those parameters; started near a minimum, or on a unimodal configuration, they return that minimum within tolerance, and the distance of a point lying on the geometry is zero. The closest curve of a list is one at the least distance. Coordinate extrema of a curve bound all of its points in that direction.",
  ["inputs"], "every curve, surface, point and starting guess near a minimum",
  "Tests project a few points; the consistency of reported distance and parameters and the minimum property over arbitrary geometry is not checked.",
  ["gbs/extrema.h", "gbs/solvers.h"],
  [("extrema", "gbs/extrema.h: extrema_curve_point, extrema_surf_pnt, extrema_curve_curve, extrema_surf_curve, max_coordinate, min_coordinate")])

p("C13", "Unifying, joining, connecting and extending keep geometry and continuity",
  "Unifying the degrees or knots of several curves or surfaces leaves each one geometrically unchanged and makes them compatible. Joining two curves or surfaces yields one that follows the first then the second; connecting curves yields a junction that meets both ends with the requested continuity; extending a curve or surface leaves its original part unchanged and reaches the requested point or length with the requested continuity.",
  ["inputs", "histories"], "every collection of curves/surfaces with different degrees, knots, bounds, rationality; every connection order and extension side",
  "Tests combine two or three similar curves; mixed degrees, near knots, different bounds and weights are not explored.",
  ["gbs/bsctools.h", "gbs/bsstools.h", "gbs/knotsfunctions.ixx"],
  [("unification", "gbs/bsctools.h: unify_curves_degree, unify_curves_knots, unified_curves; gbs/knotsfunctions.ixx: unify_knots"),
   ("join/connect/extend", "gbs/bsctools.h: join, c2_connect, extention_to_point, extended; gbs/bsstools.h: join, extended")])

p("C14", "Built surfaces contain the curves they are built from",
  "A lofted surface contains every section curve as an isoparametric curve, in order and at the section's parameter, and keeps requested spine or derivative data; a Gordon surface contains every curve of both families; a surface of revolution carries every profile point on the circle around its axis. Built conics (segments, circles, ellipses) lie exactly on the shape requested with the requested ends.",
  ["inputs"], "every compatible family of section curves (different degrees, knots, rationality), axis, radius and angle",
  "Tests loft a few similar sections; mixed degrees and rational sections, arbitrary axes and centers are not explored.",
  ["gbs/bssbuild.h", "gbs/bscbuild.h", "gbs/surfaceofrevolution.h"],
  [("loft / gordon", "gbs/bssbuild.h: loft, loft_generic, gordon"), ("revolution", "gbs/surfaceofrevolution.h"),
   ("primitives", "gbs/bscbuild.h: build_segment, build_circle, build_ellipse")])

p("C15", "Reading back what was written reproduces the geometry",
  "Any curve or surface written to the JSON text and read back evaluates the same over its whole domain, with the same kind, degree, knots, poles, weights and bounds, up to the rounding of the numbers in the text, for every kind that has a reader (B-spline and rational curves and surfaces, curves on surfaces, surfaces of revolution), nested or in collections; derived kinds without a reader are written whole, embedded entities included, and refused by the reader. A document whose type, dimension or content does not match is rejected with an error, and no document makes the reader touch memory it does not own.",
  ["inputs"], "every entity kind, nesting, extreme coordinate magnitudes, and every malformed document",
  "Tests read a few files and write a few entities; full round trips over kinds, nestings and malformed documents are not covered.",
  ["gbs-io/tojson.h", "gbs-io/fromjson.h", "gbs-io/fromtext.h", "gbs-io/print.h"],
  [("writer", "gbs-io/tojson.h: make_json"), ("reader", "gbs-io/fromjson.h: make_curve, make_surface, make_bscurve, make_bssurface, bscurve_direct")])

p("C16", "Half-edge meshes stay consistent through any edit history",
  "After every insertion, flip, split, face removal or refinement step, in any order, the mesh is a valid oriented manifold: each face is a closed loop whose half-edges belong to it, opposite half-edges agree on their end points and refer to each other, every vertex refers to one of its own half-edges, and no interior crack appears. Neighbourhood and boundary queries agree with the set of faces, and flips and splits keep the covered area.",
  ["histories"], "every sequence of mesh edits from every starting mesh",
  "Tests apply each editor once on a two- to four-triangle mesh; stale links only show after further edits or traversals.",
  ["inc/topology/halfEdgeMeshData.h", "inc/topology/halfEdgeMeshEditors.h", "inc/topology/halfEdgeMeshGetters.h", "inc/topology/halfEdgeMeshQuality.h"],
  [("editors", "inc/topology/halfEdgeMeshEditors.h: flip, splitHalfEdge, splitFace, add_face, link_edges, remove"), ("getters", "inc/topology/halfEdgeMeshGetters.h")])

p("C17", "Triangulations are valid, Delaunay and cover the meshed domain",
  "Inserting points in a triangulated box yields counter-clockwise, non-overlapping triangles that cover the box and use every distinct point, none of whose circumcircles strictly contains another vertex, whatever the order of insertion; triangulating points alone keeps the triangles that do not touch the box. Constrained triangulation of a polygon, with or without holes, contains every boundary edge, covers exactly the polygon's area and nothing outside it, and stays Delaunay away from the boundary; an edge recovered between two vertices is present afterwards and only the triangles it meets change. Surface meshing covers exactly the parameter domain, uses the boundary points it announces, and refinement adds at most the allowed points and stops only when the criterion is met or no point can be inserted.",
  ["inputs"], "every point set (random, clustered, collinear, cocircular, duplicated), every simple polygon and hole set",
  "Tests triangulate a few sets; degenerate (cocircular, collinear, grid) and concave configurations with holes are where such codes fail.",
  ["inc/topology/tessellations.h", "inc/topology/edgeRecovery.h", "inc/topology/halfEdgeMeshGeomTests.h", "gbs-mesh/halfedgemesh.h"],
  [("Bowyer-Watson", "inc/topology/tessellations.h: delaunay2DBoyerWatson, boyerWatson, delaunay2DConstrained"), ("edge recovery", "inc/topology/edgeRecovery.h")])

p("C18", "Geometric predicates have the exact sign",
  "The orientation predicate returns the sign of the exact determinant for every triple of floating-point points, including nearly and exactly collinear ones, and is antisymmetric under exchange of points. Circle, triangle-membership, segment-intersection and polygon-orientation tests agree with exact arithmetic whenever the configuration is not degenerate within rounding; triangle centres, areas and barycentric coordinates satisfy their definition.",
  ["inputs"], "every finite double input without under- or overflow, in particular nearly degenerate ones",
  "Tests use a handful of exactly representable degenerate points; the adaptive stages are only entered by specially perturbed inputs.",
  ["inc/topology/robustPredicates.h", "inc/topology/baseGeom.h", "inc/topology/baseIntersection.h", "inc/topology/halfEdgeMeshGeomTests.h"],
  [("orient2d", "inc/topology/robustPredicates.h"), ("in_circle, in_triangle", "inc/topology/baseGeom.h, halfEdgeMeshGeomTests.h")])

p("C19", "Structured meshes reproduce their boundary and hard curves",
  "A structured mesh generated by transfinite interpolation contains the discretised boundary and every imposed inner curve at the prescribed nodes, and reproduces exactly any bilinear patch (linear blending) and any affine patch (every blending); the node counts, at least two per segment, and the ordering are those announced. Elliptic smoothing never moves nodes outside the interior of the requested block and converges to a mesh inside the hull of the boundary on convex domains; inconsistent curve networks are rejected.",
  ["inputs"], "every compatible network of boundary/inner curves, node counts and block limits",
  "Tests mesh two or three configurations and inspect images; per-node boundary agreement over arbitrary networks is not checked.",
  ["gbs-mesh/tfi.h", "gbs-mesh/smoothing.h", "gbs-mesh/mshedge.h"],
  [("TFI", "gbs-mesh/tfi.h: msh_curves_set, tfi_mesh_2d"), ("smoothing", "gbs-mesh/smoothing.h: elliptic_structured_smoothing")])

p("C20", "Affine transforms commute with evaluation",
  "Translating, rotating, scaling, mirroring or mapping between frames a point, curve, surface or any composition of these moves every evaluated point by exactly that transform and every derivative by its linear part, for polynomial and rational geometry alike. Rotations preserve distances, a transform followed by its inverse restores the geometry, and the non-mutating form leaves its argument unchanged.",
  ["inputs", "histories"], "every transform and composition on every curve and surface kind",
  "Tests transform a few poles; rational weights (translation must scale with the weight) and compositions are not explored.",
  ["gbs/transform.h", "gbs/transformpoints.h", "gbs/polestools.h"],
  [("transforms", "gbs/transform.h, gbs/transformpoints.h")])

p("C21", "Shaping moves the geometry to the requested constraints only",
  "Moving a curve or surface to a point, or to a set of value and derivative constraints, makes the result satisfy every constraint, keeps degree and knots, and leaves the poles outside the requested range, and the ends declared fixed, untouched. A geometry that already satisfies the constraints is returned unchanged.",
  ["inputs"], "every curve/surface, parameter, well-posed constraint set and pole range",
  "Tests move one curve to one or two points with one pole range.",
  ["gbs/bscshaping.h", "gbs/bssshaping.h"],
  [("shaping", "gbs/bscshaping.h: moved_to_point, moved_to_constraints, ...; gbs/bssshaping.h")])

p("C22", "Conversion to the CAD kernel preserves geometry",
  "Converting a curve or surface, polynomial or rational, to the OpenCASCADE representation, where a converter is offered, yields geometry that evaluates to the same points and derivatives over the whole domain, with the same degree, knots, multiplicities, poles and weights (up to a common factor). Point, vector and array containers are converted element by element with the requested bounds.",
  ["inputs"], "every curve or surface with maximal interior continuity accepted by the kernel",
  "Tests convert a few entities; index-order and weight handling errors hide on symmetric nets.",
  ["gbs-occt/curvesbuild.h", "gbs-occt/surfacesbuild.h", "gbs-occt/containers.h"],
  [("converters", "gbs-occt/curvesbuild.h, gbs-occt/surfacesbuild.h, gbs-occt/containers.h")])

p("C23", "Knot-vector utilities keep their algebraic contracts",
  "Compressing a knot vector to values and multiplicities and expanding it again gives the original; multiplicities, bound changes, generated knot vectors and parametrisations give sorted vectors of the right length with the requested multiplicities and laws. Ordered-insertion helpers keep their containers sorted, complete and free of near duplicates; range, pole-grid and weight helpers return exactly the requested grid, transposition or weighting, and undo each other.",
  ["inputs"], "every valid knot vector, degree and requested change",
  "Tests use three or four knot vectors.",
  ["gbs/knotsfunctions.ixx", "gbs/math.ixx", "gbs/vecop.ixx"],
  [("utilities", "gbs/knotsfunctions.ixx: flat_knots, unflat_knots, knots_and_mults, multiplicity, insert_ordered, change_bounds, build_simple_mult_flat_knots ..., gbs/math.ixx: make_range, factorial, binomial_law")])

p("C24", "Wires stay chained and edges carry their vertices",
  "An edge accepts a vertex only when it lies on its curve within the edge's tolerance, is then trimmed to it, and is left unchanged when it refuses; its bounds, orientation and vertices always agree with its curve. A wire accepts an edge only when one of its ends meets a loose end of the chain within tolerance; after any sequence of additions and closings its edges form one chain in which neighbours share the same vertex, it is closed exactly when the two ends meet, and closing adds one segment between them.",
  ["histories", "inputs"], "every sequence of edges, orientations and gaps; every curve and vertex position",
  "Tests build two or three wires in the natural order of their edges with exact coordinates.",
  ["inc/topology/edge.h", "inc/topology/wire.h", "inc/topology/vertex.h", "inc/topology/basetopo.h"],
  [("edges", "inc/topology/edge.h: setVertex1, setVertex2, tessellate"), ("wires", "inc/topology/wire.h: addEdge, close, isClosed")])

p("C25", "Mesh quality criteria report the worst defect and its place",
  "For every triangle, the value a refinement criterion reports (distance to the surface, angle between normals or tangents, edge length, edge ratio) is the largest over the places it examines, and the point it proposes is one where this value is reached; edges on the border and triangles out of the surface are exempted. The area of a mesh is the sum of its triangles', sequentially and in parallel; the edges of a face form a range standard algorithms can run on. A mesh refined until its criterion is met does satisfy it when measured independently, covers the same domain and keeps its border.",
  ["inputs"], "every triangle of every triangulation of every surface or polygon",
  "Tests refine two or three meshes and look at the total area only.",
  ["inc/topology/halfEdgeMeshQuality.h", "inc/topology/halfEdgeMeshData.h", "inc/topology/halfEdgeMeshGetters.h", "inc/topology/tessellations.h"],
  [("criteria", "inc/topology/halfEdgeMeshQuality.h"), ("refinement", "inc/topology/tessellations.h: delaunay2DBoyerWatsonSurfaceMeshRefine, delaunay2DBoyerWatsonMeshRefine")])

p("C26", "The Python bindings return what the library computes",
  "Every function, constructor and method exposed to Python behaves as the library function it names: called with the same arguments (by position, by name or by default) it returns the same value, array or geometry, refuses what the library refuses, and its edits leave the object in the state the library would. Methods on surfaces act on the direction they name; limits given by the caller (number of points, iterations, tolerance) are honoured. Copying and pickling an object gives an independent object with the same geometry.",
  ["inputs", "histories"], "every exposed function with every argument list, every history of edits of an exposed object",
  "The Python tests call about a tenth of the interface, mostly looking at a plot or at a single value.",
  ["python/gbsbind.cpp", "python/gbsBindCurves.h", "python/gbsBindCurves.cpp", "python/gbsBindSurfaces.h", "python/gbsBindSurfaces.cpp", "python/gbsbindinterp.cpp", "python/gbsbindapprox.h", "python/gbsBindDiscretize.h", "python/gbsbindmesh.cpp", "python/gbsBindSurfaceTools.h", "python/gbsBindCurveTools.h", "python/gbsbindextrema.h"],
  [("module", "python/gbsbind.cpp: PYBIND11_MODULE"), ("curves", "python/gbsBindCurves.h: gbs_bind_curves"), ("surfaces", "python/gbsBindSurfaces.h: gbs_bind_surfaces")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
