"""Which harness decides which property, and how it is built."""

def COMMON_FLAGS(repo, here):
    return ["-std=gnu++20", "-Wno-deprecated-declarations", "-w", "-DNDEBUG", "-DNLOPT_DLL", "-DRAPIDJSON_HAS_CXX11_RVALUE_REFS",
            "-I" + here + "/harness", "-I" + repo, "-I" + repo + "/inc", "-isystem", "/usr/include/eigen3",
            "-fsanitize-ignorelist=" + here + "/harness/ubsan_ignore.txt"]

COMMON_LIBS = ["-lnlopt", "-ltbb", "-lm", "-lpthread"]

_SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr,float-divide-by-zero", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
MODES = {
    "asan": {"flags": _SAN, "what": "AddressSanitizer + UndefinedBehaviorSanitizer + checked libstdc++ containers"},
    "plain": {"flags": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"], "what": "optimised build with checked libstdc++ containers, monitors only"},
    "asan0": {"flags": ["-O0", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"], "what": "unoptimised build with AddressSanitizer and checked libstdc++ containers"},
    "rel": {"flags": ["-O3", "-g1"], "what": "release flags (as shipped), monitors only"},
    "tsan": {"flags": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], "what": "ThreadSanitizer over std::threads; parallel algorithms run on an instrumented back end with seeded random schedules", "tsan": True, "pstl": True},
}

CHECKS = {
    "C01": {
        "bins": [{"name": "c01", "src": ["c01.cpp"]}],
        "rule": "A case is one generated curve (degree 0-24, knot multiplicities, dimension 1-4, double/float, weights) evaluated at ends, knots, knot neighbours and interior points for several derivative orders through every public evaluator and compared with a long double Cox-de Boor / quotient-rule model; non-trivial when the curve has at least one oracle comparison; distinct by knots and poles.",
        "floors": {"oracle_checks": 20000, "param/knot": 200, "param/end": 200},
        "assumptions": ["poles of magnitude 1e-3..1e4, weights in [0.1,10], degree <= 24, distinct knots at least 1e-3 of the range apart"],
    },
    "C02": {
        "bins": [{"name": "c02", "src": ["c02.cpp"]}],
        "rule": "A case is one generated surface (degrees 0-7 in each direction, non-square nets, multiplicities, weights) evaluated at ends, knots and interior pairs for mixed derivative orders through every public evaluator and its isoparametric curves, compared with a long double tensor-product model; distinct by knots and poles.",
        "floors": {"oracle_checks": 20000},
        "assumptions": ["degrees <= 7 (9 in some cases), weights in [0.1,10]"],
    },
    "C04": {
        "bins": [{"name": "c04", "src": ["c04.cpp"]}],
        "rule": "A case is one generated curve taken through a random history of edits (insert, insert up to multiplicity, elevate, reverse, rebound, trim, insert-then-remove, remove), the definition and the geometry being compared with a long double model of the original after every step; other families decide removal tolerance and Bezier pieces. Distinct by initial knots and poles.",
        "floors": {"steps": 5000, "removed": 100, "refused": 100},
        "assumptions": ["inserted knots are either existing knots or at least 1% of the range away from one"],
    },
    "C05": {
        "bins": [{"name": "c05", "src": ["c05.cpp"]}],
        "rule": "A case is one generated surface (non-square nets, weights) taken through a random history of edits in both directions (insert, elevate, reverse, swap, rebound, trim, split, iso curves), definition and geometry compared with a long double model of the original after every step. Distinct by initial knots and poles.",
        "floors": {"steps": 5000},
        "assumptions": ["inserted knots are either existing knots or at least 1% of the range away from one"],
    },
    "C03": {
        "bins": [{"name": "c03", "src": ["c03.cpp"]}],
        "rule": "A case is one definition (valid, or corrupted in one of a dozen ways) given to every constructor, or one valid object subjected to out-of-domain evaluations and invalid requests; the monitor decides from the definition of a B-spline whether acceptance or rejection is due, and that a rejected request leaves the object and its values bit-identical. Distinct by data and corruption.",
        "floors": {"out_of_domain": 10000, "definition/valid": 1000, "oracle_checks": 100000},
        "assumptions": ["unsorted means decreasing by more than the knot tolerance; non-finite parameters are only required to be memory safe"],
    },
    "C23": {
        "bins": [{"name": "c23", "src": ["c23.cpp"]}],
        "rule": "A case is one generated knot vector, point list, value list or pole grid taken through the knot, parametrisation, range, ordered-insertion, weight and grid utilities, each result compared with its algebraic law; non-trivial unless empty; distinct by hash of the data",
        "floors": {"oracle_checks": 100000},
        "assumptions": ["distinct knots are further apart than the knot tolerance; values of magnitude up to 1e3"],
    },
    "C06": {
        "bins": [{"name": "c06", "src": ["c06.cpp"]}],
        "rule": "A case is one set of points, Hermite data or general value/derivative constraints (2-170 sites, degree 1-9, every parametrisation law, shuffled order) interpolated through the public functions, each prescribed value then looked up on the returned curve by the reference model; distinct by parameters",
        "floors": {"constraints": 50000, "refused": 100},
        "assumptions": ["consecutive points distinct; parameters with gap ratio up to 20; residual tolerance 1e-9 of the local pole magnitude"],
    },
    "C07": {
        "bins": [{"name": "c07", "src": ["c07.cpp"]}],
        "rule": "A case is one grid of points (non-square, degrees 1-6 in each direction, every parametrisation law or given parameters) or one shuffled unisolvent set of value/derivative constraints interpolated by a surface, each prescribed value then looked up on the returned surface by the reference model; distinct by data and counts",
        "floors": {"constraints": 50000, "refused": 1000},
        "assumptions": ["row-neighbouring grid points distinct; constraint sets unisolvent; residual tolerance 1e-9 of the local pole magnitude"],
    },
    "C08": {
        "bins": [{"name": "c08", "src": ["c08.cpp"]}],
        "rule": "A case is one set of points, curve or surface grid approximated with given knots or by refinement; the monitor recomputes in long double the gradient of the squared error with respect to every free pole, the ends, the reached deviation and the reason for which refinement stopped; distinct by parameters and points",
        "floors": {"optimality": 3000, "reproduction": 300, "sub_ranges": 50, "stop/converged": 200, "solver/sparse": 200, "refused": 1000},
        "assumptions": ["parameter sets for which the collocation matrix has full rank (one site per knot average)"],
    },
    "C09": {
        "bins": [{"name": "c09", "src": ["c09.cpp"]}, {"name": "c09t", "src": ["c09.cpp"], "mode": "tsan"}],
        "rule": "A case is one curve, surface, mesh or algorithm input with a random list length, parallel threshold, thread count and schedule seed; its batch results are compared element for element with single calls (or with the one-thread run), and threads share one object while a race detector watches; non-trivial when at least one list or concurrent result was compared; distinct by parameters and shape.",
        "floors": {"lists/parallel": 100, "lists/serial": 100, "invalid/thrown": 100, "results_compared": 10000, "runs/result": 100, "runs/error": 5},
        "assumptions": ["the parallel algorithms of libstdc++ run over TBB (AddressSanitizer build) and over an instrumented std::thread back end with seeded schedules (ThreadSanitizer build); TBB itself is not under test"],
    },
    "C10": {
        "bins": [{"name": "c10", "src": ["c10.cpp"]}],
        "rule": "A case is one random derived curve (up to three levels of trimming, reversal, extension, reparametrisation, composition, offset, curve on surface over splines, circles and lines) or one grid of offset surface points; its values and derivatives up to the order offered are compared, at its ends, kinks and random parameters, with an independent long-double Taylor model of the definition. Distinct by description and values.",
        "floors": {"kind/composite": 300, "kind/extended": 300, "kind/offset": 300, "kind/on_surface": 300, "kind/reparametrized": 300, "kind/reversed": 300, "kind/trimmed": 300, "compared/order1": 10000, "compared/order2": 10000, "outside": 1000, "offset_points": 1000},
        "assumptions": ["points where an offset normal is undefined or nearly so (vanishing tangent, tangent along the offset direction) and one-sided derivatives at kinks are not judged"],
    },
    "C20": {
        "bins": [{"name": "c20", "src": ["c20.cpp"]}],
        "rule": "A case is one curve or surface with a random history of up to eight translations, rotations, scalings, frame changes and affine maps, compared with the long-double reference of the state before each step; or one batch of point transforms checked for their algebraic laws. Distinct by geometry and history.",
        "floors": {"op/translate": 300, "op/rotate": 300, "op/scale": 300, "op/scale_coord": 300, "op/frame": 200, "op/frames": 200, "op/map": 300, "op/add_dimension": 500, "points": 500, "compared": 20000},
        "assumptions": [],
    },
    "C16": {
        "bins": [{"name": "c16", "src": ["c16.cpp"]}],
        "rule": "A case is one random history of up to sixty mesh edits (point insertion, flip, split, face or vertex addition, erasure, smoothing, refinement) on a random starting mesh; after every edit the whole half-edge structure is validated and every neighbourhood and boundary query is compared with an independent view rebuilt from the face list. Distinct by the history.",
        "floors": {"flips": 2000, "splits/inner": 1000, "splits/boundary": 400, "insert/inside": 4000, "insert/on_edge": 200, "insert/duplicate": 500, "erased/one": 200, "erased/around_vertex": 200, "faces_added": 500, "smooth/moved": 400, "vertex_queries": 40000, "vertices/pinched": 500, "validations": 10000, "refine/delaunay_edges": 10000},
        "assumptions": ["meshes are 2D triangulations; leaks by shared_ptr cycles are not judged"],
    },
    "C17": {
        "bins": [{"name": "c17", "src": ["c17.cpp"]}],
        "rule": "A case is one point cloud (random, grid, cocircular, collinear, clustered, duplicated, nearly duplicated, two lines), one polygon with up to three holes (star, ellipse, comb, staircase, spiral), one batch of recovered edges or one meshed surface; every triangulation is validated with exact integer predicates. Distinct by the coordinates.",
        "floors": {"cloud/grid": 50, "cloud/cocircular": 50, "cloud/collinear": 50, "cloud/clustered": 50, "cloud/near_duplicates": 50, "circles_checked": 50000, "general_position": 300, "edges/recovered": 800, "polygon/comb": 80, "polygon/spiral": 80, "polygon/staircase": 80, "holes/1": 100, "holes/2": 60, "triangles/constrained": 15000, "surface/inner_points": 1000, "surface/delaunay_checked": 30, "deviations": 100},
        "assumptions": ["points are equal or at least 1e-4 of the extent apart and polygons keep a clearance when the Delaunay condition is judged (the in-circle test of the library is not exact)", "the deviation criterion is judged on smooth surfaces"],
    },
    "C18": {
        "bins": [{"name": "c18", "src": ["c18.cpp"]}, {"name": "c18r", "src": ["c18.cpp"], "mode": "rel"}],
        "rule": "A case is one triple, quadruple or polygon of points, most of them within a few ulps of a degenerate configuration; signs are compared with exact integer arithmetic and magnitudes with long double. Distinct by the coordinates.",
        "floors": {"orient/zero": 3000, "orient/plain_formula_wrong": 1500, "orient/ulps_square": 2000, "orient/dyadic_line": 2000, "orient/offset": 2000, "in_circle/judged": 4000, "triangle/inside": 2000, "triangle/outside": 2000, "segments/cross": 1000, "segments/shared": 1000, "half_line/cross": 800, "inside/in": 3000, "inside/on": 500, "float/nonzero": 5000, "sphere_center": 4000},
        "assumptions": ["no underflow or overflow in the products of coordinates"],
    },
    "C12": {
        "bins": [{"name": "c12", "src": ["c12.cpp"]}],
        "rule": "A case is one curve or surface (smooth, polynomial or rational, random bounds) with a point, another curve or a direction, and a starting guess near a minimum or none; the returned parameters must lie in the bounds, the returned distance must be the one between the points at these parameters recomputed by an independent evaluator, no point of a fine sampling of the neighbourhood (or of the whole geometry where the search is global) may be closer, and a point built on the geometry must be at distance zero.",
        "floors": {"coordinate/both_signs": 72, "coordinate/negative": 82, "coordinate/positive": 82, "coordinate/solved": 240, "curve_curve/apart": 40, "curve_curve/crossing": 110, "curve_curve/judged": 149, "curve_curve/list": 43, "curve_curve/slsqp": 33, "curve_point/bracketed": 148, "curve_point/near": 145, "curve_point/on": 113, "curve_point/off": 186, "curve_point/cobyla": 228, "curve_point/slsqp": 72, "surf_curve/bracketed": 9, "surf_curve/near": 27, "surf_curve/through": 22, "surf_curve/apart": 13, "surf_point/bracketed": 44, "surf_point/near": 45, "surf_point/on": 33, "lines/meet": 180, "lines/deviation": 180, "closest/inside_list": 40, "closest/on": 40, "closest/pointers": 60, "closest/several": 110, "closest/values": 60},
        "assumptions": ["searches are judged with their default nlopt algorithm and with LN_COBYLA or LD_SLSQP where named", "a local search is judged against minima in the basin of its start"],
    },
    "C13": {
        "bins": [{"name": "c13", "src": ["c13.cpp"]}],
        "rule": "A case is one pair or list of curves or surfaces (degrees, knots, multiplicities, bounds, weights drawn independently, knots sometimes within tolerance of one another) and one operation: unify, join, connect, extend or split; the result is compared with the originals by the reference evaluator over all knot spans, junction continuity by one-sided derivatives of the reference evaluator.",
        "floors": {"join/mixed": 90, "join/polynomial": 204, "join/rational": 120, "join/apart": 102, "connect/c2": 48, "connect/c3": 48, "connect/cn": 45, "connect/c2_third": 51, "connect/c2_ellipse": 51, "connect/c2_sides": 12, "connect/c3_ellipse": 9, "extend/junctions": 309, "extend/piece": 150, "extend/natural": 45, "extend/point": 156, "extend/length": 87, "extend/relative": 60, "surf/join": 64, "surf/join_rational": 24, "surf/join_rational_scaled": 19, "surf/rejoined": 24, "surf/split": 48, "surf/to_curve": 42, "surf/unify": 120, "surf/reach": 600, "unify/info": 112, "unify/knot_count": 356, "unify/rational": 115, "unify/container": 119, "unify/copy": 127, "unify/pair": 80},
        "assumptions": ["weights are positive and within two decades", "continuity of a junction is judged up to the order the operation announces"],
    },
    "C14": {
        "bins": [{"name": "c14", "src": ["c14.cpp"]}],
        "rule": "A case is one family of section curves (mixed degrees, knots, rationality, sharing poles or coincident in part), one network of two crossing families, one profile with an axis, or one primitive; every section must be the isoparametric curve at its parameter (reference evaluator, all spans), spine tangents kept, every point of a revolution on its circle, networks interpolated on both families, broken networks refused.",
        "floors": {"auto/coincident": 1, "auto/common_end": 12, "auto/inner_sections": 336, "auto/rational": 75, "auto/sections": 696, "calculus/derivative": 1980, "calculus/integral": 2160, "general/approximated": 50, "general/kept": 52, "gordon/bent": 30, "gordon/broken": 7, "gordon/lists": 18, "gordon/points": 1794, "loft/braces": 11, "loft/degree_clamped": 99, "loft/flat_knots": 60, "loft/pointers": 33, "loft/rational": 124, "loft/sections": 1344, "primitive/circle": 69, "primitive/ellipse": 80, "primitive/points": 10200, "primitive/segment": 79, "revolution/moved": 190, "revolution/origin": 42, "revolution/rational": 69, "revolution/values": 17280, "spine/approx": 22, "spine/approx_rational": 27, "spine/common_end": 7, "spine/inner_sections": 304, "spine/polynomial": 45, "spine/rational": 42, "spine/tangents": 1524},
        "assumptions": ["sections are given in a sensible order; parameters of sections at least 1e-3 apart"],
    },
    "C11": {
        "bins": [{"name": "c11", "src": ["c11.cpp"]}],
        "rule": "A case is one curve or surface (B-spline, rational, line, circle, trimmed, reversed, offset, composite, on a surface) with a sub-range, a number of points, a tolerance or a deviation; lengths are confronted with an independent Gauss-Legendre quadrature per knot span in extended precision of the reference evaluator, arc length laws at their nodes, between them and against each other, discretisations at every point and in the middle of every interval.",
        "floors": {"adaptive/inserted": 30, "adaptive/bumps": 39, "adaptive/run": 36, "deviation/capped": 15, "deviation/lists": 120, "deviation/params": 7800, "deviation/reached": 90, "directions/normal3": 360, "directions/points": 360, "kinds/circle": 5, "kinds/composite": 5, "kinds/iso": 5, "kinds/line": 5, "kinds/offset": 5, "kinds/on_surface": 5, "kinds/reversed": 5, "kinds/trimmed": 5, "law/abs_curv": 36, "law/length_of_u": 36, "law/mutual": 180, "law/u_of_length": 36, "length/fixed": 19, "length/parts": 150, "length/rough": 108, "length/smooth": 27, "surface/grid": 60, "surface/u": 25, "surface/v": 25, "uniform/lists": 66, "uniform/steps": 1260},
        "assumptions": ["curves whose speed stays within a factor 5 and whose knots are not clustered are held to 3e-6 of the length, others to 3e-3 (limit of the adaptive quadrature)", "laws and uniform discretisation are judged on curves whose speed stays within a factor 4 and with at least 20 samples of the law"],
    },
    "C15": {
        "bins": [{"name": "c15", "src": ["c15.cpp"]}],
        "rule": "A case is one entity, nesting or collection written and read back (kind, degree, knots, poles, weights and bounds within a few ulps, values of both over the domain within rounding), or one document: valid ones (curves, interpolations, ragged arrays) built independently of the writer, and mutated ones (members removed, retyped, resized, values replaced, text truncated) which must either be read as a consistent geometry or rejected by an exception, under AddressSanitizer, UBSan and library assertions.",
        "floors": {"curve/double": 81, "curve/float": 54, "curve/wrong_dimension": 300, "derived/composite": 39, "derived/inner_offset": 36, "derived/offset": 27, "derived/trimmed": 43, "documents/bscurve": 27, "documents/interp_mode": 24, "documents/interp_one": 25, "documents/interp_params": 27, "documents/interp_two": 27, "documents/ragged": 54, "files/curves": 60, "files/surfaces": 57, "files/truncated": 24, "malformed/accepted": 42, "malformed/documents": 360, "malformed/rejected": 4620, "nested/on_revolution": 36, "nested/on_surface": 70, "nested/plane": 28, "rational/double": 87, "rational/float": 58, "readers/polynomial": 135, "rejected/documents": 240, "revolution/values": 720, "rsurface/double": 66, "rsurface/float": 14, "surface/double": 63, "surface/float": 14, "surface/generic": 102, "text/bad": 36, "text/read": 36},
        "assumptions": ["numbers of a document are JSON doubles", "kinds for which no reader exists are judged on the text written and on the reader refusing it"],
    },
    "C19": {
        "bins": [{"name": "c19", "src": ["c19.cpp"]}],
        "rule": "A case is one network of iso and cross curves (built on a B-spline surface, or blended curve by curve so that they cross exactly), one way of choosing the node counts and parameters, and one of the four interpolation modes; every node on a hard curve is confronted with the reference evaluation of that curve, announced sizes and ordering with the layout, affine and bilinear patches with their formula, edge meshes with the law they were given, elliptic smoothing with an independent extended precision Jacobi iteration, block limits with the untouched nodes, and inconsistent networks must be rejected.",
        "floors": {"blend": 90, "boundary": 90, "crossing/broken": 6, "crossing/meshed": 23, "curve_nodes": 15360, "edges/default": 8, "edges/law0": 50, "edges/law1": 15, "edges/law2": 9, "edges/points": 1020, "intersections/found": 90, "lattice/broken": 97, "meshes": 269, "mode/P1": 36, "mode/P1s": 31, "mode/P2": 28, "mode/P2s": 34, "nodes": 40800, "refused/bounds": 9, "refused/empty_parameters": 8, "refused/fewer_cross_curves": 7, "refused/fewer_curves": 7, "refused/fewer_lists": 10, "refused/fewer_parameter_lists": 10, "refused/no_curves": 8, "refused/no_parameters": 4, "refused/ragged_parameters": 8, "refused/sizes": 7, "reproduction/affine": 62, "reproduction/bilinear": 17, "sizes": 788, "sizes/short": 120, "smoothed/convex": 48, "smoothing/block": 76, "smoothing/compared": 150, "smoothing/converged": 84, "smoothing/nodes": 9840, "way/common": 45, "way/own_parameters": 45, "way/surface": 43},
        "assumptions": ["bilinear patches are claimed for linear blending without slope control, affine ones for every blending", "with slope control the slopes across the boundary are not claimed (observed to be taken along the curves)"],
    },
    "C21": {
        "bins": [{"name": "c21", "src": ["c21.cpp"]}],
        "rule": "A case is one curve or surface, a pole range or a set of fixed ends, and a well-posed set of value and derivative constraints (as many as, fewer or more unknowns than); the result is evaluated by the reference evaluator at every constraint, its degree, knots and poles outside the range are compared bit for bit, moving in place is compared with the copying form, and satisfied constraints must change nothing.",
        "floors": {"curve/constraints": 750, "curve/delta": 53, "curve/derivatives": 304, "curve/fixed": 93, "curve/kept": 81, "curve/move_to_constraints": 61, "curve/move_to_point": 70, "curve/moved_to_constraints": 126, "curve/moved_to_point": 69, "many/over": 68, "many/square": 6, "nothing": 36, "surface/constraints": 405, "surface/delta": 43, "surface/derivatives": 130, "surface/fixed": 27, "surface/kept": 40, "surface/move_to_point": 40, "surface/moved_to_constraints": 77, "surface/moved_to_point": 37},
        "assumptions": ["constraint sets are well posed: the rows of the system, scaled, are independent by at least 1e-3"],
    },
    "C22": {
        "bins": [{"name": "c22", "src": ["c22.cpp"], "flags": ["-isystem", "/usr/include/opencascade"], "libs": ["-lTKernel", "-lTKMath", "-lTKG2d", "-lTKG3d", "-lTKGeomBase", "-lTKBRep", "-lTKTopAlgo"]}],
        "rule": "A case is one polynomial or rational curve in two or three dimensions (through each of the converters), one polynomial surface with different pole counts in both directions, or one container; the kernel's object is read back through the kernel's own accessors (degree, knots, multiplicities, poles, weights, bounds) and evaluated by the kernel in every knot span up to the third derivative, against the reference evaluator on this library's object.",
        "floors": {"containers": 90, "containers/bad_grid": 72, "curve2": 63, "curve2/points": 750, "curve3": 75, "curve3/points": 960, "points2": 63, "points2/points": 750, "points3": 75, "points3/points": 960, "rational2": 63, "rational2/points": 720, "rational3": 63, "rational3/points": 750, "surface": 150, "surface/not_square": 129, "surface/points": 1170, "weighted4": 63, "weighted4/points": 750},
        "assumptions": ["weights count up to a common factor (the kernel drops equal ones)", "only the direction to the kernel exists in this library, and no converter for rational surfaces"],
    },
    "C24": {
        "bins": [{"name": "c24", "src": ["c24.cpp"]}],
        "rule": "A case is one edge (from a curve or two points) given vertices on, near and far from its curve, or one history of edges and closings offered to a wire in random order, orientation and distance to the loose ends; acceptance is confronted with the distances measured by dense sampling of the reference evaluator, the trimmed curve with its ends, the wire after every step with an independent chain of end points, and refused edges must change nothing.",
        "floors": {"closed/exact": 27, "closed/near": 11, "closed/open": 9, "edge/curve": 113, "edge/points": 58, "edge/tessellated": 240, "edge/vertices": 51, "vertex/accepted": 471, "vertex/far": 119, "vertex/far_segment": 219, "vertex/near": 226, "vertex/refused": 464, "wire/added": 1021, "wire/close": 123, "wire/closed": 300, "wire/copies": 83, "wire/gap": 67, "wire/loop": 158, "wire/refused": 145},
        "assumptions": ["distances closer to a tolerance than a tenth of it are not judged", "vertices put at the far end of an open curve are judged by position only"],
    },
    "C25": {
        "bins": [{"name": "c25", "src": ["c25.cpp"]}],
        "rule": "A case is one surface with a triangulation of its domain, one planar triangulation, or one fan of triangles in space; for every triangle and every criterion the value is confronted with the largest of the quantities recomputed from the definition by the reference evaluator over all the places examined, and the place proposed with those where that value is reached; meshes refined until a criterion is met are measured again independently.",
        "floors": {"areas": 180, "criteria/deviation": 1157, "criteria/deviation2": 1157, "criteria/distance": 2254, "criteria/distance2": 1157, "criteria/distance3": 2254, "criteria/edge_surface": 2254, "edge_ranges": 1779, "outside": 90, "places/deviation": 1157, "places/deviation2": 1157, "places/distance": 2253, "places/distance2": 1157, "places/distance3": 2254, "places/edge_surface": 2254, "polygons/limited": 27, "polygons/met": 18, "polygons/met_by_points": 15, "refined/limited": 7, "refined/met": 16, "refined/met_by_points": 16, "refined/refused": 7, "shapes/closed_by_border": 33, "shapes/edge": 2626, "shapes/ratio": 1636, "shapes/small": 966, "space_fans": 180},
        "assumptions": ["angular criteria are judged on smooth surfaces (degree two and above) whose tangents are not nearly parallel on the triangle"],
    },
    "C26": {
        "bins": [{"name": "c26", "src": ["c26.cpp"], "mode": "asan0", "first_inc": ["harness/pystub"], "repo_inc": ["python"],
                  "repo_src": ["python/gbsbind.cpp", "python/gbsBindCurves.cpp", "python/gbsbindapprox.cpp", "python/gbsBindSurfaces.cpp", "python/gbsbindinterp.cpp", "python/gbsbindmesh.cpp", "python/gbsBindBuildSurfaces.cpp", "python/gbsBindSurfaceTools.cpp", "python/gbsBindDiscretize.cpp", "python/gbsBindCurveTools.cpp", "python/gbsBindShaping.cpp", "python/gbsbindbuildcurve.cpp"],
                  "flags": ["-I/usr/include/python3.12", "-isystem", "/usr/include/vtk-9.1", "-fvisibility=hidden"],
                  "libs": ["-lpython3.12", "-lvtkCommonCore-9.1", "-lvtkCommonDataModel-9.1", "-lvtkCommonMath-9.1", "/usr/lib/x86_64-linux-gnu/libvtkWrappingPythonCore3.12-9.1.so"]}],
        "rule": "A case is one generated object (curve, surface, wrapper, function, mesh) built and driven through the real Python module in an embedded interpreter, side by side with the same object driven through the C++ interface: every value, array, state after every edit, copy, pickle and representation, and every call refused, must be the same on both sides. Distinct by a hash of the object.",
        "floors": {"analysis": 24, "arrays": 24071, "builders": 36, "calls": 235744, "curve/bounds": 16, "curve/copies": 89, "curve/degree": 16, "curve/insert": 15, "curve/remove": 15, "curve/reverse": 16, "curve/reversed": 15, "curve/trim": 16, "done": 3276, "elliptic": 24, "evaluated": 1623, "interpolation": 36, "misc": 72, "oracle_checks": 351717, "rational/copies": 85, "rational/degree": 17, "rational/insert": 18, "rational/trim": 14, "rsurface/copies": 66, "rsurface/insert_u": 11, "rsurface/insert_v": 11, "rsurface/invert": 13, "rsurface/reverse_u": 13, "rsurface/reverse_v": 9, "rsurface/trim_u": 13, "sampling/limited": 10, "surface/copies": 58, "surface/insert_u": 12, "surface/insert_v": 12, "surface/invert": 9, "surface/reverse_u": 8, "surface/reverse_v": 10, "surface_evaluated": 730, "tfi": 21, "tools": 90, "wrappers": 54},
        "assumptions": ["the viewers (gbsbindrender.cpp) are left out: they only open windows", "the IGES writer is replaced by a stand-in, its OpenCASCADE library is not installed", "values are compared to 1e-11, optimisations included: both sides run the same code"],
    },
}
NOT_APPLICABLE = {}
