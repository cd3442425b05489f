#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (their single source)."""
import json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C, K, B = "src/curve/mod.rs", "src/curve/knots/mod.rs", "src/curve/basis/mod.rs"
PT = "src/curve/points/mod.rs"
KM, PM = "src/curve/knots/methods.rs", "src/curve/parameters/methods.rs"
INT = "src/curve/points/methods/interpolation.rs"
FIT, FIX, LOO = ("src/curve/points/methods/fit/" + x for x in ("mod.rs", "fixed.rs", "loose.rs"))
G = "src/curve/generation/mod.rs"
INS, SPL, REV, MER = ("src/manipulation/" + x for x in ("insert.rs", "split.rs", "reverse.rs", "merge.rs"))
TY = "src/types.rs"

P = []
def prop(id, title, statement, over, text, why, mech, observe, technique, note):
    files = []
    for m in mech:
        if m[1] not in files:
            files.append(m[1])
    P.append(dict(
        line=dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=f"{f}: {w}") for n, f, w in mech],
                         observe_at=observe, hook_needed=None)),
        check=dict(
            property=id, quick_cmd=f"./check.sh {id} quick", thorough_cmd=f"./check.sh {id} thorough",
            technique=technique, level="exploration", level_note=note)))

inp, hist = ["inputs"], ["histories", "inputs"]
SAMPLE = "Generated-input search: no absence proof. Trusts the reference model in harness/src/refm.rs (double-double arithmetic) and the stated rounding tolerances, which are three or more orders above the observed error of correct code and far below any structural error."
CURVES = "every clamped curve on [0,1] of degree 1 to 12 (11 and above rarely), any dimension, control points and knot spacing, repeated internal knots included"

prop("C01", "Evaluation gives the point the knots and control points define",
 "For every parameter in [0,1], evaluating a curve returns, up to rounding, the point that the mathematical B-spline with this degree, these knots and these control points has there. Polynomial pieces belong to their left end, the last one to both ends, and evaluating is the same as taking the derivative of order zero.",
 inp, f"{CURVES} (multiplicity up to degree+1), and every parameter in [0,1]: knots, their floating-point neighbours and the ends as well",
 "The unit tests evaluate a handful of fixed curves at a few parameters, with simple, evenly spaced knots; they do not reach repeated knots, parameters next to knots, or higher degrees.",
 [("sum over basis functions", C, "evaluate, evaluate_derivative"), ("Cox-de Boor recursion", B, "basis"), ("basis functions by index", K, "Knots::evaluate")],
 ["Curve::evaluate", "Curve::evaluate_derivative"],
 "property-based testing against a reference model (de Boor's algorithm in double-double)", SAMPLE)

prop("C02", "Derivatives of every order are the true derivatives of the curve",
 "For every order k and every parameter in [0,1], the k-th derivative of a curve is, up to rounding, the k-th derivative of the polynomial piece that owns the parameter, with one coordinate per coordinate of the curve. Orders above the degree give exactly zero, and the highest available order is the degree.",
 inp, f"{CURVES}, every parameter in [0,1] and every order from 0 to beyond the degree",
 "The tests check a few orders of a few curves of low degree; stale or wrongly scaled derivative control points show only for certain degrees, orders, and knot spacings.",
 [("derivative control points", PT, "ControlPoints::derive"), ("derivative knots", K, "Knots::derive"), ("orders above the degree", C, "evaluate_derivative")],
 ["Curve::evaluate_derivative", "Curve::max_derivative"],
 "property-based testing against a reference model (differentiated de Boor in double-double)", SAMPLE)

prop("C03", "Derivative curves are curves in their own right",
 "The k-th derivative curve has degree p-k and, at every parameter, its value and its derivatives of every order are the k-th and higher derivatives of the original curve. It can itself be differentiated repeatedly, and reversed, and gives the corresponding derivatives of the original; taking it leaves the original unchanged.",
 inp, f"{CURVES}, every order k from 0 to p, every parameter and every further order",
 "The tests look at single values of first derivative curves; that a derivative curve offers its own derivatives, and those after a reversal, is not tested at all.",
 [("derivative curve", C, "get_derivative_curve"), ("caches", PT, "ControlPoints::derive"), ("caches", K, "Knots::derive"), ("reversal", REV, "reverse")],
 ["Curve::get_derivative_curve", "Curve::evaluate_derivative", "Curve::reverse"],
 "property-based testing against a reference model, metamorphic reversal", SAMPLE)

prop("C04", "Parameters outside [0,1] are refused, parameters inside never are",
 "Evaluating a curve or any of its derivatives at a parameter that is not in the closed interval [0,1], infinities and NaN included, returns the out-of-bounds error naming that parameter and the bounds. At every parameter in [0,1] it returns a finite point of the curve's dimension; it never panics.",
 inp, "every curve, every double-precision parameter and every derivative order",
 "The tests try one parameter below and one above the interval; neighbours of the bounds, NaN and infinities, and the bounds in combination with derivative orders are not reached.",
 [("bounds check", C, "evaluate_derivative"), ("basis at the right end", B, "basis")],
 ["Curve::evaluate", "Curve::evaluate_derivative"],
 "property-based testing of acceptance and refusal with boundary-value generators", "Generated-input search over special and random doubles; no absence proof. The oracle is exact (no tolerance).")

prop("C05", "Basis functions are the B-spline basis of the knot vector",
 "For every clamped knot vector, derivative order k and parameter in [0,1], the basis functions of degree p-k on the knots of that order have the values of the B-spline basis. They are never negative, vanish outside their p-k+2 knots, sum to one, and the last one is one at the right end.",
 inp, "every clamped knot vector of degree 1 to 12 (11 and above rarely) with repeated knots, every derivative order, every index and every parameter in [0,1]",
 "The tests compare a few values for one knot vector; repeated knots, where quotients become 0/0, and higher orders are not sampled.",
 [("recursion with vanishing denominators", B, "basis"), ("evaluation by order and index", K, "Knots::evaluate")],
 ["Knots::evaluate", "basis::basis"],
 "property-based testing against a reference model, plus partition-of-unity, sign and support invariants", SAMPLE)

prop("C06", "Curves stay in the hull of their control points and change only locally",
 "Every curve point lies in the convex hull of the degree+1 control points of its piece; the curve starts at the first and ends at the last control point, with tangents along the first and last leg of the control polygon. Moving one control point moves the curve by its basis function times the displacement, and not at all outside the degree+2 knots that belong to the point.",
 inp, f"{CURVES}, every parameter, every control point and every displacement",
 "No test states any of these geometric guarantees; single sample points cannot.",
 [("sum over basis functions", C, "evaluate_derivative"), ("local support and partition of unity", B, "basis"), ("end tangents", PT, "ControlPoints::derive")],
 ["Curve::evaluate", "Curve::evaluate_derivative"],
 "property-based testing of geometric invariants and a metamorphic relation (moved control point)", SAMPLE)

prop("C07", "Knot insertion never changes the shape of the curve",
 "Inserting a knot inside (0,1), once or repeatedly up to multiplicity degree+1, leaves the curve and all its derivatives unchanged at every parameter and adds exactly the requested knots. Control points outside the affected range are kept as they are, and cached derivative data belong to the refined curve.",
 inp, f"{CURVES}, every parameter in (0,1) (existing and repeated knots as well), every admissible number of repetitions, sequences of insertions, through every interface for it",
 "The tests insert into one or two curves with simple knots and compare a few control points; insertion at or next to repeated knots, up to full multiplicity, is where the index arithmetic matters.",
 [("Boehm's algorithm", INS, "insert"), ("span search", K, "find_idx"), ("caches", PT, "ControlPoints::derive"), ("repeated insertion", C, "insert_times")],
 ["Curve::insert", "Curve::insert_times", "manipulation::insert::insert"],
 "property-based testing against a reference model, piece by piece", SAMPLE)

prop("C08", "Impossible insertions are refused and change nothing",
 "Inserting a knot at a parameter that is not strictly between 0 and 1 (NaN and infinities included), or at a knot that already has multiplicity degree+1, returns an error that names the parameter and the violated limit, and leaves the curve bit-for-bit as it was. A repeated insertion that runs into the limit half-way reports it and leaves a valid curve of the same shape.",
 inp, "every curve (multiplicities up to degree+1), every inadmissible parameter, through every interface for insertion",
 "The tests try one value on either side; NaN, the exact ends, and repeated insertions that fail half-way are not covered.",
 [("input checks", INS, "insert"), ("repeated insertion", C, "insert_times"), ("multiplicity", K, "multiplicity")],
 ["Curve::insert", "Curve::insert_times", "manipulation::insert::insert"],
 "property-based testing of refusals, bit-for-bit snapshots", "Generated-input search; no absence proof. Refusal and unchanged state are compared exactly.")

prop("C09", "Splitting gives two curves that trace the original exactly",
 "Splitting a curve at any parameter in (0,1), knots and repeated knots up to multiplicity degree included, gives two clamped curves of the same degree that trace the left and the right part of the original, meet at the split point, and have exactly the knots of their part. Normalised pieces run over [0,1], others over their part of the original interval; derivative data are consistent and the original is unchanged.",
 inp, f"{CURVES}, every split parameter in (0,1), every choice of which pieces to normalise",
 "The tests split one or two curves at a few parameters; splits at repeated knots and next to them, and the unnormalised pieces, are hardly sampled.",
 [("refinement to full multiplicity and cutting", SPL, "split_and_normalize"), ("span search", K, "find_idx"), ("normalisation", K, "normalize"), ("caches", PT, "ControlPoints::derive")],
 ["Curve::split", "manipulation::split::split", "manipulation::split::split_and_normalize"],
 "property-based testing against a reference model, piece by piece", SAMPLE)

prop("C10", "Impossible splits are refused, possible ones never are",
 "Splitting at a parameter that is not strictly between 0 and 1 (NaN and infinities included), or at a knot of multiplicity degree+1, returns an error naming the parameter and the violated limit. Every other split succeeds with pieces of the right sizes, and no split, accepted or refused, changes the original.",
 inp, "every curve (multiplicities up to degree+1) and every double-precision parameter",
 "The tests try one value on either side; NaN, the exact ends and their neighbours, and saturated knots are not covered.",
 [("input checks", SPL, "split_and_normalize"), ("multiplicity", K, "multiplicity")],
 ["Curve::split", "manipulation::split::split", "manipulation::split::split_and_normalize"],
 "property-based testing of acceptance and refusal, bit-for-bit snapshots", "Generated-input search; no absence proof. Refusal and unchanged state are compared exactly.")

prop("C11", "Reversal runs the same curve backwards, and twice is the identity",
 "The reversed curve at u is the curve at 1-u, and its k-th derivative is that of the curve at 1-u with the sign (-1)^k, for every order. Its control points are the original ones in reverse order, the cached derivative data are those of the reversed curve, and reversing twice restores the curve; the copying form leaves its argument unchanged.",
 inp, f"{CURVES}, every parameter and every order, through every interface for reversal",
 "The tests reverse symmetric or evenly spaced knots and compare values; signs of odd derivatives of higher order and uneven knots are where a reversal goes wrong.",
 [("reversal of caches with signs", PT, "ControlPoints::reverse"), ("knot reversal", K, "reverse"), ("curve reversal", REV, "reverse, reversed")],
 ["Curve::reverse", "manipulation::reverse::reverse", "manipulation::reverse::reversed"],
 "property-based testing against a reference model, involution", SAMPLE)

prop("C12", "Merged curves join smoothly and stay put away from the joint",
 "Merging two clamped curves of equal degree p and dimension gives one clamped curve on [0,1] whose first half is the first and whose second half is the second curve, with a single knot at 1/2 and therefore p-1 continuous derivatives there. Only the p control points of each curve next to the joint may move, all others and all knots (halved and shifted) are kept, and neither argument changes.",
 inp, "every pair of clamped curves of one degree (1 to 7) and dimension, with any numbers of segments and uneven or repeated knots, with or without constraints, through append, prepend and the free functions",
 "The tests merge small curves of one size and mostly degree 2; curves with different numbers of segments and higher degrees exercise other index ranges.",
 [("merging", MER, "merge_with_constraints"), ("knots of the result", MER, "create_merged_knot_vector, adjust_knots"), ("control points of the result", MER, "adjust_shifted_control_points, generate_control_point_vector_of_merged_spline"), ("interfaces", C, "append, prepend")],
 ["Curve::append", "Curve::prepend", "manipulation::merge::merge"],
 "property-based testing of structural and smoothness invariants of the result", SAMPLE)

prop("C13", "Merging makes the smallest change that joins the curves smoothly",
 "Among all displacements of the p control points of each curve next to the joint after which the two curves join with p-1 continuous derivatives, merging applies the one with the smallest sum of squares. In particular curves that already join smoothly keep their shape, and a curve that was split in the middle is restored by merging the pieces.",
 inp, "every pair of clamped curves of one degree (1 to 7) and dimension whose joint system is not ill-conditioned, and every curve split at 1/2",
 "The tests compare a few numbers computed for one pair of curves; that the change is minimal is a statement about all pairs.",
 [("linear system with multipliers", MER, "construct_Nmat, calculateKconst"), ("solver with refinement", TY, "solve"), ("shifted control points", MER, "solve_linear_equation_system")],
 ["Curve::append", "Curve::prepend", "manipulation::merge::merge"],
 "property-based testing against an independent minimal-norm solution in double-double, round trip split/merge", SAMPLE + " Joint systems with condition number above 1e12 are excluded and counted.")

prop("C14", "Constrained merging keeps the constrained points in place",
 "Merging with up to p-1 constrained parameters, given for the first or the second curve, leaves the points at these parameters where they were, still joins the curves with p-1 continuous derivatives, and otherwise makes the smallest change. Append and prepend attribute the constraints to the right curve, and the fixed-end merges keep the end of the first or the start of the second curve.",
 inp, "every pair of clamped curves of one degree (2 to 7) and dimension, every set of up to p-1 compatible constraints at knots, ends and inner parameters whose system is not ill-conditioned",
 "The tests use one pair of curves with symmetric constraints; which curve a constraint belongs to, and constraints away from the joint, are not distinguished by them.",
 [("constraint rows", MER, "calculateGV, calculateHW"), ("attribution of constraints", C, "append_constrained, prepend_constrained"), ("fixed ends", MER, "merge_from, merge_to"), ("solver with refinement", TY, "solve")],
 ["Curve::append_constrained", "Curve::prepend_constrained", "manipulation::merge::merge_from", "manipulation::merge::merge_to"],
 "property-based testing against an independent constrained minimal-norm solution in double-double", SAMPLE + " Joint systems with condition number above 1e12 are excluded and counted.")

prop("C15", "Curves that cannot be merged are refused and left alone",
 "Merging curves of different degree or dimension, unclamped curves, curves not on [0,1], or with at least as many constraints as the degree, returns an error that names such an offence with its numbers; every other pair is merged, however close its knots. Neither curve is changed in either case. The methods that return no error panic on too many constraints and leave the curve as it was.",
 inp, "every pair of curves with any combination of these faults, and pairs without any (gaps between knots down to the smallest denormal), through the three merge functions; any number of constraints through the methods",
 "The tests provoke each error once; combinations, faults in the second curve only, and near misses are not covered.",
 [("input checks", MER, "merge_with_constraints"), ("clamped, normed", K, "is_clamped, is_normed")],
 ["manipulation::merge::merge", "manipulation::merge::merge_from", "manipulation::merge::merge_to"],
 "property-based testing of acceptance and refusal, bit-for-bit snapshots", "Generated-input search; no absence proof. Any applicable error is accepted; the order of the checks is not prescribed.")

prop("C16", "Appending, prepending and merging mirror images agree",
 "Appending b to a, prepending a to b, and merging a and b give the same curve, and the fixed-end merges equal appending with the corresponding constraint. Merging the reversed curves in exchanged order, with mirrored constraints, and reversing the result gives that curve, too.",
 inp, "every pair of clamped curves of one degree (1 to 7) and dimension and every compatible set of constraints whose system is not ill-conditioned",
 "The tests check append and prepend separately on symmetric examples; agreement is a relation between results that no single expected value expresses.",
 [("interfaces", C, "append, prepend, append_constrained, prepend_constrained"), ("merging", MER, "merge, merge_from, merge_to"), ("reversal", REV, "reversed")],
 ["Curve::append", "Curve::prepend", "manipulation::merge", "Curve::reverse"],
 "property-based testing of metamorphic relations between interfaces", SAMPLE + " Joint systems with condition number above 1e12 are excluded and counted.")

prop("C17", "Knot placement follows its definition for every size",
 "For every degree, number of segments and ascending parameters from 0 to 1, the uniform, averaging and de Boor placements give n+p+2 ascending knots, clamped to 0 and 1, that equal the textbook formulas. De Boor knots leave at least one parameter in every knot span (also when parameters outnumber control points), averaged knots interlace with the parameters, and placements agree with the dispatching function.",
 inp, "every degree from 1 to 10, up to 130 segments, and every ascending parameter sequence from 0 to 1, equal neighbours included; for de Boor any number of parameters",
 "The tests compare one example per method; off-by-one errors in windows and interpolation indices show only for particular ratios of sizes.",
 [("uniform", KM, "uniform"), ("averaging", KM, "averaging"), ("de Boor", KM, "de_boor"), ("dispatch", K, "generate")],
 ["knots::generate", "knots::methods"],
 "property-based testing against textbook formulas in double-double and span/interlacing invariants", SAMPLE)

prop("C18", "Parametrisation follows the data and never leaves [0,1]",
 "For every sequence of data points (not all equal), the equally spaced, centripetal and chord-length parametrisations give one parameter per point, from exactly 0 to exactly 1, never descending, and never outside [0,1], proportional to the index, the accumulated square roots of the distances, or the accumulated distances. Reversing the data mirrors the parameters.",
 inp, "every sequence of 2 or more data points in any dimension and scale, repeated neighbours included",
 "The tests compare one example per method; accumulated rounding that pushes a parameter above 1 or breaks the order needs particular data.",
 [("equally spaced", PM, "equally_spaced"), ("centripetal", PM, "centripetal"), ("chord length", PM, "chord_length"), ("dispatch", "src/curve/parameters/mod.rs", "generate")],
 ["parameters::generate", "parameters::methods"],
 "property-based testing against textbook formulas in double-double and order/range invariants", SAMPLE)

prop("C19", "An interpolating curve passes through every data point",
 "Interpolating data points with any parametrisation and knot placement that leave the problem solvable gives a curve of the requested degree, with one control point per data point and the knots of the placement, that passes through every data point at its parameter, by its own evaluation. The built-in interpolation does so with equally spaced parameters and uniform knots.",
 inp, "every degree 1 to 7 and up to 68 data points in up to 6 dimensions, every parametrisation (also given explicitly) and knot placement whose collocation matrix has a smallest singular value of at least 1e-6",
 "The tests interpolate one small data set per method; accuracy and the pairing of parameters, knots and data for other sizes are not covered.",
 [("collocation system", INT, "interpolate"), ("solver with refinement", TY, "solve"), ("built-in choice", G, "generate")],
 ["curve::generation::generate", "points::methods::interpolation::interpolate"],
 "property-based testing: round trip data -> curve -> evaluation", SAMPLE + " Nearly singular systems are excluded and counted; four recorded findings (known-findings.txt) are reproduced on every run.")

prop("C20", "A least-squares fit with loose ends minimises the squared distances",
 "For every data set and every admissible number of segments, the control points of the fit with loose ends make the sum of squared distances between data points and the curve at their parameters as small as possible: no change of any control point reduces it. The curve has the requested degree and number of segments and the knots of the placement.",
 inp, "every degree 1 to 7, n <= m segments, up to 98 data points in up to 6 dimensions, built-in and explicit parameters and knots, repeated parameters included, unless the normal equations are nearly (but not fully) singular",
 "The tests compare control points of one example; optimality is a statement about all alternatives for all data.",
 [("normal equations", LOO, "fit, calculate_coefficient_matrix"), ("assembly", FIT, "compute_matrix"), ("solver with refinement", TY, "solve"), ("built-in choice", G, "generate")],
 ["curve::generation::generate", "fit::loose::fit"],
 "property-based testing of the optimality condition (vanishing gradient in double-double)", SAMPLE)

prop("C21", "A least-squares fit with fixed ends keeps the ends and is optimal inside",
 "The fit with fixed ends has the first and the last data point as its first and last control point, exactly, and therefore starts and ends there. Among all such curves it minimises the sum of squared distances of the inner data points to the curve at their parameters; it has the requested degree and number of segments and the knots of the placement.",
 inp, "as for the loose fit, single-segment lines without any free control point included",
 "The tests compare control points of one example; the smallest sizes and optimality for arbitrary data are not covered.",
 [("constant terms of the fixed ends", FIX, "generate_qvectors, calculate_constant_terms_matrix"), ("normal equations", FIX, "fit"), ("solver with refinement", TY, "solve")],
 ["curve::generation::generate", "fit::fixed::fit"],
 "property-based testing of the optimality condition (vanishing gradient in double-double) and exact ends", SAMPLE)

prop("C22", "Penalised fits minimise distance plus weighted control-point differences",
 "With penalisation weight lambda and order kappa, fits minimise the sum of squared distances plus lambda times the sum of squared kappa-th differences of consecutive free control points: all of them with loose ends, all but the first and last with fixed ends. A weight of zero gives the unpenalised fit, and fixed ends stay exact.",
 inp, "loose and fixed ends, every order from 1 to 4 that the sizes admit, weights 0 and 1e-5 to 1e4, uniform knots (any placement for weight zero), random data",
 "The tests use one weight and mostly low order; the difference operator of higher order and the weight's place in the equations are not separated by them.",
 [("difference operator", FIT, "difference_operator"), ("finite differences", LOO, "calculate_finite_difference_matrix"), ("finite differences, fixed", FIX, "calculate_finite_difference_matrix"), ("assembly", FIT, "compute_matrix")],
 ["curve::generation::generate", "fit::loose::fit", "fit::fixed::fit"],
 "property-based testing of the optimality condition (vanishing gradient in double-double), metamorphic weight zero", SAMPLE)

prop("C23", "Requests outside the limits are refused by name, others succeed",
 "Generating a curve (interpolation, fits, from control points) or knots succeeds whenever degree >= 1, degree <= segments, segments <= data segments, parameters match the data, the penalty order leaves a difference (kappa < n, with fixed ends kappa < n-1), the weight and the penalty it weighs are finite and not negative, and knots are uniform for a positive weight. Otherwise an error names a violated limit and its values; no request panics or fails to return.",
 inp, "every combination of sizes, degree, penalty order and weight (NaN and infinities included) around the limits",
 "The tests provoke each error once with one size; limits met exactly and combined violations are where off-by-one errors hide.",
 [("fit input checks", FIT, "input_checks"), ("placement input checks", KM, "inputCheck"), ("dispatch", G, "generate"), ("smallest fixed fits", FIX, "fit")],
 ["curve::generation::generate", "fit::loose::fit", "fit::fixed::fit", "knots::generate"],
 "property-based testing of acceptance and refusal around every limit", "Generated-input search; no absence proof. Any applicable error is accepted, and a call that consumes 30 s of processor time (normal: milliseconds) counts as not returning.")

prop("C24", "Any history of operations keeps the curve valid and predictable",
 "After any sequence of insertions, reversals, splits, merges and differentiations, the curve is valid (clamped ascending knots, matching numbers of control points, derivative data of the current curve) and is exactly the curve that follows from the starting curve by the re-parametrisations and joins performed. Operations that are refused, evaluations, and changes to copies leave it bit-for-bit as it was.",
 hist, "histories of up to 14 operations with arbitrary arguments on arbitrary (given or interpolated) starting curves of degree 1 to 5",
 "The tests apply one operation to a fresh curve; caches that are stale or misaligned after one operation only show in the next one.",
 [("cached derivative data", PT, "ControlPoints::derive, reverse"), ("cached derivative knots", K, "derive, normalize, rescale"), ("operations", C, "insert, insert_times, split, reverse, append, prepend, get_derivative_curve"), ("copies", C, "Clone")],
 ["Curve", "manipulation"],
 "stateful (model-based) property testing of operation histories", SAMPLE)

prop("C25", "Knot queries agree with a plain scan of the knot vector",
 "For every ascending knot vector, the degree, counts, domain and internal knots, multiplicities and the knots of every derivative order are those of the vector. Searching the nearest domain knot strictly before, at or before, strictly after, or at or after a parameter finds, for every derivative order, the knot with that value, and stops at the ends of the domain for parameters beyond them.",
 inp, "every ascending knot vector (clamped or not, repeated knots, any range) of degree 1 to 9, every derivative order, every parameter inside and outside the domain",
 "The tests search one knot vector at a few values; repeated knots, parameters at the ends, and higher derivative orders use other index ranges.",
 [("searches", K, "find_idx"), ("multiplicity", K, "multiplicity"), ("counts and views", K, "segments, internal, domain, len")],
 ["curve::knots::Knots"],
 "property-based testing against a linear scan", "Generated-input search; no absence proof. The oracle is exact (values, not positions among equal knots).")

prop("C26", "Rescaling of knots is affine; knot predicates match their definition",
 "Normalising a knot vector maps its first knot to exactly 0, its last to exactly 1, and all others affinely in between, for all derivative orders alike; rescaling to another interval is the affine map and can be undone. A knot vector is reported as clamped, normed, sorted or uniform exactly if it is.",
 inp, "every ascending knot vector (clamped or not) in any range, every target interval, and vectors in which one knot is changed by as little as one rounding error",
 "The tests normalise one clamped vector; unclamped vectors, where orders differ, and near misses of the predicates are not covered.",
 [("affine map", K, "rescaled_knot"), ("all orders", K, "normalize, rescale"), ("predicates", K, "is_clamped, is_normed, is_sorted, is_uniform")],
 ["curve::knots"],
 "property-based testing against definitions, round trip", SAMPLE)

prop("C27", "Every operation commutes with affine maps of space",
 "Mapping all points by an affine map (to any dimension) before evaluating, differentiating, inserting, splitting, reversing, merging, interpolating or fitting gives the image of the result without the map: no operation depends on the choice of coordinates, and each coordinate is handled independently of the others. Derivatives see the linear part only.",
 inp, "every affine map with small rational entries, every curve, pair of curves, and data set; where parameters depend on distances, signed permutations with scaling",
 "The tests work with one coordinate system; coordinates that are mixed up or left out need several dimensions and a comparison of two runs.",
 [("evaluation", C, "evaluate_derivative"), ("merging by coordinate", MER, "solve_linear_equation_system, adjust_shifted_control_points"), ("fits by coordinate", FIT, "compute_svd"), ("interpolation", INT, "interpolate")],
 ["Curve", "manipulation", "curve::generation"],
 "property-based testing of a metamorphic relation (affine equivariance)", SAMPLE + " Linear systems with condition number above 1e5 (generation) or 1e12 (joints) are excluded and counted.")

prop("C28", "Curves from control points keep them and get the knots asked for",
 "Generating a curve from control points keeps these control points exactly and gives it the knots that were passed, uniform knots, or knots placed by the chosen parametrisation of the control points and the chosen placement. The resulting curve is valid and evaluates as the curve with these knots and control points.",
 inp, "every degree, control points and choice of knots, all nine combinations of parametrisation and placement included",
 "The tests build one curve per variant; wrong pairings of parametrisation and placement need data for which the results differ.",
 [("dispatch", G, "generate"), ("placement", KM, "uniform, averaging, de_boor"), ("parametrisation", PM, "equally_spaced, centripetal, chord_length")],
 ["curve::generation::generate"],
 "property-based testing against independently computed parameters and knots", SAMPLE)

prop("C29", "Mirrored data give the mirrored curve",
 "Interpolating or fitting the data points in reverse order gives the reverse of the curve through the original order, for loose and fixed ends, with and without penalty, for every parametrisation, and for uniform and averaged knots.",
 inp, "every degree 1 to 7, up to 98 data points in up to 6 dimensions, whose linear system has condition number below 1e5",
 "The tests look at one direction only; a treatment of the two ends that differs has no other witness.",
 [("fixed ends", FIX, "generate_qvectors, calculate_constant_terms_matrix"), ("loose ends", LOO, "calculate_coefficient_matrix"), ("interpolation", INT, "interpolate"), ("placement", KM, "uniform, averaging")],
 ["curve::generation::generate", "fit", "interpolation"],
 "property-based testing of a metamorphic relation (mirrored data)", SAMPLE)

prop("C30", "Refinements commute: order, reversal and splitting do not matter",
 "Inserting the same knots in any order gives the same knots and control points. Inserting the mirrored knots into the reversed curve and reversing, or inserting into the pieces of a split instead of the curve before splitting, gives that result, too.",
 hist, f"{CURVES}, every set of two to five insertions in every order, every split among them",
 "The tests apply one sequence; that two histories meet cannot be expressed by an expected value.",
 [("insertion", INS, "insert"), ("reversal", REV, "reverse"), ("splitting", SPL, "split_and_normalize")],
 ["Curve::insert", "Curve::reverse", "Curve::split"],
 "property-based testing of metamorphic relations between histories", SAMPLE)

prop("C31", "Data taken from a curve are given back as that curve",
 "Interpolating data points that were taken from a curve of the same degree, knots and parameters gives back its control points. So do fits with loose and with fixed ends, whatever the number of data points, and penalised fits if the penalised differences of the control points vanish.",
 inp, "every degree 1 to 7, every number of control points and data points, all placements and explicit knots and parameters, weights and penalty orders, whose linear system has condition number below 1e5",
 "The tests compare with recorded numbers of single cases; that the data determine the curve they come from is a statement about every curve, and needs no record.",
 [("interpolation", INT, "interpolate"), ("fits", FIT, "compute_svd, compute_matrix"), ("fixed ends", FIX, "fit"), ("loose ends", LOO, "fit")],
 ["interpolation::interpolate", "fit::loose::fit", "fit::fixed::fit"],
 "property-based testing of a round trip (curve to data to curve)", SAMPLE)

prop("C32", "Curves depend on their knots and control points only",
 "A curve whose knots or control points were written, or exchanged with those of another curve, and then refreshed (knots, then control points derived) or assembled anew is in every respect the curve built from these knots and control points: nothing of its derivative data or its history remains. Containers return the points, counts and dimension put into them.",
 hist, "every curve of degree 1 to 6 and sequences of 1 to 5 writes, exchanges and operations, with equal and different sizes, and spoiled derivative data",
 "The tests build every curve anew; data left over from a former state only show after a particular sequence of edits, often of unchanged sizes.",
 [("refresh", PT, "ControlPoints::derive, matrix_mut, get_mut"), ("refresh", K, "Knots::derive, vector_mut"), ("assembly", C, "Curve::new")],
 ["Curve", "curve::points::ControlPoints", "curve::knots::Knots", "curve::points::DataPoints"],
 "stateful property testing against freshly built curves (bit for bit)", "Generated-input search; no absence proof. Both sides are computed by the code under test; that freshly built curves are right is C01 to C03.")

prop("C33", "Results do not depend on what else runs",
 "Every operation is a function of its arguments: the same operations on the same curve give bit-for-bit the same results alone, by turns with operations on other curves, at the same time on other threads, and when repeated; one curve can be evaluated by many threads at once.",
 ["schedules", "histories", "inputs"], "2 to 4 curves, of the same or of other sizes and knots, with scripts of 3 to 10 operations, in any order of turns and on concurrent threads",
 "Each test runs its own curve; results that are kept between calls or shared between curves need several similar curves in the same process.",
 [("evaluation", C, "evaluate_derivative"), ("basis", B, "basis"), ("operations", INS, "insert"), ("linear systems", TY, "solve")],
 ["Curve", "curve::knots::Knots::evaluate", "manipulation"],
 "property-based testing of interleavings and concurrent threads against runs alone", "Generated-input search; no absence proof. Schedules by turns are generated and replayed exactly; concurrent runs depend on the scheduler of the machine.")

if __name__ == "__main__":
    P.sort(key=lambda x: x["line"]["id"])
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["line"]) + "\n")
    m = dict(version=1, setup_cmd="./check.sh setup", checks=[x["check"] for x in P], not_applicable=[],
             notes="One harness crate (harness/), one binary; check.sh builds it against /repo's working tree (by content, not by file time) and runs one property. No hooks in /repo. Replay a failure with ./check.sh replay <file>.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        f.write(json.dumps(m, indent=1) + "\n")
