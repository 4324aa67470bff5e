"""Writes properties.jsonl and MANIFEST.json from one table.   python3 tools/mkmeta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, bounds, trust):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech], observe_at=observe,
                               hook_needed=None),
                  _bounds=bounds, _trust=trust))


D = "spherical_functions/WignerD/__init__.py"
DR = "spherical_functions/WignerD/WignerDRecursion.py"
Y = "spherical_functions/SWSH/__init__.py"
I = "spherical_functions/__init__.py"
MO = "spherical_functions/SWSH_modes/"
GR = "spherical_functions/SWSH_grids/"
W3 = "spherical_functions/recursions/wigner3j.py"
H = "spherical_functions/recursions/wignerH.py"
CP = "spherical_functions/recursions/complex_powers.py"
MC = "spherical_functions/mode_conversions.py"
MU = "spherical_functions/multiplication.py"

prop("C01", "Wigner D elements have the documented values",
     "For every unit rotor R and every valid integer or half-integer (ell, mp, m) with ell <= 32, each public way of evaluating Wigner D matrix elements returns the mathematical value of the documented convention, to within the rounding error of a double-precision evaluation of its sum. This includes rotors at, near and far from the poles (either complex part zero, tiny, or equal in modulus to the other) and every phase of the two complex parts.",
     ["inputs"], "all (ell, mp, m) x every regime of the rotor",
     "The tests compare a few random rotors, mostly for small ell, loosely; branches near the poles, half-integers and ell near 32 are hardly reached.",
     [D, I], [("branches on |R.a|, |R.b| and Horner sums", D + " _Wigner_D_element, _Wigner_D_matrices, _Wigner_D_elements")],
     ["sf.Wigner_D_element", "sf.Wigner_D_matrices"],
     "342 rotors (all regimes of min(|a|,|b|) from 0 to equality x phases) x all 93665 indices; array form 49 rotors x all indices; scalar and Euler forms",
     "extended-precision spin-1/2 coupling recursion")
prop("C02", "Wigner D matrices are a unitary representation",
     "For all unit rotors P and R and every ell (integer or half-integer, up to 32), D(P R) = D(P) D(R), D of the inverse rotor is the conjugate transpose, D(1) is the identity, and D(-R) equals (-1)^(2 ell) D(R). Hence every matrix returned is unitary.",
     ["inputs", "histories"], "all products of generators of finite rotation groups and of generic rotors, all ell",
     "Tests check the product on random pairs of rotors to a loose tolerance and only for integer ell <= 8 or so.",
     [D], [("consistency of the branches with each other", D)], ["sf.Wigner_D_element", "sf.Wigner_D_matrices"],
     "Cayley graphs of the binary octahedral (48) and icosahedral (120) groups, every edge; words over generic and near-pole generators",
     "only the algebra of matrices; no value oracle")
prop("C03", "All calling forms of the D functions agree, element by element",
     "Wigner_D_element and Wigner_D_matrices return for each requested element the same value regardless of the calling form (rotor, complex parts, Euler angles; explicit indices, index arrays, lists of ell, single ell; arrays of rotors of any shape, size and memory layout; any ell_min/ell_max range), of the dtype or order of the indices and of which other elements or rotors are requested in the same call. Results come in the order requested, in the documented shape, and the inputs are not modified.",
     ["inputs", "programs"], "all calling forms x index subsets/orders/dtypes x shapes/layouts/sizes of rotor arrays x all (ell_min, ell_max)",
     "Tests use one order and one layout for each form.",
     [D], [("argument dispatch and index expansion", D + " Wigner_D_element")], ["sf.Wigner_D_element", "sf.Wigner_D_matrices"],
     "all ranges 0<=ell_min<=ell_max<=32; all permutations of small index sets; array sizes around powers of two up to 4097; layouts", "the values of one canonical call")
prop("C04", "Invalid D-matrix and SWSH requests are rejected, or exactly zero on request",
     "By default any (ell, mp, m) that is not valid (|mp| or |m| above ell, negative ell, ell above 32, or mixing integers and half-integers) makes the D-element functions raise ValueError, as does a range or list of ell values that has no D matrix; after error_on_bad_indices is set to False such elements are exactly 0 instead, without affecting the valid elements requested in the same call, and setting it back restores the errors. SWSH values with |m| > ell or |s| > ell are exactly zero, and ell above 32 raises ValueError.",
     ["inputs", "histories"], "all index triples in a box around the valid ones, all positions within a request, all flag histories",
     "Tests check a few invalid triples with the default setting only.",
     [D, Y], [("index validation", D + " _check_valid_indices")], ["sf.Wigner_D_element", "sf.Wigner_D_matrices", "sf.SWSH", "sf.SWSH_grid"],
     "all (2ell,2mp,2m) in [-4..12]x[-14..14]^2 and around ell=32; flag toggles up to length 4", "definition of validity")
prop("C05", "Spin-weighted spherical harmonics have the documented values",
     "For every unit rotor R, spin weight s and (ell, m) with ell <= 32, SWSH and SWSH_grid return (-1)^s sqrt((2 ell+1)/(4 pi)) D^ell_{m,-s}(R), and exactly zero where ell < |s|, to within the rounding error of a double-precision evaluation. This includes rotors at, near and far from the poles and every phase.",
     ["inputs"], "all (s, ell, m) x every regime of the rotor",
     "Tests compare a few explicit harmonics for |s| <= 2 at ordinary points.",
     [Y, I], [("branches on |R.a|, |R.b| and Horner sums", Y + " _SWSH, _SWSHs")], ["sf.SWSH", "sf.SWSH_grid"],
     "342 rotors x all s in -32..32 x all (ell,m); array form for all (s, ell, m)", "extended-precision recursion")
prop("C06", "All ways of evaluating spin-weighted harmonics and modes agree",
     "SWSH with an array of rotors, SWSH with an array of (ell,m), SWSH_grid, and Modes.evaluate (the sum of mode weights times harmonics) agree with one another for arrays of rotors of any shape, size and memory layout, any order or repetition of integer indices and any extra dimensions of the modes. Results have the documented shape, each value depends only on its own rotor and index, and inputs are not modified.",
     ["inputs", "programs"], "all forms x index orders x shapes, layouts and sizes",
     "Tests use one shape and one order.",
     [Y, MO + "utilities.py"], [("evaluation loops", Y), ("tensor contraction", MO + "utilities.py evaluate")], ["sf.SWSH", "sf.SWSH_grid", "Modes.evaluate"],
     "all shapes from a list including empty, 0-d, >3-d and sizes around powers of two", "values of one canonical call")
prop("C07", "Wigner 3-j symbols and Clebsch-Gordan coefficients are exact to rounding",
     "For all integer arguments Wigner3j and clebsch_gordan return the exact value of the symbol to within 1e-12, including exactly zero for arguments that violate the selection rules (m sum, |m| > j, triangle inequality). This holds for degenerate, stretched and large arguments.",
     ["inputs"], "all (j1,j2,j3,m1,m2,m3) up to a bound, and boundary families at large j",
     "Tests compare against stored values up to a small j at 1e-10 or so.",
     [W3], [("Luscombe-Luban two-sided recursion", W3 + " Wigner3jCalculator.calculate")], ["sf.Wigner3j", "sf.clebsch_gordan"],
     "all sextuples with j <= 12 (quick) / 20 (thorough), plus all m at selected large j up to 300; all triples with j2, j3 <= 24 (40) by certificate", "exact integer arithmetic; three-term recurrence, normalisation and sign")
prop("C08", "A Wigner3jCalculator gives the right answer whatever it did before",
     "For any calculator size and any sequence of calculate calls within that size, the array returned by the last call holds the exact 3-j symbols for every valid j1 and zero at every other index. The result depends neither on the earlier calls nor on how much larger than necessary the calculator is.",
     ["histories", "inputs"], "all call sequences over an alphabet, all sizes",
     "Tests create a fresh calculator per case, or only loop in one fixed order.",
     [W3], [("workspace cleared on each call", W3 + " calculate")], ["sf.Wigner3jCalculator"],
     "all ordered pairs (and triples over a reduced alphabet) of calls x calculator sizes; every call with j2, j3 <= 60 (100) on a reused calculator by certificate", "exact integer arithmetic; three-term recurrence, normalisation and sign")
prop("C09", "Index functions are consistent bijections in the documented order",
     "For all valid ranges, LM_range and LMpM_range (and the half-integer variant) list exactly the documented indices in the documented order, the total-size functions give the length of those lists, LM_index and LMpM_index give the position of each entry, and LM_deduce_ell_max inverts the size function and raises ValueError for every size that is not possible. The grid of theta_phi and the wedge indices of the H recursion follow their documented orders in the same sense.",
     ["inputs"], "all ell_min <= ell_max up to a bound and all indices",
     "Tests cover a few ranges.", [I, H, DR, D], [("closed-form index polynomials", I)], ["sf.LM_range", "sf.LM_index", "sf.LM_total_size", "sf.LM_deduce_ell_max", "sf.LMpM_range", "sf.LMpM_range_half_integer", "sf.LMpM_index", "sf.LMpM_total_size", "sf.theta_phi"],
     "ell_min<=ell_max<=64 (quick), LMpM ranges at larger ell, all sizes up to 20000 for deduction, theta_phi to 400 points a side", "Python lists")
prop("C10", "Modes and Grid objects always carry consistent metadata",
     "A Modes object built from any valid input (ell_min, ell_max, spin weight given or deduced, extra dimensions) stores the input weights from ell=0 with zeros below |s| and reports the right spin weight and ell range, and so do its copies, pickles, slices and truncations, while inconsistent input raises ValueError; likewise for Grid. Changing a derived object (copy, pickle, slice, view, in-place conjugate) never changes the metadata or, for real copies, the data of another object.",
     ["histories", "inputs"], "all constructor argument combinations, all sequences of derive/modify operations",
     "Tests construct a few objects and check one copy at a time.",
     [MO + "__init__.py", MO + "utilities.py", GR + "__init__.py"], [("__new__, __array_finalize__, __reduce__, __setstate__", MO + "__init__.py, " + GR + "__init__.py")], ["sf.Modes", "sf.Grid"],
     "spins -4..4, ell ranges to 6 and ell_max 17, 33, 40, several shapes; operation sequences to depth 3", "a plain record model")
prop("C11", "Arithmetic on Modes is arithmetic of the functions they represent",
     "For any sequence of additions, subtractions, multiplications, divisions by scalars, conjugations, negations and real/imaginary parts of Modes objects - through operators, numpy functions or methods, with any spin weights, ell ranges and broadcastable shapes - the resulting modes are those of the same operations applied pointwise to the functions on the sphere. The result carries the right spin weight, ell range and shape, and is zero below |s|.",
     ["histories", "inputs"], "all operation sequences up to a depth over an alphabet of functions",
     "Tests check single operations on random data for a few (s, ell_max).",
     [MO + "algebra.py", MO + "ufuncs.py", MU], [("dispatch of ufuncs and methods to mode algebra", MO + "ufuncs.py, " + MO + "algebra.py")], ["sf.Modes operators, ufuncs, methods"],
     "spins -3..3, ell_max 0..4 and shapes; sequences to depth 3; wide ranges of spins and ell for single operations", "3-j product model on plain arrays, and pointwise evaluation")
prop("C12", "Ill-formed operations on Modes and Grids are refused and change nothing",
     "Operations that make no sense for spin-weighted functions (adding different spin weights or nonzero constants to spin-weighted functions, dividing by Modes, real or imaginary parts of nonzero spin, mode-by-mode or point-by-point broadcasting of arrays, every unsupported numpy ufunc and ufunc method) raise an error rather than return an array. When an operation raises, its operands - data and metadata - are unchanged.",
     ["inputs", "programs"], "all numpy ufuncs x methods x operand kinds",
     "Tests try a handful of ufuncs in one call form.",
     [MO + "ufuncs.py", MO + "algebra.py", GR + "ufuncs.py", GR + "algebra.py"], [("whitelist of ufuncs", MO + "ufuncs.py, " + GR + "ufuncs.py")], ["numpy ufuncs on sf.Modes, sf.Grid"],
     "all ~100 numpy ufuncs x {call, reduce, accumulate, reduceat, outer, at} x operand kinds", "table of supported operations")
prop("C13", "In-place and out= operations give the same result as ordinary ones",
     "For every supported operation on Modes and Grids, the in-place operator, the out= keyword (with a Modes/Grid or plain array, distinct from or aliasing the operands) and the in-place methods leave in the target the same values, spin weight and ell range as the ordinary operation returns, and the returned object refers to the target's data. Operands that are not the target are unchanged.",
     ["inputs", "histories"], "all operations x output kinds x aliasing patterns",
     "Tests do not use out= at all and in-place forms only for scalars.",
     [MO + "ufuncs.py", MO + "algebra.py", GR + "ufuncs.py", GR + "algebra.py"], [("out handling and metadata update", MO + "ufuncs.py, " + GR + "ufuncs.py")], ["numpy ufuncs with out=, in-place operators"],
     "all operations x {no out, fresh Modes/Grid with wrong metadata, ndarray, operand 1, operand 2, overlapping view}", "the ordinary operation on copies")
prop("C14", "Derivative operators act as angular-momentum operators of the function",
     "On Modes of any spin weight, ell range and shape, Lz, Lplus, Lminus, Lsquared, Rz, Rplus, Rminus, Rsquared, eth and ethbar have the documented action on every harmonic, with the right spin weight, zero modes below |s|, and the operand unchanged; the L operators and Rz are the documented left and right Lie derivatives of the function. All sequences of them satisfy the angular-momentum commutation and Casimir relations and the product rule.",
     ["histories", "inputs"], "all spins, ell ranges, basis modes, all operator words up to a length",
     "Tests check commutators on random data for small ell_max.",
     [MO + "derivatives.py"], [("mode-weight formulas", MO + "derivatives.py")], ["Modes.L*, Modes.R*, Modes.eth, Modes.ethbar"],
     "spins -8..8, ell_max <= 8 and 12, 20 (32), layouts, up to 4097 leading entries, all operator words of length <= 3 (4)", "explicit matrices of the operators; finite differences of the function in extended precision")
prop("C15", "Modes and Grids convert into one another without loss",
     "For ell_max of at least 1 and |s|, Modes.grid gives the values of the function at the points of theta_phi for any n_theta, n_phi of at least 2 ell_max+1 and any extra dimensions, and Grid.modes recovers the modes (to rounding) for any ell_max with 2 ell_max+1 <= min(n_theta, n_phi), so that conversions there and back are the identity on band-limited functions. Spin weight and metadata are carried along, and the source object is not modified.",
     ["inputs", "histories"], "all spins, ell ranges, grid sizes, shapes and conversion sequences",
     "Tests check square default grids; Grid.modes was broken without a test noticing.",
     [MO + "utilities.py", GR + "utilities.py"], [("spinsfast calls", MO + "utilities.py grid, " + GR + "utilities.py modes")], ["Modes.grid", "Grid.modes"],
     "spins -4..4, ell_max 0..8, grid sizes 2L+1..2L+4 in each direction (non-square included), shapes; ell_max to 40", "direct summation with the SWSH oracle")
prop("C16", "Grid arithmetic is pointwise and tracks the spin weight",
     "For any sequence of supported operations on Grids (sums, differences, products, quotients, integer powers, square, sqrt, reciprocal, conjugate, absolute value, negation, real and imaginary parts) by operators, numpy functions or methods, the values are the pointwise ones and the spin weight follows the documented rule. Scalars and arrays act on the non-grid dimensions.",
     ["histories", "inputs"], "all operation sequences up to a depth",
     "There are almost no tests of Grid arithmetic.",
     [GR + "ufuncs.py", GR + "algebra.py"], [("ufunc dispatch", GR + "ufuncs.py, " + GR + "algebra.py")], ["sf.Grid operators, ufuncs, methods"],
     "spins -2..2 and larger ones, shapes and grid sizes; sequences to depth 3", "plain numpy arrays")
prop("C17", "H recursions give Wigner's d matrix whatever the workspace held before",
     "For every n_max and cos(beta) in [-1,1], scalar or array of any shape, with or without sin(beta) and with a fresh or a reused workspace, both H calculators return the values of Wigner's d matrix in their documented order and shape, to within rounding that grows slowly with n. Values of cos(beta) outside [-1,1] raise ValueError.",
     ["histories", "inputs"], "all n_max up to a bound, grids of beta incl. poles, all sequences of calls sharing a workspace",
     "Tests compare with sympy for a few n without reusing workspaces.",
     [H, DR], [("five-step recursion in a workspace", H + ", " + DR)], ["recursions.HCalculator", "WignerDRecursion.HCalculator"],
     "n_max 0..24, 48, 64, beta grid with poles and near-poles, all call pairs/triples", "extended-precision D oracle")
prop("C18", "complex_powers returns z^0 ... z^M for every unit complex number",
     "For every array of unit complex numbers (any quadrant, the axes included, any shape) and every M >= 0, complex_powers returns the powers 0..M along a last axis to within rounding, also when writing into a given array, whose previous contents do not matter, and does not modify z.",
     ["inputs"], "all quadrants and axes, all M up to a bound, shapes",
     "Tests use M=10000 on one grid of angles.",
     [CP], [("quadrant reduction and recursion", CP + " _complex_powers")], ["sf.complex_powers"],
     "M 0..64 and larger, 720 angles plus axes, shapes, layouts and preallocated outputs", "exp(i m theta) in extended precision")
prop("C19", "eth functions and mode conversions act as documented on every mode",
     "For every spin weight, ell_min and ell range, eth_NP, ethbar_NP, eth_GHP and ethbar_GHP multiply each mode by the documented factor (GHP is NP over sqrt 2), agree with the eth and ethbar of Modes and give zero for modes the result cannot have; ethbar_inverse_NP inverts ethbar_NP on every mode for which an inverse exists. The constant and vector conversions represent the function c or v.n exactly and invert one another; inputs are not modified.",
     ["inputs"], "all spins, ell_min, ell_max and basis modes",
     "Tests check spins and ell ranges at a few points.",
     [MC], [("per-ell factors", MC)], ["sf.eth_NP", "sf.ethbar_NP", "sf.eth_GHP", "sf.ethbar_GHP", "sf.ethbar_inverse_NP", "sf.constant_as_ell_0_mode", "sf.vector_as_ell_1_modes"],
     "spins -8..8, 20, 33, ell_min 0..6, ell_max to 12 and 17, 25, 33, 40", "per-mode formulas and pointwise evaluation")
prop("C20", "Products of mode arrays and their truncation are exact",
     "multiply returns the modes of the pointwise product for any spin weights, ell_min and ell_max of both factors and any broadcastable leading dimensions, ignoring weights below |s|; Modes multiplication with any truncator or multiplication_truncator metadata equals the full product cut at (or zero-padded to) the requested ell_max, which is the largest one the two operands ask for. The factors are not modified.",
     ["inputs"], "all pairs of basis modes, all spins, ell ranges and truncators",
     "Tests use random functions with few spins and only min/max/sum truncation.",
     [MU, MO + "algebra.py", MO + "ufuncs.py"], [("double 3-j sum", MU + " _multiplication_helper")], ["sf.multiply", "Modes.multiply", "np.multiply"],
     "all spin pairs in -4..4, ell_min/ell_max ranges to 4, all basis-mode pairs; truncator pairs; pointwise at ell to 40 and spins to 20", "exact 3-j symbols")
prop("C21", "Results depend only on the arguments, never on earlier calls",
     "Every public function returns the same result (bit for bit, except for last-bit rounding of vectorised or FFT arithmetic) for the same arguments no matter which calls came before in the process, with arguments that are equal, nearly equal or of different size or type or the same array objects with new contents, and does not change its arguments (the Modes constructor zeroes weights below |s|, as documented). A result already returned to the caller is never altered by a later call (except where the documentation says that a workspace is reused), and changing a returned array never changes later results.",
     ["histories"], "all call sequences of length 2 and 3 over an alphabet of calls",
     "Tests never compare a call's result across different histories.",
     [I, D, Y, W3, MU, H], [("no mutable module state apart from constant tables", I)], ["all public functions"],
     "alphabet of 315 calls (argument variants of 71 functions); all ordered pairs, all triples within each function and over 33 different functions", "the result of the same call in a fresh history")
prop("C22", "Concurrent calls from several threads do not disturb one another",
     "When several threads call public functions concurrently on distinct or shared read-only arguments, every call returns the same result as when it runs alone, under every interleaving. No call blocks another forever.",
     ["schedules"], "all interleavings at instruction granularity with 1 preemption, at source-line granularity with 2",
     "Tests are single threaded.",
     [I, D, Y, W3, MU, H, MO + "ufuncs.py"], [("no shared mutable scratch space", I)], ["all public functions"],
     "2 threads (3 in thorough) running calls of an alphabet of 314; every preemption point at instruction or line level; 2 preemptions for calls of the same function; first calls of a process; shared argument objects", "the sequential results")
prop("C23", "Precomputed coefficients and special functions of integers are correct",
     "factorial, binomial_coefficient, ladder_operator_coefficient and Wigner_coefficient return the exact mathematical values rounded to double precision over their whole tables (factorials to 170, the others to ell = 32 including half-integers). The script they were generated with reproduces the tables that are shipped.",
     ["inputs"], "every table entry",
     "Tests compare factorials and a few others only.",
     [I, "spherical_functions/_generate_coefficients.py"], [("tables written by a script, loaded from npy files, and index polynomials", I)], ["sf.factorial", "sf.binomial_coefficient", "sf.ladder_operator_coefficient", "sf.Wigner_coefficient"],
     "all entries", "exact integer/rational arithmetic")
prop("C24", "Rotations act consistently on D matrices, harmonics, modes and grids",
     "Multiplying each ell block of the modes of a function f (any spin weight and ell range) by the D matrices of a unit rotor P gives the modes of the function R -> f(P R): single harmonics up to ell=32, values at rotors and grid values agree, successive rotations compose and the norm is unchanged. Conjugation, real and imaginary parts, sums, products, Lsquared, eth, ethbar and the R operators commute with this rotation, while (Lx, Ly, Lz) and the ell=1 modes of a vector rotate as vectors. The D matrices are also those assembled from HCalculator, quaternion_angles and complex_powers as documented, away from the poles.",
     ["histories", "inputs"], "all words of rotations up to a length x spins x ell ranges x operations",
     "Tests check each function against formulas of its own; conventions of different modules are hardly compared, and only for random rotors and small ell.",
     [D, Y, MO + "utilities.py", MO + "derivatives.py", MO + "algebra.py", MC, H, "spherical_functions/recursions/__init__.py"],
     [("one convention for rotors, D, harmonics and modes", D + ", " + Y + ", " + MO)], ["sf.Wigner_D_matrices", "sf.SWSH_grid", "Modes.evaluate", "Modes.grid", "Modes operations", "recursions.quaternion_angles"],
     "all words of length <= 2 (3) over 7 rotors x spins -3..3 x ell_max <= 6 (12); addition theorem for 56 pairs of rotors, all ell <= 32; operations; D from H for n_max <= 12 (24)", "none: functions of the library against one another and against quaternion products")
prop("C25", "Compiled and interpreted code give the same results",
     "With numba's compilation switched off (NUMBA_DISABLE_JIT=1, as for debugging or measuring coverage) the package can be imported, and every public function accepts the same arguments (rotors, Python numbers, and int64, float64 and complex128 arrays), raises the same errors for the same invalid ones, and returns the same shapes, metadata and values (to rounding) as when it is compiled.",
     ["inputs", "configurations"], "all functions x all small arguments x both modes of execution",
     "Tests run in one mode; code that is right compiled may rely on the compiler's integer arithmetic, zeroing or conversions, and the other way round.",
     [I, D, Y, W3, MU, H, CP, DR, MO + "derivatives.py", "spherical_functions/recursions/__init__.py"], [("functions and classes compiled by numba, called from Python", I + ", " + D + ", " + W3 + ", " + H)], ["all public functions"],
     "4100 (thorough: 5000) calls: the call alphabet of C21/C22, index functions up to ell 8, D up to ell 8 (16) for 45 rotors, SWSH up to ell 6 and |s| 4, all 3-j symbols up to 4 (8), both H calculators up to n 8 (16), powers, eth, products and all Modes operations for |s| <= 2 and ell <= 4", "none: each mode is the model of the other; the other checks decide which is right")



NA = {}
ready = [p for p in P if os.path.exists(f"{HERE}/mc/{p['id'].lower()}.py")]
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="true", checks=[
    dict(property=p["id"], quick_cmd=f"bash run.sh {p['id']} quick", thorough_cmd=f"bash run.sh {p['id']} thorough",
         evidence_file=f"evidence/{p['id']}.json",
         technique="explicit-state / stateless model checking: exhaustive bounded enumeration executed on the real code, every observation compared with a reference model",
         level="model_checking",
         level_note=f"Exhaustive within: {p['_bounds']}. Oracle / trusted: {p['_trust']}, numpy, numpy-quaternion, spinsfast, numba.")
    for p in ready],
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")) for p in P if p not in ready],
    notes="Every check imports /repo's working tree in a fresh interpreter with empty numba and bytecode caches. See DESIGN.md.")
with open(f"{HERE}/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(ready), "checks")
