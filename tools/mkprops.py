#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FP = "src/finitefield/fp_gen.rs"; FP2 = "src/finitefield/fp2_gen.rs"; U64 = "src/finitefield/utils64.rs"
FI = "src/fields.rs"; EC = "src/eccore.rs"; ISO = "src/isogeny.rs"; PA = "src/pairing.rs"
DL = "src/discrete_log.rs"; SS = "src/supersingular.rs"; TH = "src/theta.rs"; FE = "src/festa.rs"

p("C01", "Base-field ring arithmetic is exact modulo p",
  "For all elements of the 1293-bit base field, addition, subtraction, negation, halving, multiplication by 2, 3, 4, 8 or any signed 32-bit integer, product, square, and the fused sums and differences of two products return exactly the integer result modulo p. Every result is in fully reduced form, so that equal field values are always represented identically.",
  ["inputs"], "all operand values in [0,p) (2^1293 per operand), all i32 multipliers",
  "The tests multiply a few hundred pseudo-random operands; carry chains, final conditional subtractions and quotient corrections that trigger with probability about 2^-64 are never reached.",
  [FP, U64, FI],
  [("limb carry/borrow chains and conditional add-back", FP + ": set_add, set_sub, set_neg, set_half, set_mul2"),
   ("interleaved Montgomery product", FP + ": set_mul, set_square, set_montyred"),
   ("quotient estimation", FP + ": set_mul_small"),
   ("Longa sum of products", FP + ": sum_of_products, difference_of_products")],
  ["return values of the public field operations"])
p("C02", "Base-field tests, selections and swaps agree with field values",
  "For every pair of base-field elements the zero test and the equality test return all-ones exactly when the statement is true and zero otherwise. Conditional copy, select, conditional negation and conditional swap do exactly what the all-ones or all-zero control word says, for every operand value.",
  ["inputs"], "all operand values, both legal control words",
  "The tests never look at operands that differ in a single limb or bit, which is what a wrong accumulation loop or mask needs.",
  [FP], [("limb OR/XOR accumulation", FP + ": iszero, equals"), ("mask arithmetic", FP + ": set_select, set_cond, set_condneg, condswap")])
p("C03", "Base-field integer and byte conversions are exact and canonical",
  "Converting a machine integer to the base field yields that integer modulo p; encoding yields the unique little-endian representative below p, and decoding that string gives the element back. Decoding rejects (with zero) every string of another length or with a value of p or more, while the reducing decoder maps every byte string, of any length, to its value modulo p.",
  ["inputs"], "all integers of each width, all field elements, all byte strings (reducing decoder: lengths up to a stated bound)",
  "Tests encode and decode pseudo-random elements; boundary strings (p-1, p, values differing from p in one limb), chunk-boundary lengths and the most negative integers are not all exercised.",
  [FP], [("canonicality check by borrow chain", FP + ": decode"), ("Montgomery conversion", FP + ": encode, from_u64, from_i64, from_i32"), ("chunked reduction", FP + ": set_decode_reduce")])
p("C04", "Base-field division, inversion and the Legendre symbol are correct",
  "Division by a non-zero element is the exact field quotient and division by zero gives zero; inversion is division of one. The Legendre symbol is 0 for zero, 1 for non-zero squares and -1 for non-squares.",
  ["inputs"], "all field elements",
  "The binary-GCD division and Legendre code branches (through masks) on approximations whose bad cases are rare; tests sample random operands.",
  [FP, FI], [("binary GCD with 31-step inner loop", FP + ": set_div, legendre, set_montylin, set_lindiv31abs")])
p("C05", "Extension-field arithmetic is exact",
  "In the quadratic extension with i^2 = -1, addition, subtraction, negation, products, squares, halving, small multiples, conjugation, division and inversion (zero maps to zero), simultaneous inversion of any list (zeros stay zero), small and big integer powers equal their mathematical definition. All operator and in-place variants agree.",
  ["inputs"], "all pairs of extension-field elements; all list lengths and zero patterns within bounds; all exponents within bounds",
  "The extension-field tests of the repository are commented out; only indirect use at random points exercises these formulas, never real, purely imaginary or zero operands.",
  [FP2], [("Karatsuba / sum-of-products formulas", FP2 + ": set_mul, mul_new, mul_old, set_square"), ("norm inversion", FP2 + ": set_invert, set_div, batch_invert"), ("exponentiation", FP2 + ": pow_small, pow_big, pow_u64, pow_u64_vartime")])
p("C06", "Extension-field squares, square roots and fourth roots are decided correctly",
  "For every extension-field element the quadratic-residue symbol is 0 for zero, 1 for a non-zero square and -1 for a non-square; square root and fourth root succeed exactly when a root exists, and then the returned value, in the documented sign, raised back gives the input. When no root exists failure is reported and the value is zero.",
  ["inputs"], "all extension-field elements, including real, purely imaginary and zero ones",
  "Elements of the base field, i times those, and norms that vanish form a set of measure about 2^-1293; no test reaches them.",
  [FP2], [("complex square-root method with conditional paths", FP2 + ": set_sqrt, set_fourth_root"), ("legendre via norm", FP2 + ": legendre")])
p("C07", "Extension-field encoding, equality and conditionals are consistent",
  "Encoding then decoding an extension-field element is the identity, every element has a single accepted encoding, and strings of the wrong length or with a non-canonical coordinate are rejected with zero. Equality, zero test, hashing, selection, conditional negation and swap act on both coordinates consistently, so equal elements compare equal and hash equally.",
  ["inputs"], "all extension-field elements and all byte strings of the encoded length, all control words",
  "No test decodes a non-canonical second coordinate or compares elements that differ in one coordinate only.",
  [FP2], [("two-coordinate encode/decode with combined status", FP2 + ": encode, decode, decode_reduce"), ("equals/iszero/set_cond/condswap", FP2)])
p("C08", "Elliptic-curve addition and doubling implement the group law everywhere",
  "For every nonsingular Montgomery curve and every pair of points in any projective representation, including the point at infinity, equal points, opposite points and points of order two, addition, subtraction, doubling, repeated doubling and the pairwise operations on products of two curves return the group-law result. Point equality holds exactly for equal points, and negation is the group inverse.",
  ["inputs"], "all curves, all pairs of curve points and all projective scalings",
  "Random points never coincide, never are opposite and never have order two or infinite order; tests do not reach the exceptional cases.",
  [EC], [("complete addition with masked corrections", EC + ": add_into, double_from_coords"), ("CouplePoint/EllipticProduct wrappers", EC)])
p("C09", "Scalar multiplication equals repeated addition for every scalar and point",
  "Multiplying any curve point, including infinity and points of small order, by any non-negative integer, given as bytes with a bit length, as a machine word or as a big integer, gives the same point as repeated addition; bits beyond the stated length are ignored. The x-only doubling agrees with full doubling.",
  ["inputs"], "all points of all curves, all scalars and bit lengths (bounded in DESIGN.md)",
  "The Montgomery ladder has special cases (order-2 points, (n+1)P = P, -P or infinity) and two code paths by length; random tests never meet them.",
  [EC], [("Montgomery ladder with y-recovery and corrective masks", EC + ": mul_into, mul_small_into, mul_big, x_dbl_coords")])
p("C10", "Points are only accepted or produced when they lie on the curve",
  "Setting a point from affine or projective coordinates succeeds exactly when they satisfy the curve equation, and otherwise yields infinity with a failure result; the membership test agrees. Lifting an x-coordinate succeeds exactly when a matching y exists and then gives a curve point with that x; point enumeration and random sampling only return curve points, and enumeration does not skip any valid x.",
  ["inputs"], "all curves and all coordinates, including x = 0 and points at infinity",
  "Tests only use valid, generic coordinates.",
  [EC], [("curve equation checks", EC + ": set_xy, set_xyz, on_curve, point_xy_vartime, point_xyz_vartime"), ("x-only lifting", EC + ": complete_pointX"), ("iterators", EC + ": CurveIter, set_rand_point")])
p("C11", "Curve isomorphisms are group isomorphisms between the stated curves",
  "Whenever two Montgomery curves are isomorphic over the field, the isomorphism built between them maps every point of the first curve to a point of the second, maps infinity to infinity, and respects addition. The j-invariant is equal exactly for curves that are isomorphic over the algebraic closure.",
  ["inputs"], "all pairs of isomorphic Montgomery curves and all points",
  "Tests use one random pair of curves; pairs related by A -> -A and the point at infinity are not covered.",
  [EC], [("u, v, w from the curve constants", EC + ": CurveIsomorphism::new, eval"), ("j_invariant", EC)])
p("C12", "Odd-degree isogenies have the right codomain and evaluate as homomorphisms",
  "For a kernel point of odd order, the computed codomain is the quotient curve, the image of any point (kernel multiples going to infinity) lies on it and equals the image under the quotient isogeny up to sign, and additive relations are preserved. Evaluating a factored chain of such isogenies gives the same result as composing the steps one prime at a time, in whatever order the evaluation strategy chooses.",
  ["inputs", "configurations"], "all curves, all kernel points of small odd prime order, all evaluation points; all chain shapes within bounds",
  "Tests check a handful of random evaluations, mostly by printing.",
  [ISO, SS], [("Velu-type x-only formulas", ISO + ": KummerLineIsogeny"), ("chains and sign fixing by pairing", ISO + ": evaluate_isogeny_chain, evaluate_isogeny_chain_for_basis"), ("sparse strategy", ISO + ": factored_kummer_isogeny")])
p("C13", "The Weil pairing is bilinear, alternating and matches its definition",
  "For all points P and Q whose order divides D, the pairing value is a D-th root of unity, is bilinear, equals 1 on linearly dependent points including equal points and infinity, changes to its inverse when P and Q are exchanged, and has exact order D on a basis.",
  ["inputs"], "all curves, all pairs of D-torsion points for the D within bounds",
  "The tests print values for random generic points; dependent points, low order points and infinity are the special cases.",
  [PA], [("Miller loop with line functions", PA + ": tate_pairing, eval_line"), ("ratio and sign", PA + ": weil_pairing")])
p("C14", "Discrete logarithms and CRT recover the exact exponents",
  "The discrete-logarithm routines return, for every exponent including 0 and the maximal one, the exponent that was used, for every supported group order (prime, prime power or product) and for pairs of exponents with respect to a torsion basis. The integer helpers (modular inverse, remainder recombination, integer square root) return the mathematically exact value for every input in their domain.",
  ["inputs"], "all exponents and all group orders within bounds; all 32-bit inputs of the square root",
  "Tests use random exponents in one huge group; zero exponents, exponents with zero digits and boundary values are not reached.",
  [DL], [("baby-step giant-step", DL + ": bsgs, sqrt_floor"), ("Pohlig-Hellman and CRT", DL + ": ph_dlp_power, ph_dlp, compute_crt, xgcd_big"), ("pairing-based two-dimensional dlog", DL + ": bidlp")])
p("C15", "Generated points and bases have exactly the advertised order",
  "Order tests accept an element exactly when its order is the claimed factored number; cofactor clearing and generation return points of exactly that order, and generated torsion bases, including the entangled one, consist of two independent points of that order. A canonical kernel computed from a kernel and a basis describes the same subgroup.",
  ["inputs"], "all group elements (abstract group of bounded order) and all factorisations within bounds; all candidate points for the basis generators",
  "Random points have full order with overwhelming probability, so the rejecting branches are not exercised.",
  [SS], [("factored order tests", SS + ": point_has_factored_order, has_factored_order"), ("generation", SS + ": clear_cofactor, generate_point_order_factored_D, torsion_basis, entangled_torsion_basis"), ("kernel normalisation", SS + ": compute_canonical_kernel")])
p("C16", "Theta-coordinate arithmetic agrees with its defining formulas",
  "Hadamard transform, squared theta coordinates, doubling (single and iterated) and the generic (2,2)-isogeny codomain and image on dimension-two theta structures satisfy the defining duplication relations for every null point and point for which the formulas are defined. Elementary properties hold: the Hadamard transform is an involution up to the factor four and projective scaling of inputs never changes the projective result.",
  ["inputs"], "all theta null points and theta points over a field with a square root of -1",
  "Only one end-to-end product isogeny is run, and that test fails or only prints at the pinned commit.",
  [TH], [("to_hadamard, to_squared_theta, ThetaStructure", TH), ("two_isogeny, two_isogeny_to_product", TH)])
p("C17", "Splitting and gluing recover elliptic products for every configuration",
  "Whichever of the ten even theta constants vanishes, the splitting change of basis moves it to the product position by an invertible map, and the elliptic curves and points read off the split structure are the ones whose theta coordinates were given. Gluing treats the position of the vanishing dual coordinate correctly wherever it occurs, and the strategy-based chain computes the same chain as the naive one for any valid strategy.",
  ["inputs", "configurations"], "all split theta null points, all ten vanishing indices, all chain strategies within bounds",
  "A given run meets one or two of the ten splitting configurations; a wrong table row stays invisible.",
  [TH], [("even-index identification and splitting matrix", TH + ": identify_even_index, compute_splitting_matrix"), ("null_point_to_montgomery_curve, theta_point_to_montgomery_point", TH), ("gluing_codomain, gluing_image", TH), ("product_isogeny strategy loop", TH)])
p("C18", "Keys and ciphertexts survive serialisation",
  "Encoding a secret key or a trapdoor output (finite points, scalars within the encoded width) and decoding the bytes gives back the same curves, points and scalars for every value of their fields, and distinct values encode differently.",
  ["inputs"], "all field elements and all scalars up to the encoded width",
  "The round-trip is exercised with one random key; scalars with leading zero bytes and extreme coordinates are not.",
  [FE], [("fixed-width concatenation of field encodings and padded scalars", FE + ": SecretKey::encode/decode, TrapdoorOutput::encode/decode")])
p("C19", "The parameter constants satisfy all the relations the scheme needs",
  "The modulus is prime and congruent to 3 modulo 4, and the field constants are the ones derived from it (Montgomery constants, division and decoding corrections, exponents of the root extractions, the non-residue); the torsion orders are the numbers their lists of prime factors describe (D1, D2 and DA the products, DA1 and DA2 the squares of the products), D1, D2, the listed products and 2^L_POWER divide p+1, D1, D2, DA1, DA2 are odd and pairwise coprime, and M1^2*D1*DA1 + M2^2*D2*DA2 = 2^THETA_ISOGENY_LENGTH; the stored starting basis points lie on the starting curve; and the stored isogeny strategy is a well-formed strategy for the chain length.",
  ["configurations"], "the fixed parameter set, for every constant table entry; every divisor of every listed factor and every dividend of the reciprocal division",
  "A wrong constant that is used only in a rare path (small multiplier correction, division fix-up) passes the sampled tests.",
  [FI], [("constant tables", FI)])
p("C22", "Base-field powers and roots are correct",
  "Raising a base-field element to a byte-encoded or big-integer exponent gives the product of as many copies for every value of the exponent, bit length and bit offset (the empty window gives one). Square and fourth roots succeed exactly when a root exists (zero is its own root), return the root whose canonical integer is even, and otherwise return zero and report failure.",
  ["inputs"], "all field elements; all exponent bit patterns within the listed windows",
  "Tests sample a few random squares and exponents; a wrong digit, window entry or offset, or the wrong one of the two roots, can survive them.",
  [FP, FI], [("windowed exponentiation with fixed exponent", FP + ": set_sqrt, set_fourth_root"), ("square and multiply", FP + ": set_pow_ext, pow, pow_big"), ("exponent digits", FI + ": SQRT_EH, SQRT_EL, FOURTH_ROOT_EH, FOURTH_ROOT_EL")])
p("C20", "Inverting the trapdoor recovers the original inputs",
  "For every key pair produced by key generation and every valid trapdoor input, inverting the evaluation output with the secret key returns exactly that input.",
  ["inputs", "histories"], "all keys, all inputs (s1, s2, B) in range",
  "One random key and one random input are tried at most; edge inputs such as s1 = 0 are never tried.",
  [FE, TH, DL, ISO, PA, SS], [("trapdoor_eval, trapdoor_inverse, recover_diagB, keygen", FE)])
p("C21", "Key generation output is well formed",
  "The public key consists of a curve and two points of full power-of-two order that are the images of the standard basis under the secret isogeny scaled by the secret invertible diagonal matrix, and the secret key's data is consistent with it.",
  ["inputs", "histories"], "all random choices of the generator",
  "Each run tests a single random key.",
  [FE], [("FESTACrypto::keygen", FE)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
