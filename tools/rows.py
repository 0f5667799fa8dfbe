# further rows: ROWS["Cxx"] = (technique, level_note[, level])
ROWS["C16"] = (E2, N2)
ROWS["C17"] = (E2, N2 + " Kernels of gluing steps and chains come from fixed lists (any image point), since kernels cannot be free at these sizes.")
E2G = "symbolic execution of the real code over symbolic elements of abstract groups Z/N and (Z/N)^2; SAT (kissat) decides every path and assertion"
NG = "Exhaustive within bounds: every path and every group element for the listed N, counterexamples replayed natively. Trusts that the code uses the group only through the replaced operations (it is generic in them) and the pairing model (determinant)."
ROWS["C14"] = (E2G + "; integer helpers by Kani (CBMC)", NG + " Kani runs over a stand-in for the big-integer library at small widths; its counterexamples are confirmed with the real one.")
ROWS["C15"] = (E2G + "; entangled and torsion bases over the real curve code with a symbolic curve", NG + " Real-curve parts: every supersingular curve of the listed small fields.")
ROWS["C18"] = (E2, N2 + " One serialised field at a time is free, the others are distinct constants; scalars by a list of lengths and patterns (concrete).")

E1 = "word-level symbolic execution of the LLVM IR rustc emits for the real 1293-bit field code; exact elimination modulo p plus z3 (linear arithmetic over words and carries) decide congruence and range for every input"
N1 = "All operands below p at the real size (21 words), no sampling: congruence is an exact polynomial identity once z3 has excluded every other combination of carries; ranges are z3 verdicts. The encoding is compared with the compiled code on concrete vectors in every run, counterexamples are replayed natively. Trusts rustc up to LLVM IR, the IR executor (cross-checked), and that operands are reduced (established by the same check for every result)."
ROWS["C01"] = (E1, N1)
ROWS["C02"] = ("Kani (CBMC) over the real functions with all reduced operands; conditional negation by word-level symbolic execution of the LLVM IR with z3", "All reduced 21-word operands and both control words; conditional negation through engine E1, because CBMC does not know the subtract-with-borrow intrinsic. Counterexamples are replayed natively.")
ROWS["C03"] = (E1, N1 + " Strings: the exact length 162 and, for rejection and reduction, the lengths listed in the evidence (more in thorough); above 160 bytes set_mul and set_add are replaced by their contract, which the same run establishes.")
ROWS["C19"] = ("z3 (integer and bit-vector queries) over the constants as rustc evaluates them from the current sources; primality of the modulus by a solver-checked certificate", "Ground relations of the one parameter set plus two quantified families (divisors of the listed factors, all 64-bit dividends of the reciprocal division). Trusts rustc's constant evaluation and the stated definitions.")
ROWS["C22"] = ("symbolic execution of the LLVM IR rustc emits for the real 1293-bit root and power functions, field elements abstracted to powers of the input through contracts; z3 (integer arithmetic) decides the obligations for every discrete logarithm and every exponent bit pattern; pow_big by Kani (CBMC) down to the byte-wise power", "Loops, windows, table look-ups, bit extraction and masks are the real code; set_mul, set_square, equals, encode, set_condneg, set_neg and set_cond are replaced by the contracts C01-C03 establish. All field elements; powers within the listed windows; pow_big for every exponent below 2^64 over a one-word stand-in for the big-integer library. Native runs in every check; counterexamples are replayed natively.")
NA["C04"] = "Division, inversion and the Legendre symbol run 82 outer steps of a 31-step binary GCD on 21-word operands; the claim relates the final value to the inputs through a data-dependent chain of about 2 600 conditional swaps, which neither the word-level engine (every step forks or leaves opaque selects) nor CBMC can carry. Not claimed; their users in C05 and C09 rely on them as a contract."
