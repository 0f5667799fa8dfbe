"""Engine E2: the real field-extension / curve / isogeny / pairing / theta macros over symbolic field handles."""
import json, os, shutil, subprocess
from common import *

# harness -> list of (prime, extra env) ; Q = quick, T = additionally in thorough
def H(name, q, t=(), cap=None):
    return dict(name=name, q=list(q), t=list(t), cap=cap)

SRC2 = ["src/finitefield/fp2_gen.rs"]
SRCE = SRC2 + ["src/eccore.rs"]
SRCI = SRCE + ["src/isogeny.rs", "src/pairing.rs"]
SRCT = SRCI + ["src/theta.rs"]
SRCG = ["src/discrete_log.rs", "src/supersingular.rs"]

TABLE = {
    "C05": dict(features="", sources=SRC2, functions=["Fp2::{add,sub,neg,mul,square,mul2,mul3,mul4,mul8,mul_small,half,conj,mul_by_i,div,invert,set_*,batch_invert,set_pow*,pow*,pow_small,pow_big,pow_u64*} (fp2_gen.rs)"],
        bounds=["all elements of GF(p^2), p in {7,11,23,31}: every pair (a,b)", "batch_invert lengths 0..5 fully symbolic, 200/201/403 with symbolic entries at the chunk boundaries", "exponents: 40 values up to 2^64-1, bit offsets 0..13, junk above the stated length symbolic choice"],
        run=[H("c05_ring", [7, 23], [31]), H("c05_mul", [7, 11, 23], [31]), H("c05_div", [7, 11, 23]), H("c05_batch", [7]), H("c05_pow", [7, 11]), H("c05_batch_long", [7])]),
    "C06": dict(features="", sources=SRC2, functions=["Fp2::{legendre,set_sqrt,sqrt,set_sqrt_ext,fourth_root,set_fourth_root} and their base-field dispatch (fp2_gen.rs)"],
        bounds=["all elements of GF(p^2), p in {7,11,19,23,31}; fourth roots at p = 7 mod 8 only, as for the FESTA prime"],
        run=[H("c06_legendre", [7, 11, 23, 31]), H("c06_sqrt", [7, 11, 23, 31], [19]), H("c06_fourth", [7, 23, 31]), H("c06_nonsquare", [7, 23])]),
    "C07": dict(features="", sources=SRC2, functions=["Fp2::{equals,iszero,encode,decode,decode_ct,set_cond,select,condswap,set_condneg,hashcode,to_string}"],
        bounds=["all elements of GF(p^2), p in {7,23}; base encodings are the canonical ones of the harness field (base-field codec: C03)"],
        run=[H("c07_equality", [7, 23]), H("c07_encoding", [7, 23]), H("c07_conds", [7, 23])]),
    "C08": dict(features="", sources=SRCE, functions=["Curve::{add,add_into,sub,double,double_iter,double_into,...}, Point::{neg,equals,...}, EllipticProduct/CouplePoint group operations"],
        bounds=["every curve coefficient A, every pair of projective points (all Z, infinity in every representation) over GF(p), p in {7,11} (doubling to p=23); iterated doubling up to the harness counts"],
        run=[H("c08_add", [7, 11], [19]), H("c08_sub", [7]), H("c08_self", [7, 11]), H("c08_double", [7, 11, 19], [23]), H("c08_iter", [7]), H("c08_neg_eq", [7, 11]), H("c08_product", [7]), H("c08_product_add", [7])]),
    "C09": dict(features="", sources=SRCE, functions=["Curve::{mul,mul_into,mul_small,mul_big,mul_big_into,xdbl...}", "PointX arithmetic"],
        bounds=["p = 7: every curve, every point; scalars and bit lengths enumerated by free choices: all short scalars, patterns across word and window boundaries (21, 64-bit, >64-bit bytes), junk above the bit length"],
        run=[H("c09_exact", [7]), H("c09_short", [7]), H("c09_21", [7]), H("c09_apis", [7]), H("c09_long", [7]), H("c09_xdbl", [7, 11]), H("c09_bigk", [7]), H("c09_wide", [7])]),
    "C10": dict(features="", sources=SRCE, functions=["Curve::{on_curve,is_on_curve,complete_pointX,rand_point,iter,set_xy...}", "Point constructors"],
        bounds=["p in {7,11}: every curve over the base field, every (x,y); acceptance also for every curve and point over GF(p^2) at p = 7"],
        run=[H("c10_accept", [7, 11]), H("c10_accept_ext", [7]), H("c10_lift", [7]), H("c10_random", [7]), H("c10_iterate", [7])]),
    "C11": dict(features="", sources=SRCE, functions=["Curve::j_invariant", "CurveIsomorphism::{new,eval}"],
        bounds=["every pair of Montgomery curves over GF(p) with equal j whose isomorphism is defined over GF(p^2), every point; p in {7,11,19}"],
        run=[H("c11_j", [7, 11, 19]), H("c11_iso", [7, 11, 19], [23]), H("c11_add", [7, 11, 19])]),
    "C12": dict(features="iso", sources=SRCI, functions=["KummerLineIsogeny, factored_kummer_isogeny, evaluate_isogeny_chain*, evaluate_isogeny_chain_for_basis (isogeny.rs)", "eccore x-only arithmetic used by them"],
        bounds=["degree 3: every curve, kernel, point over GF(p), p in {7,11,19} and over GF(p^2) at p = 7; degree 5 over GF(19), and over GF(49) in thorough; degree 7 and composite degrees (9,15,27,51) with kernels from a bounded list by free choice, evaluated point symbolic"],
        run=[H("c12_oracle", [7]), H("c12_isog3", [7, 11], [19]), H("c12_isog3x", [7]), H("c12_isog_cases", [23], [31]), H("c12_isog_cases_x", [7]),
             H("c12_hom3", [23]), H("c12_hom5", [23]), H("c12_hom7", [23]), H("c12_chain9", [31]), H("c12_chain15x", [7]), H("c12_chain51x", [7]),
             H("c12_chain9x", [11], cap=2), H("c12_isog5", [], [19]), H("c12_isog5x", [], [7]), H("c12_isog7", [], [23]), H("c12_chain27x", [], [11], cap=2)]),
    "C13": dict(features="iso", sources=SRCI, functions=["weil_pairing, tate_pairing, eval_line (pairing.rs)", "Curve::{add,double,...} used by Miller's loop"],
        bounds=["p = 7 (orders 2..6), p = 11 (2, 3): every curve over GF(p), every pair of D-torsion points with the second over GF(p^2), infinity in every representation; order 3 with both points over GF(p^2)"],
        run=[H("c13_2", [7, 11]), H("c13_3", [7]), H("c13_x3", [7]), H("c13_bilin3", [], [7]), H("c13_5", [7]), H("c13_4", [7]), H("c13_6", [], [7]),
             H("c13_8", [], [7]), H("c13_bilin4", [], [7]), H("c13_x4", [], [7])]),
    "C16": dict(features="thetapriv2|thetapriv|theta", sources=SRCT, functions=["ThetaPoint::{hadamard,squared_theta,list,coords}, ThetaStructure::{precomputation,double_point,set_double_self,double_iter} (theta.rs)", "two_isogeny, two_isogeny_to_product (theta.rs, private)"],
        bounds=["every null point and point over GF(p) for which the formulas are defined (no vanishing constant), p in {7,11}; doubling partly over GF(p^2)", "iterated doubling: counts 0..4", "(2,2)-isogenies: every domain null point, dual codomain and pair of 8-torsion points above the kernel over GF(11) satisfying the duplication relations, every image point; all four hadamard combinations and the step to a product"],
        outside=["larger primes (same macro text)", "null points with a vanishing constant"],
        run=[H("c16_had", [7, 11], [23]), H("c16_had_g", [7]), H("c16_dbl", [7], [11]), H("c16_dbl_scale", [7]), H("c16_dbl_g", [7]), H("c16_dbl_null", [7, 11]), H("c16_dbl_iter", [7]), H("c16_precomp", [7, 11]), H("c16_scale", [7]),
             H("c16_iso_00", [11], [19]), H("c16_iso_01", [11], [19]), H("c16_iso_10", [11], [19]), H("c16_iso_11", [11], [19]), H("c16_iso_prod", [11])]),
    "C17": dict(features="thetapriv2|thetapriv|theta", sources=SRCT, functions=["product_isogeny, product_isogeny_no_strategy (theta.rs)", "gluing_isogeny, gluing_codomain, gluing_image, get_base_matrix, splitting_isomorphism, compute_splitting_matrix, identify_even_index, level_22_constants_sqr, split_to_product, split_theta_point, null_point_to_montgomery_curve, theta_point_to_montgomery_point (theta.rs, private)"],
        bounds=["splitting: every null point over GF(7) (and with two coordinates in GF(49)) with exactly one vanishing even constant, all ten positions; the ten matrices against every vector", "read-off: every pair of theta null points and every pair of points over GF(7), GF(11), vanishing coordinates included",
                "gluing: kernels from a fixed list (18 over GF(49)), image point: one component any point with x in GF(7), the other infinity or a fixed point of large order; thorough: any point over GF(49)",
                "whole chains: kernels from fixed lists over GF(31^2) (length 3) and GF(127^2) (length 5), every image point with one component of x in GF(p); all 2 resp. 14 strategies"],
        outside=["kernels for which an intermediate theta constant vanishes (the chain formulas are not defined there)", "longer chains; the FESTA strategy itself is C19"],
        run=[H("c17_constants", [7, 11]), H("c17_split_r", [7, 11]), H("c17_matrix", [7], [11]), H("c17_split_g", [7]), H("c17_kummer", [7], [11]), H("c17_read_off", [7, 11]), H("c17_gluing_index", [7], [11]),
             H("c17_gluing_03", [7], [23]), H("c17_gluing_13", [7], [23]), H("c17_gluing_00", [7], [23]), H("c17_gluing_10", [7], [23]),
             H("c17_e2e_conc", [31, 127]), H("c17_strategies_q", [127]), H("c17_e2e_01", [31]), H("c17_e2e_10", [], [31]), H("c17_strategies", [31], [127]),
             H("c17_e2e_00", [], [31]), H("c17_e2e_02", [], [31]), H("c17_e2e_11", [], [31]), H("c17_e2e_12", [], [31]), H("c17_e2e_12", [], [127]),
             H("c17_gluing_f03", [], [7]), H("c17_gluing_f13", [], [7]), H("c17_gluing_f00", [], [7])]),
    "C14": dict(crate="grp", sources=["src/discrete_log.rs"], functions=["bsgs, ph_dlp_power, ph_dlp, bidlp (discrete_log.rs), with the real sqrt_floor, xgcd_big, compute_crt and the real big integers"],
        bounds=["groups Z/N as exponents: every generator and every exponent for N in {2..11, 23, 31, 53} (generator fixed up to N = 127), prime powers up to 121, products up to 105, sub-orders and every rotation of the factor list",
                "two-dimensional: the standard basis for N up to 60 and every basis of (Z/N)^2 for N in {5, 8}, every pair of coefficients, pairing given or not"],
        outside=["larger groups (the code is generic in the group: exponents, comparisons and table look-ups only)", "bidlp on real curves: C15"],
        run=[H("bsgs", [2, 3, 4, 5, 7, 8, 9, 11, 23, 31], [53, 64]), H("bsgs_one", [2, 3, 4, 13, 25, 36, 64, 101, 127]), H("ph_power", [8, 27, 25, 32, 49, 64], [81, 125, 121]),
             H("ph_product", [12, 60, 105], [84, 90, 72, 100]), H("bidlp_std", [5, 8, 9, 12, 30, 60]), H("bidlp_basis", [5, 8], [9, 12])]),
    "C15": [
        dict(crate="grp", sources=["src/supersingular.rs", "src/discrete_log.rs"], functions=["point_has_factored_order, has_factored_order, clear_cofactor, generate_point_order_factored_D, generate_random_point_order_factored_D, torsion_basis, compute_canonical_kernel, isogeny_from_scalar_x_only, random_isogeny_x_only (supersingular.rs)"],
            bounds=["abstract groups (Z/N)^2: every point and every field value, every sub-factorisation in every rotation, N in {12,16,36,60,100,105,120}", "generation: every candidate point (two per search), N in {12,20,36,60,84}",
                    "canonical kernel: every s, every pair of multiples generating the subgroup, N in {5,7,9,12,20} on the standard basis, every basis for N in {5, 12}"],
            outside=["searches needing more than two candidates", "the isogenies of isogeny_from_scalar are recorded, not evaluated (C12)"],
            run=[H("order_point", [12, 16, 36, 60, 105, 120], [100]), H("order_field", [12, 16, 36, 60, 105, 120], [100]), H("clear", [60]), H("gen_point", [12, 20, 36, 60, 84]), H("gen_live", [12, 60]),
                 H("basis", [12, 20, 36, 60, 84]), H("basis_live", [12, 20], [60, 84]), H("canonical_std", [5, 7, 9, 12, 20], [15]), H("canonical_free", [5, 12], [20]), H("canonical_nobasis", [12, 20, 36], [60]),
                 H("iso_from_scalar", [12, 20, 36], [60]), H("iso_random", [12, 20, 36, 60, 84])]),
        dict(features="sup", sources=SRCI + ["src/supersingular.rs", "src/discrete_log.rs"], functions=["entangled_torsion_basis, torsion_basis, compute_canonical_kernel (supersingular.rs), bidlp, over the real curve, pairing and field code"],
            bounds=["entangled basis: points on the curve for every A in GF(p^2), p in {7} ({11} thorough); order and independence for every supersingular curve over GF(p^2), p in {7,11,23,31,47,71}", "torsion basis, bidlp and canonical kernel on every supersingular curve, p in {23,47} ({59} thorough)"],
            outside=["curves for which no r <= 30 works (a panic, as documented)", "primes so small that the iterator's candidates contain no second generator"],
            run=[H("sup_entangled", [7, 11, 23, 31, 47, 71], [79, 103, 127]), H("sup_entangled_on_curve", [7], [11]), H("sup_basis", [23, 47, 59], [71, 83]), H("sup_bidlp", [23, 47], [59]), H("sup_kernel", [23, 47], [59])])],
    "C18": dict(features="festa", sources=SRCT + ["src/festa.rs"], functions=["SecretKey::{new,encode,decode,extract}, TrapdoorOutput::{new,encode,decode,extract} (festa.rs)"],
        bounds=["every value in GF(p^2) of each serialised field in turn, in every projective representation, p = 7", "scalars: every byte length from 0 to 82 with four fill patterns"],
        outside=["points at infinity (their encoding is not defined)", "malformed byte strings", "scalars of more than 656 bits"],
        run=[H("c18_scalars", [7]), H("c18_key", [7]), H("c18_output", [7])]),
}


def build(ck, features, crate="ff"):
    opts = features.split("|")
    for f in opts:
        exe, out = build1(f, crate)
        if exe:
            if f != opts[0]:
                ck.incomplete.append("harnesses of private functions do not build against the working tree; built with '%s' only" % f)
            return exe, f
    ck.nobuild.append("harness %s does not build against the working tree: " % crate + " / ".join(l for l in out.splitlines() if l.startswith("error"))[:600])
    return None, None


def build1(features, crate="ff"):
    target = os.path.join(BUILD, "ff-" + (features.replace(",", "-") or "base") if crate == "ff" else crate)
    args = ["build", "-q"] + (["--features", features] if features else [])
    ok, out = cargo(crate, target, args)
    return (os.path.join(target, "debug", crate) if ok else None), out


def run(ck):
    specs = TABLE[ck.prop]
    for spec in specs if isinstance(specs, list) else [specs]:
        run1(ck, spec)


def run1(ck, spec):
    crate = spec.get("crate", "ff")
    ck.source(*spec["sources"])
    ck.functions += spec["functions"]
    ck.bounds += spec["bounds"]
    ck.outside += spec.get("outside", ["primes larger than those listed (the code is generic in the base field: the same macro text is instantiated at 1293 bits), inputs outside the listed case lists"])
    exe, features = build(ck, spec.get("features", ""), crate)
    if not exe:
        return
    have = subprocess.run([exe, "list"], capture_output=True, text=True).stdout.split()
    jobs = []
    for h in spec["run"]:
        if h["name"] not in have:
            ck.incomplete.append("E2 %s: not built" % h["name"])
            continue
        for p in h["q"]:
            jobs.append((h, p, 240))
        if ck.tier == "thorough":
            for p in h["t"]:
                jobs.append((h, p, 1500))
    for h, p, lim in jobs:
        lim = int(min(lim if ck.tier == "quick" else 1500, ck.left() - 30))
        name = "%s@%s=%d" % (h["name"], "N" if crate == "grp" else "p", p)
        if lim < 5:
            ck.incomplete.append("E2 %s: not started, budget used up" % name)
            continue
        e = dict(os.environ)
        if h["cap"] and ck.tier == "quick":
            e["FF_CAP"] = str(h["cap"])
        cmd = [exe, "run", h["name"], "--p", str(p), "--qlimit", "200", "--limit", str(lim)] + (["--cross", "20"] if ck.tier == "thorough" else [])
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=lim + 260)
            d = json.loads(r.stdout)
        except Exception as x:
            ck.errors.append("E2 %s: %s" % (name, str(x)[:300]))
            continue
        ck.states += d["paths"]
        ck.transitions += d["infeasible"] + d["paths"] - 1
        ck.queries += d["queries"]
        ck.solver_ms += d["solver_ms"]
        ck.replayed += d["replayed"] + len(d["violations"])
        if d["sample"]:
            ck.samples.append(dict(harness=name, witness=d["sample"]))
        ck.parts.append(dict(harness=name, paths=d["paths"], outside_assumptions=d["stopped"], infeasible_branches=d["infeasible"], queries=d["queries"],
                             solver_ms=d["solver_ms"], wall_ms=d["wall_ms"], obligations=d["obligations"], closed_syntactically=d["trivial"],
                             max_sat_vars=d["max_vars"], max_sat_clauses=d["max_clauses"], crosschecked=d["crosschecked"],
                             checks={k: v[0] for k, v in d["checks"].items()}))
        for v in d["violations"]:
            a = " ".join("'%s=%s'" % kv for kv in v["model"].items())
            what = "%s with %s over %s" % (h["name"], " ".join("%s=%s" % kv for kv in v["model"].items()), "GF(%d)" % p if crate == "ff" else "Z/%d" % p)
            src = "cd %s/harness/%s && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s cargo build -q %s && exec %s replay %s %d %s" % (
                VERIF, crate, os.path.dirname(os.path.dirname(exe)), "--features " + features if features else "", exe, h["name"], p, a)
            ck.violation("E2", v["check"], what, src)
        errs = [x for x in d["errors"]]
        soft = [x for x in errs if x in ("time limit", "path limit") or x.startswith("solver limit") or x.startswith("outside the model")]
        hard = [x for x in errs if x not in soft]
        if soft:
            ck.incomplete.append("E2 %s: %s after %d paths" % (name, sorted(set(soft)), d["paths"]))
        for x in hard:
            ck.errors.append("E2 %s: %s" % (name, x))
        if not d["violations"] and not errs:
            dead = [k for k, v in d["checks"].items() if not v[1] and not k.startswith("?")]
            if dead or not d["checks"]:
                ck.errors.append("E2 %s: vacuous: %s" % (name, dead or "no check reached"))
        if len(ck.violations) >= 3:
            ck.incomplete.append("stopped after %d violations" % len(ck.violations))
            break
