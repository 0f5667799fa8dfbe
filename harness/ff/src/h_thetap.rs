// C16/C17: private functions of the theta module (this file is compiled as a child module of it).
use super::*;
use crate::explore::Harness;
use crate::h_ec::{Aff, boolword, chk_nz, coords, curve, mkpt, rhs, rmul, same};
use crate::h_theta::*;
use crate::spec::*;
use crate::sym::*;

// ---- generic (2,2)-isogeny --------------------------------------------------------------------------
/// domain null point n, dual codomain (1, b, c, d), and 8-torsion T1, T2 above the kernel:
/// H(n^2) ~ (1, b^2, c^2, d^2), H(T1^2) ~ (x, xb, yc, yd), H(T2^2) ~ (z, tb, zc, td)
fn iso_setup(pre: bool) -> (V4, V4, V4, V4) {
    // everything is free except that the relations are imposed
    let cod = [G::c(1), rvar("b"), rvar("c"), rvar("d")];
    for x in &cod { assume_g_nz(*x); }
    let (x, y, z, t) = (G::c(1), rvar("y"), rvar("z"), rvar("t"));
    for v in [x, y, z, t] { assume_g_nz(v); }
    let root = |n: &str, v: &V4| -> V4 {
        let r = rv4(n);
        // v = H(r^2) up to the factor 4
        let h = rhad(v);
        for i in 0..4 { assume_g_eq(r[i] * r[i], h[i]); }
        r
    };
    let n = root("n", &rsq(&cod));
    for v in &n { assume_g_nz(*v); }
    let t1 = root("T1", &[x * cod[0], x * cod[1], y * cod[2], y * cod[3]]);
    let t2 = root("T2", &[z * cod[0], t * cod[1], z * cod[2], t * cod[3]]);
    (cod, n, t1, t2)
}
fn two_iso(case: [bool; 2]) {
    let (cod, n, t1, t2) = iso_setup(false);
    let p = [rvar("P0"), rvar("P1"), G::c(1), rvar("P3")];
    // with hadamard[0] the points to map are given in dual coordinates
    let pin = if case[0] { let h = rhad(&p); h } else { p };
    let Th = ThetaStructure::new_from_point(&th(&n));
    let mut img = [th(&pin), th(&n)];
    let C = two_isogeny(&Th, &th(&t1), &th(&t2), &mut img, case);
    let want = if case[1] { rhad(&cod) } else { cod };
    let got = of4(&C.null_point());
    proj("codomain", &got, &want);
    nonzero4("codomain is a point", &got);
    let s = rhad(&rsq(&p));
    let q = [0, 1, 2, 3].map(|i: usize| s[i] * cod[i].inv());
    let want = if case[1] { rhad(&q) } else { q };
    let gp = of4(&img[0]);
    proj("image", &gp, &want);
    if case[0] == false {
        proj("image of the null point", &of4(&img[1]), &got);
        let pc = ThetaStructure::precomputation(&C.null_point());
        let cp = C.arithmetic_precom;
        for i in 0..6 { veq("codomain precomputation", G::of(&pc[i]), G::of(&cp[i])); }
    }
}
fn iso_00() { two_iso([false, false]) }
fn iso_01() { two_iso([false, true]) }
fn iso_10() { two_iso([true, false]) }
fn iso_11() { two_iso([true, true]) }
/// the last step: points come in dual coordinates, the codomain has a vanishing constant allowed
fn iso_prod() {
    let (cod, n, t1, t2) = iso_setup(true);
    let p = [rvar("P0"), rvar("P1"), G::c(1), rvar("P3")];
    let dual = |v: &V4| { let h = rhad(v); h };
    let mut img = [th(&dual(&p)), th(&dual(&n))];
    let C = two_isogeny_to_product(&th(&dual(&t1)), &th(&dual(&t2)), &mut img);
    let got = of4(&C.null_point());
    proj("product codomain", &got, &cod);
    nonzero4("product codomain is a point", &got);
    let s = rhad(&rsq(&p));
    let q = [0, 1, 2, 3].map(|i: usize| s[i] * cod[i].inv());
    proj("product image", &of4(&img[0]), &q);
    proj("product image of the null point", &of4(&img[1]), &got);
}

// ---- splitting ----------------------------------------------------------------------------------------
const EVEN: [(usize, usize); 10] = [(0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 2), (2, 0), (2, 1), (3, 0), (3, 3)];
fn dot(a: usize, b: usize) -> bool { (a & b).count_ones() & 1 == 1 }
fn u22(v: &V4, w: &V4, chi: usize, i: usize) -> G {
    let mut s = G::c(0);
    for t in 0..4 { let m = v[t] * w[i ^ t]; s = if dot(chi, t) { s - m } else { s + m }; }
    s
}
/// a null point whose only vanishing even constant is the one with index k
fn split_null(k: usize, real: bool) -> V4 {
    let v: V4 = if real { let mut v = rv4("n"); v[0] = G::c(1); v } else { [G::c(1), rvar("n1"), rvar("n2"), gvar("n3")] };
    let (c, i) = EVEN[k];
    assume_g_eq(u22(&v, &v, c, i), G::c(0));
    for (j, (c, i)) in EVEN.iter().enumerate() { if j != k { assume_nonzero(u22(&v, &v, *c, *i).norm()); } }
    v
}
/// the first null point (in a fixed order of small constants) with that property
fn split_rep(k: usize) -> Option<V4> {
    let p = prime() as i64;
    let m = p * p * p * p;
    for e in 0..(if p < 12 { m * p } else { 400000 }) {
        let d = |j: u32| cst(e / p.pow(j) % p);
        let v = [G::c(1), G(d(0), d(3)), G(d(1), d(4)), G(d(2), cst(0))];
        if EVEN.iter().enumerate().all(|(j, (c, i))| { let u = u22(&v, &v, *c, *i); (conc(u.0) == Some(0) && conc(u.1) == Some(0)) == (j == k) }) { return Some(v); }
    }
    None
}
#[cfg(feature = "thetapriv2")]
fn constants() {
    // the code's constants against the definition, for a free vector
    let v = rv4("v");
    for (c, i) in EVEN { veq("level 2,2 constant", G::of(&level_22_constants_sqr(&th(&v), &c, &i)), u22(&v, &v, c, i)); }
    for a in 0..4 { for b in 0..4 { check("chi", boolword("chi word", chi_eval(&a, &b)) == dot(a, b)); } }
}
/// the product condition XT = YZ holds after the change of basis, for the null point and product-likeness is preserved
fn split_to(real: bool) {
    let k = pick("vanishing", 10) as usize;
    let n = split_null(k, real);
    #[cfg(feature = "thetapriv2")]
    {
        let (c, i) = identify_even_index(&th(&n));
        check("vanishing index", (c, i) == EVEN[k]);
    }
    let S = splitting_isomorphism(ThetaStructure::new_from_point(&th(&n)), &mut []);
    let m = of4(&S.null_point());
    veq(&format!("split null point is a product {k}"), m[0] * m[3], m[1] * m[2]);
    for (j, (c, i)) in EVEN.iter().enumerate() { if (*c, *i) != (3, 3) { let u = u22(&m, &m, *c, *i); chk_nz("other constants do not vanish", u); } }
}
fn split_r() { split_to(true) }
fn split_g() { split_to(false) }
#[cfg(feature = "thetapriv2")]
/// the ten matrices act as symplectic changes of basis: each even quadratic form goes to a multiple of an even form
fn split_matrix() {
    let k = pick("vanishing", 10) as usize;
    // a representative null point; the matrix may only depend on the vanishing index
    let n = match split_rep(k) { Some(n) => n, None => { check("representative exists", false); return; } };
    let M = compute_splitting_matrix(&th(&n));
    let mut cm = [(0u32, 0u32); 16];
    for j in 0..16 {
        let g = G::of(&M[j]);
        match (conc(g.0), conc(g.1)) { (Some(a), Some(b)) => cm[j] = (a, b), _ => check("matrix is constant", false) }
    }
    check("matrix is constant", true);
    let mv = |x: &V4| { let mut P = th(x); apply_base_change(&mut P, M); of4(&P) };
    // probes (constants) to find the partner of each form
    let pr: Vec<V4> = vec![[1, 2, 0, 3], [2, 1, 1, 5], [1, 0, 3, 1], [0, 1, 4, 2], [3, 3, 1, 0], [1, 5, 2, 6], [4, 1, 6, 2], [2, 3, 5, 1], [1, 1, 2, 4], [6, 2, 3, 5], [5, 4, 1, 1]]
        .into_iter().map(|v: [i64; 4]| [G::c(v[0]), G::c(v[1]), G(cst(v[2]), cst(v[1] + 1)), G(cst(v[3]), cst(v[0]))]).collect();
    let x = rv4("x"); // enough: the forms have degree 2 and p > 2
    let y = mv(&x);
    let mut used = vec![];
    for (c, i) in EVEN {
        let mut hit = None;
        'j: for (j, (c2, i2)) in EVEN.iter().enumerate() {
            let mut sc: Option<G> = None;
            for q in &pr {
                let (a, b) = (u22(&mv(q), &mv(q), c, i), u22(q, q, *c2, *i2));
                if b.is0() { if !a.is0() { continue 'j } continue; }
                let r = a * b.inv();
                match sc { None => sc = Some(r), Some(s) => if !s.eq(r) { continue 'j } }
            }
            hit = Some((j, sc.unwrap()));
            break;
        }
        match hit {
            None => { check("even form goes to an even form", false); return; }
            Some((j, s)) => {
                check("even form goes to an even form", !used.contains(&j) && !s.is0());
                used.push(j);
                veq("form identity", u22(&y, &y, c, i), s * u22(&x, &x, EVEN[j].0, EVEN[j].1));
                if (c, i) == (3, 3) { check("the vanishing form becomes the product form", j == k); }
            }
        }
    }
}
// ---- reading off curves and points ---------------------------------------------------------------------
fn mont_a(o: (G, G)) -> G {
    let (s, d) = (o.0.sq() + o.1.sq(), o.0.sq() - o.1.sq());
    -((s.sq() + d.sq()) * (s * d).inv())
}
fn fq2(o: (G, G)) -> (Fq, Fq) { (o.0.fq(), o.1.fq()) }
#[cfg(feature = "thetapriv2")]
/// dimension one: curve and Kummer map are compatible with doubling and the 2-torsion
fn kummer() {
    let o = (G::c(1), gvar("b"));
    assume_g_nz(o.1);
    assume_g_nz(o.0.sq() + o.1.sq());
    assume_g_nz(o.0.sq() - o.1.sq());
    let E = null_point_to_montgomery_curve(&fq2(o));
    let A = mont_a(o);
    veq("A", G::of(&E.get_constant()), A);
    let (u, v) = (rvar("u"), rvar("v"));
    if u.is0() { assume_g_nz(v); }
    let (X, Z) = theta_point_to_montgomery_point(&fq2(o), &fq2((u, v))).get_xz();
    let (X, Z) = (G::of(&X), G::of(&Z));
    // theta doubling in dimension one
    let (a2, b2) = (o.0.sq() + o.1.sq(), o.0.sq() - o.1.sq());
    let (s, d) = (u.sq() + v.sq(), u.sq() - v.sq());
    let (s, d) = (s.sq() * a2.inv(), d.sq() * b2.inv());
    let (u2, v2) = ((s + d) * o.0.inv(), (s - d) * o.1.inv());
    let (X2, Z2) = theta_point_to_montgomery_point(&fq2(o), &fq2((u2, v2))).get_xz();
    let (X2, Z2) = (G::of(&X2), G::of(&Z2));
    // Montgomery doubling
    let xd = (X.sq() - Z.sq()).sq();
    let zd = G::c(4) * X * Z * (X.sq() + A * X * Z + Z.sq());
    veq("doubling commutes", X2 * zd, Z2 * xd);
    if X2.is0() { chk_nz("image is a point", Z2) }
    // null point -> infinity
    let (X, Z) = theta_point_to_montgomery_point(&fq2(o), &fq2(o)).get_xz();
    veq("null -> infinity", G::of(&Z), G::c(0));
    chk_nz("null -> infinity X", G::of(&X));
}
/// x-coordinate of the point with theta coordinates (u:v) on the curve of o: (X, Z)
fn mont_x(o: (G, G), p: (G, G)) -> (G, G) { (o.0 * p.1 + o.1 * p.0, o.0 * p.1 - o.1 * p.0) }
fn check_x(name: &str, A: G, R: &Point, x: (G, G)) {
    // the x-coordinate may belong to the twist: then the lift fails and the point is infinity
    let (X, Y, Z) = coords(R);
    if x.1.is0() { veq(name, Z, G::c(0)); return; }
    let w = x.0 * x.1 * (x.0.sq() + A * x.0 * x.1 + x.1.sq());
    // w is a square in GF(p^2) iff its norm is a square in GF(p)
    let square = test(w.norm(), set_qr(prime()) | 1);
    if !square { return; }
    chk_nz(name, Z);
    veq(name, X * x.1, x.0 * Z);
    veq(&format!("{name}: on curve"), Y * Y * Z, X * X * X + A * X * X * Z + X * Z * Z);
}
/// split structure given as a product of two dimension-one structures
fn read_off(ext: bool) {
    let (o1, o2) = ((G::c(1), rvar("b1")), (rvar("a2"), G::c(1)));
    for o in [o1, o2] {
        assume_g_nz(o.0);
        assume_g_nz(o.1);
        assume_g_nz(o.0.sq() + o.1.sq());
        assume_g_nz(o.0.sq() - o.1.sq());
    }
    let n = [o2.0 * o1.0, o2.0 * o1.1, o2.1 * o1.0, o2.1 * o1.1];
    let one = |nm: &str| {
        // arbitrary projective point of the Kummer line
        match pick(nm, 2) { 0 => (G::c(1), rvar(&format!("{nm}v"))), _ => (G::c(0), G::c(1)) }
    };
    let (p1, p2) = (one("p1"), one("p2"));
    let p = [p2.0 * p1.0, p2.0 * p1.1, p2.1 * p1.0, p2.1 * p1.1];
    let Th = ThetaStructure::new_from_point(&th(&n));
    let (EE, im) = split_to_product(&Th, &[th(&p), th(&n)], 2);
    let (E3, E4) = EE.curves();
    veq("first curve", G::of(&E3.get_constant()), mont_a(o1));
    veq("second curve", G::of(&E4.get_constant()), mont_a(o2));
    check("number of images", im.len() == 2);
    let (R, S) = im[0].points();
    check_x("first point", mont_a(o1), &R, mont_x(o1, p1));
    check_x("second point", mont_a(o2), &S, mont_x(o2, p2));
    let (R, S) = im[1].points();
    check("null -> (O, O)", R.isinfinity() == !0 && S.isinfinity() == !0);
    let (_, im) = split_to_product(&Th, &[th(&p), th(&n), th(&p)], 1);
    check("only the requested images", im.len() == 1);
}
fn read_off_r() { read_off(false) }

// ---- gluing ---------------------------------------------------------------------------------------------
fn proj_th(name: &str, v: &ThetaPoint, w: &ThetaPoint) { proj(name, &of4(v), &of4(w)) }
/// the image of an arbitrary point: infinity goes to the null point, the kernel acts trivially, doubling commutes
fn gluing(side: usize, what: usize, nk: u32, full: bool) {
    let K = ker(pick("kernel", nk.min(nker())) as usize);
    let (P, Q) = gens8(&K);
    let E = K.prod();
    let h = prime() as u64 + 1;
    let any = |A: G| if full { let (x, y) = (gvar("Px"), gvar("Py")); assume_g_eq(y * y, rhs(A, x)); Some((x, y)) } else { halfreal(A, "P") };
    let S = if pick("other", 2) == 0 { (None, None) } else { (rmul(K.a1, P.0, 3), rmul(K.a2, Q.1, 5)) };
    let R = if side == 0 { (any(K.a1), S.1) } else { (S.0, any(K.a2)) };
    let neg = (R.0.map(|(x, y)| (x, -y)), R.1.map(|(x, y)| (x, -y)));
    let img = if what == 0 { vec![R, K.add(R, K.comb(h / 2, 0)), K.add(R, K.comb(h / 2, h / 2)), neg, (None, None)] } else { vec![R, K.add(R, R)] };
    let im: Vec<CouplePoint> = img.iter().map(|x| cp(*x)).collect();
    let (th1, im) = gluing_isogeny(&E, &cp(P), &cp(Q), &im);
    nonzero4("image is a point", &of4(&im[0]));
    if what == 0 {
        proj_th("O -> null point", &im[4], &th1.null_point());
        proj_th("translation by the kernel", &im[0], &im[1]);
        proj_th("translation by the kernel 2", &im[0], &im[2]);
        proj_th("negation", &im[0], &im[3]);
        for i in 1..4 { nonzero4("image is a point", &of4(&im[i])); }
    } else {
        let d = th1.double_point(&im[0]);
        nonzero4("double image is a point", &of4(&d));
        proj_th("doubling commutes", &im[1], &d);
    }
}
fn gluing_00() { gluing(0, 0, 6, false) }
fn gluing_03() { gluing(0, 1, 24, false) }
fn gluing_10() { gluing(1, 0, 6, false) }
fn gluing_13() { gluing(1, 1, 24, false) }
fn gluing_f00() { gluing(0, 0, 2, true) }
fn gluing_f03() { gluing(0, 1, 2, true) }
fn gluing_f10() { gluing(1, 0, 2, true) }
fn gluing_f13() { gluing(1, 1, 2, true) }
type Aff2 = (Aff, Aff);
/// two couple points of order 8 above the kernel
fn gens8(K: &Ker) -> (Aff2, Aff2) { let m = (prime() as u64 + 1) / 8; (K.comb(m, 0), K.comb(0, m)) }
#[cfg(feature = "thetapriv2")]
/// the position of the vanishing dual coordinate: multiplying coordinate j by a square root of -1 where j.z is odd
/// moves dual index i to i^z; codomain and image must move along
fn gluing_index() {
    let z = pick("z", 4) as usize;
    let im = G(cst(0), cst(1));
    // T1 = dual (0, xB, yC, yD), T2 = dual (0, tB, zC, tD) in the first position; free points P, P + T
    let t: Vec<V4> = ["T", "U"].iter().map(|n| { let mut v = rv4(n); v[0] = G::c(1); v }).collect();
    for v in &t {
        let d = rhad(&rsq(v));
        assume_g_eq(d[3], G::c(0));
        for j in 0..3 { assume_g_nz(d[j]); }
    }
    let tw = |v: &V4| -> ThetaPoint { let mut w = *v; for j in 0..4 { if dot(j, z) { w[j] = w[j] * im; } } th(&w) };
    let (P, R) = ([G::c(2), rvar("P1"), G::c(1), G::c(3)], [G::c(1), G::c(3), rvar("R2"), G::c(1)]);
    let (c0, (a0, b0), i0) = gluing_codomain(&th(&t[0]), &th(&t[1]));
    let (c1, (a1, b1), i1) = gluing_codomain(&tw(&t[0]), &tw(&t[1]));
    check("index", i0 == 3 && i1 == 3 ^ z);
    let (n0, n1) = (rhad(&of4(&c0.null_point())), rhad(&of4(&c1.null_point())));
    let mv = |v: &V4| [0, 1, 2, 3].map(|i: usize| v[i ^ z]);
    // definition, first position: (A, B, C, 0) with A : B : C from the two kernel points
    let (x, y) = (rhad(&rsq(&t[0])), rhad(&rsq(&t[1])));
    // T1 ~ (xA, xB, yC, yD), T2 ~ (zA, tB, zC, tD) up to the index shift 3: entries 3^k
    let g = |v: &V4, k: usize| v[3 ^ k];
    let want = { let mut w = [G::c(0); 4]; w[3 ^ 3] = G::c(1); w[3 ^ 1] = g(&y, 1) * g(&y, 3).inv(); w[3 ^ 2] = g(&x, 2) * g(&x, 3).inv(); w };
    proj("codomain", &n0, &want);
    proj("codomain moves with the index", &mv(&n1), &n0);
    let p0 = rhad(&of4(&gluing_image(&th(&P), &th(&R), || th(&R), &a0, &b0, i0)));
    let p1 = rhad(&of4(&gluing_image(&tw(&P), &tw(&R), || tw(&R), &a1, &b1, i1)));
    proj("image moves with the index", &mv(&p1), &p0);
    check_eq("image", cst(0), cst(0));
    for j in 1..4usize { veq("image entries", g(&p0, j) * g(&want, j), g(&rhad(&rsq(&P)), j) * G::c(4)); }
}
pub fn list() -> Vec<(&'static str, Harness)> {
    let mut v = vec![("c16_iso_00", iso_00 as Harness), ("c16_iso_01", iso_01), ("c16_iso_10", iso_10), ("c16_iso_11", iso_11), ("c16_iso_prod", iso_prod),
        ("c17_split_r", split_r), ("c17_split_g", split_g), ("c17_read_off", read_off_r),
        ("c17_gluing_00", gluing_00), ("c17_gluing_03", gluing_03), ("c17_gluing_10", gluing_10), ("c17_gluing_13", gluing_13),
        ("c17_gluing_f00", gluing_f00), ("c17_gluing_f03", gluing_f03), ("c17_gluing_f10", gluing_f10), ("c17_gluing_f13", gluing_f13)];
    #[cfg(feature = "thetapriv2")]
    v.extend([("c17_constants", constants as Harness), ("c17_matrix", split_matrix), ("c17_kummer", kummer), ("c17_gluing_index", gluing_index)]);
    v
}
