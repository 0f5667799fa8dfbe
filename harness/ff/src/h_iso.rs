//! C12 (odd isogenies) and C13 (Weil pairing).
use crate::ecFESTA::*;
use crate::explore::Harness;
use crate::h_ec::*;
use crate::pairing::*;
use crate::spec::*;
use crate::sym::*;
use num_bigint::BigUint;

fn capped(c: usize) -> usize { std::env::var("FF_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(c) }
// ---- reference isogeny: Costello-Hisil, affine -----------------------------------------------------
/// x-coordinates of K, 2K, ..., dK
fn multiples(A: G, k: Aff, d: usize) -> Vec<G> {
    let mut v = vec![];
    let mut t = k;
    for i in 0..d { v.push(t.expect("kernel multiple").0); if i + 1 < d { t = radd(A, t, k); } }
    v
}
fn ref_codomain(A: G, xs: &[G]) -> G {
    let (mut s, mut si, mut pi) = (G::c(0), G::c(0), G::c(1));
    for x in xs { s = s + *x; si = si + x.inv(); pi = pi * *x; }
    (G::c(6) * si - G::c(6) * s + A) * pi * pi
}
/// x-coordinate of the image (None: infinity)
fn ref_image(xs: &[G], x: Option<G>) -> Option<G> {
    let x = x?;
    let mut f = x;
    for k in xs { if x.eq(*k) { return None; } let t = (x * *k - G::c(1)) * (x - *k).inv(); f = f * t * t; }
    Some(f)
}
fn chk_x(name: &str, B: G, R: &Point, want: Option<G>) {
    match want {
        None => same(name, R, None),
        Some(x) => {
            let (X, Y, Z) = coords(R);
            chk_nz(name, Z);
            veq(name, X, x * Z);
            veq(&format!("{name}: on codomain"), Y * Y * Z, X * X * X + B * X * X * Z + X * Z * Z);
        }
    }
}
/// point of exact order n (n = product of the listed primes), by the reference law
fn kernel(A: G, n: u64, primes: &[u64]) -> (Point, Aff) {
    let z = rvar("Kz");
    assume_g_nz(z);
    let (x, y) = (rvar("Kx"), rvar("Ky"));
    assume_g_eq(y * y, rhs(A, x));
    let k = Some((x, y));
    assume_that(rmul(A, k, n).is_none());
    for l in primes { assume_that(rmul(A, k, n / l).is_some()); }
    (mkpt(x * z, y * z, z), k)
}
fn kernel_ext(A: G, n: u64, primes: &[u64]) -> (Point, Aff) {
    let (x, y) = (gvar("Kx"), gvar("Ky"));
    assume_g_eq(y * y, rhs(A, x));
    let k = Some((x, y));
    assume_that(rmul(A, k, n).is_none());
    for l in primes { assume_that(rmul(A, k, n / l).is_some()); }
    (mkpt(x, y, G::c(1)), k)
}
/// all (A, x, y) over the base field with (x, y) of exact order n, found by the reference law on constants;
/// at most `cap` of them, spread evenly, chosen by a free index
fn kernel_case(n: u64, primes: &[u64], cap: usize) -> (G, Point, Aff) {
    let p = prime() as i64;
    let mut v = vec![];
    for a in 0..p {
        if a == 2 || a == p - 2 { continue; }
        let A = G::c(a);
        for x in 1..p { for y in 1..=p / 2 {
            if (y * y - (x * x % p * x + a * x % p * x + x)) % p != 0 { continue; }
            let k = Some((G::c(x), G::c(y)));
            if rmul(A, k, n).is_some() || primes.iter().any(|l| rmul(A, k, n / l).is_none()) { continue; }
            v.push((a, x, y));
        } }
    }
    assume_that(!v.is_empty());
    let cap = capped(cap);
    let m = v.len().min(cap);
    v.sort_by_key(|t| (t.0 * 7919 + t.1 * 104729 + t.2 * 1299709) % 10007);
    let (a, x, y) = v[pick("kernel", m as u32) as usize];
    let z = 1 + x % 3;
    (G::c(a), mkpt(G::c(x * z), G::c(y * z), G::c(z)), Some((G::c(x), G::c(y))))
}
fn setup_case(n: u64, primes: &[u64], cap: usize) -> (G, Curve, Point, Aff, Point, Aff) {
    let (A, K, k) = kernel_case(n, primes, cap);
    let E = curve(A);
    let (P, p) = point(A, "P");
    (A, E, K, k, P, p)
}
/// the same over the extension: up to `cap` (A, x, y) in GF(p^2), from a fixed pseudo-random sequence
fn kernel_case_ext(n: u64, primes: &[u64], cap: usize) -> (G, Point, Aff) {
    type C = (i64, i64);
    static CACHE: std::sync::Mutex<Vec<((u32, u64), Vec<(C, C, C)>)>> = std::sync::Mutex::new(vec![]);
    let p = prime() as i64;
    let mut cache = CACHE.lock().unwrap();
    if !cache.iter().any(|c| c.0 == (prime(), n)) {
        let mul = |a: C, b: C| ((a.0 * b.0 + (p - a.1) * b.1) % p, (a.0 * b.1 + a.1 * b.0) % p);
        let add = |a: C, b: C| ((a.0 + b.0) % p, (a.1 + b.1) % p);
        let (mut v, mut st) = (vec![], 12345u64);
        let mut rnd = |m: i64| { st = st.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((st >> 33) % m as u64) as i64 };
        'o: for _ in 0..40000 {
            let (a, x): (C, C) = ((rnd(p), 1 + rnd(p - 1)), (rnd(p), rnd(p)));
            if a.1 == 0 { continue; }
            let r = mul(x, add(add(mul(x, x), mul(a, x)), (1, 0)));
            for y0 in 0..p { for y1 in 0..p {
                if mul((y0, y1), (y0, y1)) != r { continue; }
                let g = |c: C| G(cst(c.0), cst(c.1));
                let k = Some((g(x), g((y0, y1))));
                if rmul(g(a), k, n).is_none() && primes.iter().all(|l| rmul(g(a), k, n / l).is_some()) {
                    v.push((a, x, (y0, y1)));
                    if v.len() == 24 { break 'o; }
                }
                continue 'o;
            } }
        }
        cache.push(((prime(), n), v));
    }
    let v = cache.iter().find(|c| c.0 == (prime(), n)).unwrap().1.clone();
    drop(cache);
    assume_that(!v.is_empty());
    let (a, x, y) = v[pick("kernel", v.len().min(capped(cap)) as u32) as usize];
    let g = |c: C| G(cst(c.0), cst(c.1));
    (g(a), mkpt(g(x), g(y), G::c(1)), Some((g(x), g(y))))
}
fn setup_case_ext(n: u64, primes: &[u64], cap: usize) -> (G, Curve, Point, Aff, Point, Aff) {
    let (A, K, k) = kernel_case_ext(n, primes, cap);
    let E = curve(A);
    let (P, p) = gpoint(A, "P");
    (A, E, K, k, P, p)
}
/// curve, kernel point and evaluation point with coordinates in the base field / the extension
fn setup(ext: bool, n: u64, primes: &[u64]) -> (G, Curve, Point, Aff, Point, Aff) {
    if ext {
        let A = gvar("A");
        let E = curve(A);
        let (K, k) = kernel_ext(A, n, primes);
        let (P, p) = gpoint(A, "P");
        (A, E, K, k, P, p)
    } else {
        let A = rvar("A");
        let E = curve(A);
        let (K, k) = kernel(A, n, primes);
        let (P, p) = point(A, "P");
        (A, E, K, k, P, p)
    }
}
fn isog(l: u64, ext: bool) { isog_on(l, setup(ext, l, &[l])) }
fn isog_on(l: u64, s: (G, Curve, Point, Aff, Point, Aff)) {
    let (A, E, K, k, P, p) = s;
    let phi = KummerLineIsogeny::new(&E, &K, l as usize);
    let xs = multiples(A, k, (l as usize - 1) / 2);
    let B = ref_codomain(A, &xs);
    let C = phi.get_codomain();
    veq("codomain", G::of(&C.get_constant()), B);
    chk_x("image", B, &phi.evaluate_isogeny(&P), ref_image(&xs, p.map(|t| t.0)));
    // the kernel itself
    same("kernel to infinity", &phi.evaluate_isogeny(&K), None);
    if let Some((x, y)) = p { if x.eq(xs[0]) { check("kernel multiple", ref_image(&xs, Some(x)).is_none()) } }
}
fn isog3() { isog(3, false) }
fn isog5() { isog(5, false) }
fn isog7() { isog(7, false) }
fn isog3x() { isog(3, true) }
fn isog5x() { isog(5, true) }
fn isog7x() { isog(7, true) }
/// phi(P+Q) is phi(P) + phi(Q) or phi(P) - phi(Q); phi(P) = phi(P+K)
fn isog_hom(l: u64, cap: usize) {
    let (A, E, K, k, P, p) = setup_case(l, &[l], cap);
    let phi = KummerLineIsogeny::new(&E, &K, l as usize);
    let xs = multiples(A, k, (l as usize - 1) / 2);
    let a = ref_image(&xs, p.map(|t| t.0));
    let q = radd(A, p, k);
    let Q = match q { None => Point::INFINITY, Some((x, y)) => mkpt(x, y, G::c(1)) };
    chk_x("translation by the kernel", ref_codomain(A, &xs), &phi.evaluate_isogeny(&Q), a);
    let d = radd(A, p, p);
    let D = match d { None => Point::INFINITY, Some((x, y)) => mkpt(x, y, G::c(1)) };
    let I = phi.evaluate_isogeny(&P);
    let J = phi.evaluate_isogeny(&D);
    // x(2 phi(P)) = x(phi(2P))
    let II = phi.get_codomain().double(&I);
    let ((X1, _, Z1), (X2, _, Z2)) = (coords(&II), coords(&J));
    if Z1.is0() { veq("doubling commutes", Z2, G::c(0)) } else { chk_nz("doubling commutes", Z2); veq("doubling commutes", X1 * Z2, X2 * Z1) }
}
fn hom3() { isog_hom(3, 8) }
fn hom5() { isog_hom(5, 8) }
fn hom7() { isog_hom(7, 8) }
fn isog_cases() { let l = [3, 5, 7, 11, 13][pick("l", 5) as usize]; if l == prime() as u64 { return; } isog_on(l, setup_case(l, &[l], 12)) }
fn isog_cases_x() { let l = [3, 5, 7, 11, 13][pick("l", 5) as usize]; if l == prime() as u64 { return; } isog_on(l, setup_case_ext(l, &[l], 8)) }
fn chain(order: &[(u32, u32)], cap: usize, ext: bool) {
    let n: u64 = order.iter().map(|(l, e)| (*l as u64).pow(*e)).product();
    let pr: Vec<u64> = order.iter().map(|(l, _)| *l as u64).collect();
    let (A, E, K, k, P, p) = if ext { setup_case_ext(n, &pr, cap) } else { setup_case(n, &pr, cap) };
    let phi = factored_kummer_isogeny(&E, &K, order);
    check("chain length", phi.len() as u32 == order.iter().map(|o| o.1).sum::<u32>());
    // reference: one prime at a time, with full points (y recovered with an arbitrary sign is irrelevant for x)
    let (mut B, mut m, mut xp) = (A, n, p.map(|t| t.0));
    let mut kk = k;
    for (l, e) in order { for _ in 0..*e {
        let l = *l as u64;
        let g = rmul(B, kk, m / l);
        let xs = multiples(B, g, (l as usize - 1) / 2);
        xp = ref_image(&xs, xp);
        // push the kernel generator: (x, y) -> (f(x), y f'(x) pi)
        kk = push(&xs, kk);
        B = ref_codomain(B, &xs);
        m /= l;
    } }
    check("reference kernel exhausted", kk.is_none());
    let (C, Q) = evaluate_isogeny_chain(&E, &P, &phi);
    veq("chain codomain", G::of(&C.get_constant()), B);
    chk_x("chain image", B, &Q, xp);
    let (_, Q) = evaluate_isogeny_chain(&E, &K, &phi);
    same("chain kernel to infinity", &Q, None);
    let (C0, P0) = evaluate_isogeny_chain(&E, &P, &vec![]);
    veq("empty chain", G::of(&C0.get_constant()), A);
    same("empty chain", &P0, p);
}
/// full image of a point under the reference isogeny
fn push(xs: &[G], p: Aff) -> Aff {
    let (x, y) = p?;
    let (mut f, mut dl, mut pi) = (x, G::c(0), G::c(1));
    let mut fac = vec![];
    for k in xs {
        if x.eq(*k) { return None; }
        let (u, w) = (x * *k - G::c(1), (x - *k).inv());
        fac.push((u, w, *k));
        pi = pi * *k;
    }
    // f = x prod t_i^2, f' = prod t_i^2 + x * sum_i 2 t_i t_i' prod_{j!=i} t_j^2
    let t: Vec<G> = fac.iter().map(|(u, w, _)| *u * *w).collect();
    let mut prod = G::c(1);
    for a in &t { prod = prod * *a * *a; }
    f = x * prod;
    let mut df = prod;
    for i in 0..t.len() {
        let (u, w, k) = fac[i];
        let ti = (k * (w * (G::c(1))) ) - u * w * w; // (k (x-k) - u)/(x-k)^2
        let mut o = G::c(1);
        for j in 0..t.len() { if j != i { o = o * t[j] * t[j]; } }
        df = df + x * G::c(2) * t[i] * ti * o;
    }
    dl = df * pi;
    Some((f, y * dl))
}
/// the reference push is a point of the reference codomain (sanity of the oracle, checked by the solver too)
fn ref_ok() {
    let A = rvar("A");
    let _E = curve(A);
    let l = [3, 5][pick("l", 2) as usize];
    let (_, k) = kernel(A, l, &[l]);
    let xs = multiples(A, k, (l as usize - 1) / 2);
    let (_, p) = affpoint(A, "P");
    if let Some((x, y)) = push(&xs, p) { veq("oracle on curve", y * y, rhs(ref_codomain(A, &xs), x)) }
}
fn chain_15() { chain(&[(3, 1), (5, 1)], 16, false) }
fn chain_15x() { chain(&[(3, 1), (5, 1)], 6, true) }
fn chain_51() { chain(&[(5, 1), (3, 1)], 16, false) }
fn chain_51x() { chain(&[(5, 1), (3, 1)], 6, true) }
fn chain_9() { chain(&[(3, 2)], 16, false) }
fn chain_9x() { chain(&[(3, 2)], 6, true) }
fn chain_27() { chain(&[(3, 3)], 16, false) }
fn chain_27x() { chain(&[(3, 3)], 6, true) }
fn chain_21() { chain(&[(7, 1), (3, 1)], 16, false) }
fn chain_21x() { chain(&[(7, 1), (3, 1)], 6, true) }
fn chain_45() { chain(&[(3, 2), (5, 1)], 16, false) }
fn chain_45x() { chain(&[(3, 2), (5, 1)], 6, true) }
/// P, Q -> +-(phi P, phi Q): the sum of the images is the image of the sum, up to sign
fn basis(l: u64, D: u64) {
    let A = rvar("A");
    let E = curve(A);
    let (K, k) = kernel(A, l, &[l]);
    let phi = factored_kummer_isogeny(&E, &K, &[(l as u32, 1)]);
    let (P, p) = affpoint(A, "P");
    // second point: on the quadratic twist part, (x, i y)
    let (qx, qy) = (rvar("Qx"), var("Qy"));
    let qy = G(cst(0), qy);
    assume_g_eq(qy * qy, rhs(A, qx));
    let q = Some((qx, qy));
    // exact order D, for both
    for t in [p, q] {
        assume_that(rmul(A, t, D).is_none());
        for f in [2, 3, 5, 7] { if D % f == 0 { assume_that(rmul(A, t, D / f).is_some()); } }
    }
    let Q = mkpt(qx, qy, G::c(1));
    // a basis: the pairing has exact order D (reference pairing)
    let e = ref_weil(A, p, q, D);
    for f in [2, 3, 5, 7] { if D % f == 0 { let t = e.pow(D / f) - G::c(1); assume_g_nz(t); } }
    let s = radd(A, p, q);
    let (C, (I, J)) = evaluate_isogeny_chain_for_basis(&E, &(P, Q), &phi, &BigUint::from(D), &BigUint::from(l));
    let xs = multiples(A, k, (l as usize - 1) / 2);
    let B = ref_codomain(A, &xs);
    veq("basis codomain", G::of(&C.get_constant()), B);
    chk_x("basis P", B, &I, ref_image(&xs, p.map(|t| t.0)));
    chk_x("basis Q", B, &J, ref_image(&xs, q.map(|t| t.0)));
    let S = C.add(&I, &J);
    chk_x("basis P+Q", B, &S, ref_image(&xs, s.map(|t| t.0)));
}
fn basis_3_4() { basis(3, 4) }
fn basis_5_3() { basis(5, 3) }
fn basis_3_5() { basis(3, 5) }

// ---- reference Weil pairing: naive Miller chain 1, 2, 3, ..., D with affine lines ------------------
/// line through a and b, over the vertical at a+b, evaluated at q; None when q is a zero or pole
fn ratio(A: G, a: Aff, b: Aff, q: (G, G)) -> Option<G> {
    let (x, y) = q;
    let (pa, pb) = match (a, b) { (None, _) | (_, None) => return Some(G::c(1)), (Some(a), Some(b)) => (a, b) };
    let num = if pa.0.eq(pb.0) {
        if !pa.1.eq(pb.1) || pa.1.is0() { x - pa.0 }
        else { let l = (G::c(3) * pa.0 * pa.0 + G::c(2) * A * pa.0 + G::c(1)) * (pa.1 + pa.1).inv(); y - pa.1 - l * (x - pa.0) }
    } else { let l = (pb.1 - pa.1) * (pb.0 - pa.0).inv(); y - pa.1 - l * (x - pa.0) };
    if num.is0() { return None; }
    match radd(A, a, b) {
        None => Some(num),
        Some((sx, _)) => { let d = x - sx; if d.is0() { None } else { Some(num * d.inv()) } }
    }
}
fn miller(A: G, p: Aff, q: (G, G), D: u64) -> Option<G> {
    let (mut f, mut v) = (G::c(1), p);
    for _ in 1..D { f = f * ratio(A, v, p, q)?; v = radd(A, v, p); }
    Some(f)
}
fn ref_weil(A: G, p: Aff, q: Aff, D: u64) -> G {
    let (pp, qq) = match (p, q) { (Some(a), Some(b)) => (a, b), _ => return G::c(1) };
    match (miller(A, p, qq, D), miller(A, q, pp, D)) {
        (Some(a), Some(b)) => { let r = a * b.inv(); if D % 2 == 1 { -r } else { r } }
        _ => G::c(1), // q in <p>
    }
}
fn curveA() -> G {
    // every curve coefficient of the base field, by case
    let a = pick("A", prime());
    let A = G::c(a as i64);
    assume_that(a != 2 && a != prime() - 2);
    A
}
fn tors(A: G, n: &str, D: u64, ext: bool, inf: bool) -> (Point, Aff) {
    if inf && pick(&format!("{n}inf"), 2) == 1 { return (mkpt(G::c(0), rvar(&format!("{n}y")), G::c(0)), None); }
    let (P, p) = if ext { gpoint(A, n) } else { point(A, n) };
    assume_that(rmul(A, p, D).is_none());
    (P, p)
}
fn pair(D: u64, ext: bool) {
    let A = curveA();
    let E = curve(A);
    let (P, p) = tors(A, "P", D, false, true);
    let (Q, q) = tors(A, "Q", D, ext, true);
    let e = G::of(&weil_pairing(&E, &P, &Q, &BigUint::from(D)));
    veq("weil", e, ref_weil(A, p, q, D));
    veq("root of unity", e.pow(D), G::c(1));
    let f = G::of(&weil_pairing(&E, &Q, &P, &BigUint::from(D)));
    veq("antisymmetric", e * f, G::c(1));
    veq("alternating", G::of(&weil_pairing(&E, &P, &P, &BigUint::from(D))), G::c(1));
}
fn pair2() { pair(2, true) }
fn pair3() { pair(3, true) }
fn pair4() { pair(4, true) }
fn pair5() { pair(5, true) }
fn pair6() { pair(6, true) }
fn pair8() { pair(8, true) }
/// both points arbitrary in the extension
fn pairx(D: u64) {
    let A = curveA();
    let E = curve(A);
    let (P, p) = tors(A, "P", D, true, false);
    let (Q, q) = tors(A, "Q", D, true, false);
    let e = G::of(&weil_pairing(&E, &P, &Q, &BigUint::from(D)));
    veq("weil", e, ref_weil(A, p, q, D));
}
fn pairx3() { pairx(3) }
fn pairx4() { pairx(4) }
fn bilin(D: u64) {
    let A = curveA();
    let E = curve(A);
    let (P, p) = tors(A, "P", D, false, false);
    let (Q, q) = tors(A, "Q", D, true, false);
    let (R, r) = tors(A, "R", D, false, false);
    let n = BigUint::from(D);
    let s = radd(A, p, r);
    let S = match s { None => Point::INFINITY, Some((x, y)) => mkpt(x, y, G::c(1)) };
    let w = |a: &Point, b: &Point| G::of(&weil_pairing(&E, a, b, &n));
    veq("bilinear left", w(&S, &Q), w(&P, &Q) * w(&R, &Q));
    veq("bilinear right", w(&Q, &S), w(&Q, &P) * w(&Q, &R));
}
fn bilin3() { bilin(3) }
fn bilin4() { bilin(4) }

pub fn list() -> Vec<(&'static str, Harness)> {
    vec![("c12_oracle", ref_ok as Harness), ("c12_isog3", isog3), ("c12_isog5", isog5), ("c12_isog7", isog7), ("c12_isog3x", isog3x), ("c12_isog5x", isog5x), ("c12_isog7x", isog7x), ("c12_hom3", hom3), ("c12_hom5", hom5), ("c12_hom7", hom7), ("c12_isog_cases", isog_cases), ("c12_isog_cases_x", isog_cases_x),
        ("c12_chain15", chain_15), ("c12_chain15x", chain_15x), ("c12_chain51", chain_51), ("c12_chain51x", chain_51x), ("c12_chain9", chain_9), ("c12_chain9x", chain_9x), ("c12_chain27", chain_27), ("c12_chain27x", chain_27x), ("c12_chain21", chain_21), ("c12_chain21x", chain_21x), ("c12_chain45", chain_45), ("c12_chain45x", chain_45x),
        ("c12_basis_3_4", basis_3_4), ("c12_basis_5_3", basis_5_3), ("c12_basis_3_5", basis_3_5),
        ("c13_2", pair2), ("c13_3", pair3), ("c13_4", pair4), ("c13_5", pair5), ("c13_6", pair6), ("c13_8", pair8), ("c13_x3", pairx3), ("c13_x4", pairx4),
        ("c13_bilin3", bilin3), ("c13_bilin4", bilin4)]
}
