use crate::discrete_log::*;
use crate::ecFESTA::*;
use crate::supersingular::*;
use crate::explore::Harness;
use crate::sym::*;
use num_bigint::BigUint;

type F = &'static [(u32, u32)];
fn prod(f: F) -> u32 { f.iter().fold(1, |m, (l, e)| m * l.pow(*e)) }
/// values x with x of order exactly m in Z/n
fn order_set(n: u32, m: u32) -> u128 {
    let ord = |x: u32| { let (mut a, mut b) = (x, n); while b != 0 { (a, b) = (b, a % b) } n / a };
    (0..n).filter(|&x| ord(x) == m).fold(0, |s, x| s | 1 << x)
}
fn below(n: u32) -> u128 { (1u128 << n) - 1 }
fn small(b: &BigUint) -> u32 { let mut d = b.iter_u32_digits(); let v = d.next().unwrap_or(0); if d.next().is_some() { panic!("result has more than 32 bits") } v }
/// factorisations of the divisors of n, chosen freely; for composite orders also listed the other way round
fn factors(n: u32) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let mut m = n;
    let mut l = 2;
    while m > 1 { let mut e = 0; while m % l == 0 { m /= l; e += 1 } if e > 0 { v.push((l, e)) } l += 1 }
    v
}
fn reset() { DRAWS.with(|d| d.set(0)); LISTED.with(|l| l.set(2)); MAXDRAW.with(|l| l.set(2)); }

// ---------------------------------------------------------------- C14
/// every generator, every exponent: one prime
fn bsgs_all() {
    let n = prime();
    let a = var("generator"); assume(a, order_set(n, n), true);
    let x = var("x");
    let r = bsgs(&Fq(a * x), &Fq(a), n);
    check("bsgs: result below the order", r < n);
    check_eq("bsgs: generator^result = element", a * cst(r as i64), a * x);
}
fn bsgs_one() {
    let n = prime();
    let x = var("x");
    let r = bsgs(&Fq(x), &Fq(cst(1)), n);
    check("bsgs: result below the order", r < n);
    check_eq("bsgs: exact exponent", x, cst(r as i64));
}
fn ph_power() {
    let n = prime();
    let f = factors(n);
    // sub-instance: element of order l^k in a group of order l^e
    let k = 1 + pick("exponent", f[0].1);
    let (l, m) = (f[0].0, f[0].0.pow(k));
    let a = var("alpha"); assume(a, order_set(n, m), true);
    let x = var("x"); assume(x, below(m), true);
    let r = small(&ph_dlp_power(&Fq(a * x), &Fq(a), l, k));
    check("prime power: result below the order", r < m);
    check_eq("prime power: exact exponent", x, cst(r as i64));
}
fn ph_product() {
    let n = prime();
    let mut f = factors(n);
    let rot = pick("rotation", f.len() as u32); f.rotate_left(rot as usize);
    if pick("drop", 2) == 1 && f.len() > 1 { f.pop(); }
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    let a = var("alpha"); assume(a, order_set(n, m), true);
    let x = var("x"); if m < n { assume(x, below(m), true); }
    let r = small(&ph_dlp(&Fq(a * x), &Fq(a), &f));
    check("product order: result below the order", r < m);
    check_eq("product order: exact exponent", x, cst(r as i64));
}
/// R = aP + bQ for a free basis P, Q (determinant a unit) of E[N]
fn bidlp_gen(f: &[(u32, u32)], P: Point, Q: Point, m: u32) {
    let n = prime();
    let E = Curve { id: 1 };
    let (a, b) = (var("a"), var("b"));
    if m < n { assume(a, below(m), true); assume(b, below(m), true); }
    let R = Point { a: P.a * a + Q.a * b, b: P.b * a + Q.b * b };
    let given = if pick("ePQ", 2) == 1 { Some(weil_pairing(&E, &P, &Q, &BigUint::from(m))) } else { None };
    let (ra, rb) = bidlp(&E, &R, &P, &Q, f, given);
    let (ra, rb) = (small(&ra), small(&rb));
    check("bidlp: coefficients below the order", ra < m && rb < m);
    check_eq("bidlp: a", a, cst(ra as i64));
    check_eq("bidlp: b", b, cst(rb as i64));
}
fn bidlp_std() {
    let n = prime();
    let f = factors(n);
    let i = pick("part", f.len() as u32 + 1) as usize;
    let f: Vec<_> = if i < f.len() { vec![f[i]] } else { f };
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    let c = cst((n / m) as i64);
    bidlp_gen(&f, Point { a: c, b: cst(0) }, Point { a: cst(0), b: c }, m)
}
fn bidlp_basis() {
    let n = prime();
    let f = factors(n);
    let (P, Q) = (Point { a: var("Pa"), b: var("Pb") }, Point { a: var("Qa"), b: var("Qb") });
    assume(P.a * Q.b - P.b * Q.a, order_set(n, n), true);
    bidlp_gen(&f, P, Q, n)
}

// ---------------------------------------------------------------- C15
fn sub_factors(n: u32) -> Vec<(u32, u32)> {
    let f = factors(n);
    let mut g = vec![];
    for (l, e) in f { let k = pick(&format!("e{l}"), e + 1); if k > 0 { g.push((l, k)) } }
    assume_that(!g.is_empty());
    let r = pick("rotation", g.len() as u32);
    g.rotate_left(r as usize);
    g
}
fn has_order(x: Fp, y: Fp, n: u32, m: u32, f: &[(u32, u32)]) -> bool {
    // order of (x,y) is exactly m
    let z = |k: u32| { let k = cst(k as i64); test(x * k, 1) && test(y * k, 1) };
    z(m) && f.iter().all(|(l, _)| !z(m / l))
}
fn order_point() {
    let n = prime();
    let f = sub_factors(n);
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    let P = Point { a: var("Pa"), b: var("Pb") };
    let got = point_has_factored_order(&Curve { id: 1 }, &P, &f);
    check("order test of points accepts exactly the points of the claimed order", got == has_order(P.a, P.b, n, m, &f));
}
fn order_field() {
    let n = prime();
    let f = sub_factors(n);
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    let v = var("v");
    let got = has_factored_order(Fq(v), &f);
    check("order test of field elements accepts exactly the elements of the claimed order", got == has_order(v, cst(0), n, m, &f));
}
fn clear() {
    let n = prime();
    let P = Point { a: var("Pa"), b: var("Pb") };
    let e = pick("even_power", 8);
    let odd = [1u64, 3, 5, 15, 35, 1001, 0xffff_fff1][pick("odd", 7) as usize];
    let k = (BigUint::from(odd) << e) << pick("more", 3);
    let r = clear_cofactor(&Curve { id: 1 }, &P, &k, e as usize);
    let kk = small(&(&k % BigUint::from(n)));
    check_eq("clear_cofactor multiplies by the cofactor (first coordinate)", r.a, P.a * cst(kk as i64));
    check_eq("clear_cofactor multiplies by the cofactor (second coordinate)", r.b, P.b * cst(kk as i64));
}
/// odd part of N, its sub-lists
fn odd_factors(n: u32) -> (Vec<(u32, u32)>, u32, usize) {
    let mut f = factors(n);
    assert!(f[0].0 == 2);
    let v2 = f.remove(0).1;
    if f.len() > 1 { let i = pick("part", f.len() as u32 + 1) as usize; if i < f.len() { f = vec![f[i]] } }
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    (f, m, v2 as usize)
}
fn gen_point() {
    reset();
    let n = prime();
    let (f, m, v2) = odd_factors(n);
    let E = Curve { id: 1 };
    let P = if pick("random", 2) == 1 { generate_random_point_order_factored_D(&E, &f, v2) } else { generate_point_order_factored_D(&E, &f, v2) };
    check("a generated point has exactly the requested order", has_order(P.a, P.b, n, m, &f));
}
/// when every candidate is a point whose order is the whole group's exponent, generation succeeds
fn gen_live() {
    reset();
    let n = prime();
    let (f, m, v2) = odd_factors(n);
    LISTED.with(|l| l.set(3));
    let E = Curve { id: 1 };
    for k in 0..3 { let p = listed(1, k); assume(p.a, order_set(n, n), true); }
    let P = match std::panic::catch_unwind(|| generate_point_order_factored_D(&E, &f, v2)) { Ok(p) => Some(p), Err(e) => if e.is::<Stop>() { None } else { std::panic::resume_unwind(e) } };
    check("generation accepts a candidate of full order", P.is_some());
}
fn basis() {
    reset();
    let n = prime();
    let (f, m, v2) = odd_factors(n);
    let E = Curve { id: 1 };
    let (P, Q) = torsion_basis(&E, &f, v2);
    check("first basis point has exactly the requested order", has_order(P.a, P.b, n, m, &f));
    check("second basis point has exactly the requested order", has_order(Q.a, Q.b, n, m, &f));
    // independence: uP + vQ = 0 only for u = v = 0 mod m, i.e. no l-multiple of the determinant vanishes
    let d = P.a * Q.b - P.b * Q.a;
    check("the basis points are independent", f.iter().all(|(l, _)| !test(d * cst((m / l) as i64), 1)));
}
fn basis_live() {
    reset();
    let n = prime();
    let (f, m, v2) = odd_factors(n);
    let E = Curve { id: 1 };
    let (P0, P1) = (listed(1, 0), listed(1, 1));
    assume(P0.a, order_set(n, n), true);
    assume(P0.a * P1.b - P0.b * P1.a, order_set(n, n), true);
    let r = match std::panic::catch_unwind(|| torsion_basis(&E, &f, v2)) { Ok(p) => Some(p), Err(e) => if e.is::<Stop>() { None } else { std::panic::resume_unwind(e) } };
    check("a basis is found when the first two candidates generate the torsion", r.is_some());
}
/// imP = u*(P + sQ), imQ = v*(P + sQ) generating the whole subgroup: s is recovered
fn canonical(free: bool) {
    reset();
    let n = prime();
    let mut f = factors(n);
    if f[0].0 == 2 { f.remove(0); }
    let r = pick("rotation", f.len() as u32); f.rotate_left(r as usize);
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    let c = cst((n / m) as i64);
    let E = Curve { id: 1 };
    let (P, Q) = if free {
        let (P, Q) = (Point { a: c * var("Pa"), b: c * var("Pb") }, Point { a: c * var("Qa"), b: c * var("Qb") });
        assume(P.a * Q.b - P.b * Q.a, order_set(n, m), true);
        (P, Q)
    } else { (Point { a: c, b: cst(0) }, Point { a: cst(0), b: c }) };
    let (s, u, v) = (var("s"), var("u"), var("v"));
    for x in [s, u, v] { if m < n { assume(x, below(m), true); } }
    // u, v generate Z/m together
    for (l, _) in &f { let l = *l; let ml: u128 = (0..n).filter(|x| x % l == 0).fold(0, |s, x| s | 1 << x); if test(u, ml) { assume(v, ml, false); } }
    let K = Point { a: P.a + s * Q.a, b: P.b + s * Q.b };
    let (i1, i2) = (Point { a: u * K.a, b: u * K.b }, Point { a: v * K.a, b: v * K.b });
    let r = small(&compute_canonical_kernel(&E, &i1, &i2, &f, Some((P, Q))));
    check("canonical kernel: result below the order", r < m);
    check_eq("canonical kernel: <imP, imQ> = <P + sQ>", s, cst(r as i64));
}
fn canonical_std() { canonical(false) }
fn canonical_free() { canonical(true) }
/// without a basis argument the generated one is used
fn canonical_nobasis() {
    reset();
    let n = prime();
    let (mut f, _, v2) = { let mut f = factors(n); let v2 = f.remove(0).1; (f, 0, v2 as usize) };
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    let E = Curve { id: 1 };
    let (P, Q) = torsion_basis(&E, &f, v2);
    let s = var("s"); assume(s, below(m), true);
    let K = Point { a: P.a + s * Q.a, b: P.b + s * Q.b };
    let r = small(&compute_canonical_kernel(&E, &K, &Point::INFINITY, &f, None));
    check_eq("canonical kernel with the generated basis", s, cst(r as i64));
}
fn iso_from_scalar() {
    reset();
    let n = prime();
    let (f, m, v2) = odd_factors(n);
    let E = Curve { id: 1 };
    let s = pick("m", m.min(8));
    let given = pick("basis", 2) == 1;
    let (P, Q) = if given { (Point { a: var("Pa"), b: var("Pb") }, Point { a: var("Qa"), b: var("Qb") }) } else { torsion_basis(&E, &f, v2) };
    let (phi, cod) = isogeny_from_scalar_x_only(&E, &f, &BigUint::from(s), if given { Some((P, Q)) } else { None });
    check("isogeny from scalar: one chain of the whole degree from the given curve", phi.len() == 2 && phi[0].domain == 1 && phi[0].degree == m);
    check_eq("isogeny from scalar: kernel P + mQ (first coordinate)", phi[0].kernel.a, P.a + Q.a * cst(s as i64));
    check_eq("isogeny from scalar: kernel P + mQ (second coordinate)", phi[0].kernel.b, P.b + Q.b * cst(s as i64));
    check("isogeny from scalar: codomain of the last step", cod.id == 12);
}
fn iso_random() {
    reset();
    let n = prime();
    let (f, m, _) = odd_factors(n);
    let steps = 1 + pick("steps", 2) as usize;
    let E = Curve { id: 1 };
    let (phi, cod) = random_isogeny_x_only(&E, &f, steps);
    check("random isogeny: all steps are returned", phi.len() == 2 * steps);
    let mut id = 1;
    for i in 0..steps {
        let k = phi[2 * i];
        check("random isogeny: every step starts where the previous one ended", k.domain == id && phi[2 * i + 1].domain == id * 10 + 1);
        check("random isogeny: every step has the requested degree", k.degree == m);
        check("random isogeny: every kernel has exactly the requested order", has_order(k.kernel.a, k.kernel.b, n, m, &f));
        id = id * 10 + 2;
    }
    check("random isogeny: codomain of the last step", cod.id == id);
}

pub fn list() -> Vec<(&'static str, Harness)> {
    vec![("bsgs", bsgs_all), ("bsgs_one", bsgs_one), ("ph_power", ph_power), ("ph_product", ph_product), ("bidlp_std", bidlp_std), ("bidlp_basis", bidlp_basis),
         ("order_point", order_point), ("order_field", order_field), ("clear", clear), ("gen_point", gen_point), ("gen_live", gen_live), ("basis", basis), ("basis_live", basis_live),
         ("canonical_std", canonical_std), ("canonical_free", canonical_free), ("canonical_nobasis", canonical_nobasis),
         ("iso_from_scalar", iso_from_scalar), ("iso_random", iso_random)]
}
