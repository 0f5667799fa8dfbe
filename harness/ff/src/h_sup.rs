//! supersingular.rs over the real curve and field code, small primes
use crate::ecFESTA::{Curve, Fq, Point};
use crate::explore::Harness;
use crate::spec::*;
use crate::supersingular::*;
use crate::sym::*;
use num_bigint::BigUint;
use std::collections::HashMap;
use std::sync::Mutex;

/// supersingular Montgomery coefficients A in GF(p^2) with (p+1)^2 points
pub fn curves(p: u32) -> Vec<(u32, u32)> {
    static C: Mutex<Option<HashMap<u32, Vec<(u32, u32)>>>> = Mutex::new(None);
    let mut g = C.lock().unwrap();
    g.get_or_insert_with(HashMap::new).entry(p).or_insert_with(|| {
        let (q, pp) = (p * p, p as u64);
        let mul = |a: (u64, u64), b: (u64, u64)| ((a.0 * b.0 + pp * pp - a.1 * b.1) % pp, (a.0 * b.1 + a.1 * b.0) % pp);
        let el = |i: u32| ((i % p) as u64, (i / p) as u64);
        let mut sq = vec![0i32; q as usize];
        for i in 1..q { let s = mul(el(i), el(i)); sq[(s.0 + pp * s.1) as usize] = 1; }
        let mut out = vec![];
        for a in 0..q {
            let A = el(a);
            let a2 = mul(A, A);
            if a2 == (4 % pp, 0) { continue; }
            let mut n = 1;
            for x in 0..q {
                let X = el(x);
                let t = (X.0 + A.0, X.1 + A.1);
                let t = mul((t.0 % pp, t.1 % pp), X);
                let t = mul(((t.0 + 1) % pp, t.1), X);
                n += if t == (0, 0) { 1 } else if sq[(t.0 + pp * t.1) as usize] == 1 { 2 } else { 0 };
            }
            if n == (p + 1) * (p + 1) { out.push((A.0 as u32, A.1 as u32)); }
        }
        out
    }).clone()
}
/// any supersingular curve of the field (one variable: its number in the list)
pub fn curve() -> (G, Curve) {
    let c = curves(prime());
    let k = var("curve");
    assume(k, (1u128 << c.len()) - 1, true);
    let A = G(lookup(k, &c.iter().map(|x| x.0).collect::<Vec<_>>()), lookup(k, &c.iter().map(|x| x.1).collect::<Vec<_>>()));
    (A, Curve::new(&A.fq()))
}
fn coords(P: &Point) -> (G, G, G) { let (x, y, z) = P.to_xyz(); (G::of(&x), G::of(&y), G::of(&z)) }
fn check_on_curve(name: &str, A: G, P: &Point) {
    let (x, y, z) = coords(P);
    veq(name, y.sq() * z, x * x.sq() + A * x.sq() * z + x * z.sq());
}
/// affine arithmetic of the specification: None = infinity
type A2 = Option<(G, G)>;
fn aff(P: &Point) -> A2 { let (x, y, z) = coords(P); if z.is0() { None } else { let i = z.inv(); Some((x * i, y * i)) } }
fn add(A: G, p: A2, q: A2) -> A2 {
    match (p, q) {
        (None, r) | (r, None) => r,
        (Some((x1, y1)), Some((x2, y2))) => {
            let l = if x1.eq(x2) {
                if (y1 + y2).is0() { return None; }
                (G::c(3) * x1.sq() + G::c(2) * A * x1 + G::c(1)).div(G::c(2) * y1)
            } else { (y2 - y1).div(x2 - x1) };
            let x = l.sq() - A - x1 - x2;
            Some((x, l * (x1 - x) - y1))
        }
    }
}
fn mul(A: G, mut k: u32, mut p: A2) -> A2 { let mut r = None; while k > 0 { if k & 1 == 1 { r = add(A, r, p) } p = add(A, p, p); k >>= 1 } r }
fn factor(mut n: u32) -> Vec<(u32, u32)> { let mut v = vec![]; let mut l = 2; while n > 1 { let mut e = 0; while n % l == 0 { n /= l; e += 1 } if e > 0 { v.push((l, e)) } l += 1 } v }
fn exact(A: G, p: A2, m: u32) -> bool { mul(A, m, p).is_none() && factor(m).iter().all(|(l, _)| mul(A, m / l, p).is_some()) }
/// P, Q independent of order m: no [m/l](uP + vQ) vanishes
fn independent(A: G, p: A2, q: A2, m: u32) -> bool {
    factor(m).iter().all(|&(l, _)| {
        let (p, q) = (mul(A, m / l, p), mul(A, m / l, q));
        // <p> and <q> of prime order l meet trivially
        let mut r = None;
        q.is_some() && (0..l).all(|_| { r = add(A, r, p); match (r, q) { (Some((x, _)), Some((u, _))) => !x.eq(u), _ => true } })
    })
}
fn pw(mut b: Fp, mut e: u64) -> Fp { let mut r = cst(1); while e > 0 { if e & 1 == 1 { r = r * b } b = b * b; e >>= 1; } r }
/// x is a square (zero included) of GF(p^2), by the norm
fn is_sq(x: G) -> bool { let n = pw(x.norm(), (prime() as u64 - 1) / 2); !test(n + cst(1), 1) }
/// the search of the code may give up after r = 30 (a documented limit); then no such r may lead to a point
fn entangled(A: G, E: &Curve, cof: u32) -> (Point, Point) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entangled_torsion_basis(E, &BigUint::from(cof)))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
            if !m.contains("Never found") { std::panic::resume_unwind(e) }
            let a = is_sq(A);
            let u = G(cst(0), cst(2));
            for r in 1..=30i64 {
                let v = (G::c(1) + u * G::c(r * r)).inv();
                if is_sq(v) == a { continue; }
                let x = -(A * v);
                check("the search finds a point if there is one in its range", !is_sq(x * (x.sq() + A * x + G::c(1))));
            }
            assume_that(false);
            unreachable!()
        }
    }
}
/// S1, S2 lie on every curve for which the table search succeeds, whatever its order
fn sup_entangled_on_curve() {
    let A = gvar("A");
    assume_g_nz(A);
    let d = A.sq() - G::c(4); assume_g_nz(d);
    let E = Curve::new(&A.fq());
    let (P, Q) = entangled(A, &E, 1);
    check_on_curve("first entangled point is on the curve", A, &P);
    check_on_curve("second entangled point is on the curve", A, &Q);
}
fn sup_entangled() {
    let (A, E) = curve();
    assume_g_nz(A);
    let n = prime() + 1;
    let v = n.trailing_zeros();
    let (P, Q) = entangled(A, &E, n >> v);
    check_on_curve("first entangled point is on the curve", A, &P);
    check_on_curve("second entangled point is on the curve", A, &Q);
    let (p, q) = (aff(&P), aff(&Q));
    check("first entangled point has the full two-power order", exact(A, p, 1 << v));
    check("second entangled point has the full two-power order", exact(A, q, 1 << v));
    check("the entangled points are independent", independent(A, p, q, 1 << v));
}
fn odd() -> (Vec<(u32, u32)>, u32, usize) {
    let n = prime() + 1;
    let mut f = factor(n);
    let v = f.remove(0).1 as usize;
    let i = if f.len() > 1 { pick("part", f.len() as u32 + 1) as usize } else { f.len() };
    if i < f.len() { f = vec![f[i]] }
    let m = f.iter().fold(1, |m, (l, e)| m * l.pow(*e));
    (f, m, v)
}
fn sup_basis() {
    let (A, E) = curve();
    let (f, m, v) = odd();
    let (P, Q) = torsion_basis(&E, &f, v);
    check_on_curve("first basis point is on the curve", A, &P);
    check_on_curve("second basis point is on the curve", A, &Q);
    let (p, q) = (aff(&P), aff(&Q));
    check("first basis point has exactly the requested order", exact(A, p, m));
    check("second basis point has exactly the requested order", exact(A, q, m));
    check("the basis points are independent", independent(A, p, q, m));
}
/// bidlp and the canonical kernel on a real curve: R = aP + bQ
fn sup_bidlp() {
    let (A, E) = curve();
    let (f, m, v) = odd();
    let (P, Q) = torsion_basis(&E, &f, v);
    let (a, b) = (pick("a", m), pick("b", m));
    let R = E.add(&E.mul_small(&P, a as u64), &E.mul_small(&Q, b as u64));
    let (ra, rb) = crate::discrete_log::bidlp(&E, &R, &P, &Q, &f, None);
    check("coefficients with respect to a torsion basis", ra == BigUint::from(a) && rb == BigUint::from(b));
}
fn sup_kernel() {
    let (A, E) = curve();
    let (f, m, v) = odd();
    let (P, Q) = torsion_basis(&E, &f, v);
    let (s, u) = (pick("s", m), 1 + pick("u", 2));
    let K = E.add(&P, &E.mul_small(&Q, s as u64));
    assume_that(m % 2 == 1);
    let r = compute_canonical_kernel(&E, &E.mul_small(&K, u as u64), &K, &f, if pick("given", 2) == 0 { Some((P, Q)) } else { Some((P, Q)) });
    check("canonical kernel on a real curve", r == BigUint::from(s));
}
pub fn list() -> Vec<(&'static str, Harness)> {
    vec![("sup_entangled_on_curve", sup_entangled_on_curve), ("sup_entangled", sup_entangled), ("sup_basis", sup_basis), ("sup_bidlp", sup_bidlp), ("sup_kernel", sup_kernel)]
}
