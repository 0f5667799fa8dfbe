//! serialisation of keys and ciphertexts (festa.rs) over the real curve and field code
use crate::ecFESTA::{Curve, Fq, Point};
use crate::explore::Harness;
use crate::festa::*;
use crate::spec::*;
use crate::sym::*;
use num_bigint::BigUint;


/// field number i: free (both coordinates, any value) or a constant of its own
fn field(i: usize, free: usize) -> G { if free == i { gvar("f") } else { G(cst(i as i64 + 1), cst(3 * i as i64 + 2)) } }
/// coefficient of a nonsingular curve
fn coef(i: usize, free: usize) -> G { let A = field(i, free); assume_g_nz(A.sq() - G::c(4)); A }
/// affine point (fields i, i+1) in an arbitrary projective form; no curve equation is assumed
fn point(E: &Curve, i: usize, free: usize) -> (Point, G, G) {
    let (x, y) = (field(i, free), field(i + 1, free));
    let Z = if pick(&format!("projective{i}"), 2) == 1 && (free == i || free == i + 1) { let Z = gvar("z"); assume_g_nz(Z); Z } else { G::c(2) };
    (E.point_xyz_nocheck(&(x * Z).fq(), &(y * Z).fq(), &Z.fq()), x, y)
}
fn same_point(name: &str, P: &Point, x: G, y: G) {
    let (X, Y, Z) = P.to_xyz();
    let (X, Y, Z) = (G::of(&X), G::of(&Y), G::of(&Z));
    check(&format!("{name}: finite"), !Z.is0());
    veq(&format!("{name}: x"), X, x * Z);
    veq(&format!("{name}: y"), Y, y * Z);
}
fn scalar(name: &str, full: bool) -> BigUint {
    // every byte length a scalar below 2^656 can have, with zero, one and all-ones patterns
    let pats = if full { 83 * 4 } else { 3 };
    let k = pick(name, pats);
    if !full { return [BigUint::from(0u32), BigUint::from(0x0102_0304_0506u64), (BigUint::from(1u32) << 634u32) - 1u32][k as usize].clone(); }
    let (len, pat) = (k / 4, k % 4);
    let mut b = vec![0u8; len as usize];
    for (i, x) in b.iter_mut().enumerate() { *x = match pat { 0 => (i as u8).wrapping_mul(37) | 1, 1 => 0xff, 2 => 0, _ => if i % 2 == 0 { 0 } else { 0x80 } } }
    if let Some(t) = b.last_mut() { if *t == 0 { *t = if pat == 2 { 1 } else { 0x40 } } }
    BigUint::from_bytes_le(&b)
}
fn key(free: usize, a: BigUint, d: BigUint) {
    let A = coef(0, free);
    let E = Curve::new(&A.fq());
    let (p1, x1, y1) = point(&E, 1, free);
    let (p2, x2, y2) = point(&E, 3, free);
    let (p3, x3, y3) = point(&E, 5, free);
    let (p4, x4, y4) = point(&E, 7, free);
    let sk = SecretKey::new(&E, &(p1, p2), &(p3, p4), &(a.clone(), d.clone()));
    let bytes = sk.encode();
    check("secret key: length", bytes.len() == 9 * Fq::ENCODED_LENGTH + 164);
    let (E2, (q1, q2), (q3, q4), (a2, d2)) = SecretKey::decode(&bytes).extract();
    veq("secret key: curve", G::of(&E2.get_constant()), A);
    same_point("secret key: first d1-point", &q1, x1, y1);
    same_point("secret key: second d1-point", &q2, x2, y2);
    same_point("secret key: first d2-point", &q3, x3, y3);
    same_point("secret key: second d2-point", &q4, x4, y4);
    check("secret key: first scalar", a2 == a);
    check("secret key: second scalar", d2 == d);
    let again = SecretKey::decode(&bytes).encode();
    check("secret key: encoding the decoded key gives the same length", again.len() == bytes.len());
}
fn c18_key() { let f = pick("field", 9) as usize; let s = scalar("a11", false); let o = if s == BigUint::from(0u32) { (BigUint::from(1u32) << 634u32) - 1u32 } else { BigUint::from(77u32) }; key(f, s, o) }
fn c18_scalars() { let w = pick("which", 2); let s = scalar("scalar", true); let o = scalar("other", false); if w == 0 { key(99, s, o) } else { key(99, o, s) } }
fn c18_output() {
    let free = pick("field", 10) as usize;
    let (A1, A2) = (coef(0, free), coef(5, free));
    let (E1, E2) = (Curve::new(&A1.fq()), Curve::new(&A2.fq()));
    let (p1, x1, y1) = point(&E1, 1, free);
    let (p2, x2, y2) = point(&E1, 3, free);
    let (p3, x3, y3) = point(&E2, 6, free);
    let (p4, x4, y4) = point(&E2, 8, free);
    let bytes = TrapdoorOutput::new(&E1, &p1, &p2, &E2, &p3, &p4).encode();
    check("trapdoor output: length", bytes.len() == 10 * Fq::ENCODED_LENGTH);
    let (F1, q1, q2, F2, q3, q4) = TrapdoorOutput::decode(&bytes).extract();
    veq("trapdoor output: first curve", G::of(&F1.get_constant()), A1);
    veq("trapdoor output: second curve", G::of(&F2.get_constant()), A2);
    same_point("trapdoor output: R1", &q1, x1, y1);
    same_point("trapdoor output: S1", &q2, x2, y2);
    same_point("trapdoor output: R2", &q3, x3, y3);
    same_point("trapdoor output: S2", &q4, x4, y4);
}
pub fn list() -> Vec<(&'static str, Harness)> { vec![("c18_key", c18_key), ("c18_scalars", c18_scalars), ("c18_output", c18_output)] }
