//! C08-C11: elliptic curves, over symbolic field elements.  Reference: affine chord-and-tangent law.
use crate::ecFESTA::*;
use crate::explore::Harness;
use crate::spec::*;
use crate::sym::*;
use num_bigint::BigUint;

pub type Aff = Option<(G, G)>;
pub const ON: u32 = !0;
pub fn boolword(name: &str, w: u32) -> bool { check(name, w == 0 || w == ON); w == ON }

pub fn curve(A: G) -> Curve {
    assume_g_nz(A - G::c(2));
    assume_g_nz(A + G::c(2));
    Curve::new(&A.fq())
}
pub fn rhs(A: G, x: G) -> G { x * x * x + A * x * x + x }
pub fn mkpt(x: G, y: G, z: G) -> Point {
    let E = Curve::new(&G::c(0).fq());
    E.point_xyz_nocheck(&x.fq(), &y.fq(), &z.fq())
}
/// arbitrary projective representation of an arbitrary point with coordinates in the base field;
/// infinity is (x : y : 0) with arbitrary x, y
pub fn point(A: G, n: &str) -> (Point, Aff) {
    let z = rvar(&format!("{n}z"));
    let x = rvar(&format!("{n}x"));
    let y = rvar(&format!("{n}y"));
    if z.is0() { return (mkpt(x, y, z), None); }
    assume_g_eq(y * y, rhs(A, x));
    (mkpt(x * z, y * z, z), Some((x, y)))
}
/// affine point (Z = 1), not infinity
pub fn affpoint(A: G, n: &str) -> (Point, Aff) {
    let x = rvar(&format!("{n}x"));
    let y = rvar(&format!("{n}y"));
    assume_g_eq(y * y, rhs(A, x));
    (mkpt(x, y, G::c(1)), Some((x, y)))
}
/// the same with both coordinates in the quadratic extension
pub fn gpoint(A: G, n: &str) -> (Point, Aff) {
    let x = gvar(&format!("{n}x"));
    let y = gvar(&format!("{n}y"));
    assume_g_eq(y * y, rhs(A, x));
    (mkpt(x, y, G::c(1)), Some((x, y)))
}
pub fn radd(A: G, p: Aff, q: Aff) -> Aff {
    match (p, q) {
        (None, q) => q,
        (p, None) => p,
        (Some((x1, y1)), Some((x2, y2))) => {
            let l = if x1.eq(x2) {
                if !y1.eq(y2) || y1.is0() { return None; }
                (G::c(3) * x1 * x1 + G::c(2) * A * x1 + G::c(1)) * (y1 + y1).inv()
            } else { (y2 - y1) * (x2 - x1).inv() };
            let x3 = l * l - A - x1 - x2;
            Some((x3, l * (x1 - x3) - y1))
        }
    }
}
pub fn rneg(p: Aff) -> Aff { p.map(|(x, y)| (x, -y)) }
pub fn rmul(A: G, p: Aff, n: u64) -> Aff {
    let mut r = None;
    for i in (0..64 - n.leading_zeros()).rev() {
        r = radd(A, r, r);
        if n >> i & 1 == 1 { r = radd(A, r, p); }
    }
    r
}
pub fn coords(R: &Point) -> (G, G, G) { let (X, Y, Z) = R.to_xyz(); (G::of(&X), G::of(&Y), G::of(&Z)) }
pub fn chk_nz(name: &str, x: G) { check_nonzero(name, if conc(x.1) == Some(0) { x.0 } else { x.norm() }) }
/// R (projective, from the code) represents the affine point a
pub fn same(name: &str, R: &Point, a: Aff) {
    let (X, Y, Z) = coords(R);
    match a {
        None => veq(name, Z, G::c(0)),
        Some((x, y)) => { chk_nz(name, Z); veq(name, X, x * Z); veq(name, Y, y * Z); }
    }
}
/// two projective triples represent the same point
pub fn samept(name: &str, R: &Point, S: &Point) {
    let (a, b, c) = coords(R);
    let (d, e, f) = coords(S);
    check_eq(name, a.0, a.0);
    if c.is0() { veq(name, f, G::c(0)); } else { chk_nz(name, f); veq(name, a * f, d * c); veq(name, b * f, e * c); }
}
pub fn samex(name: &str, X: G, Z: G, a: Aff) {
    match a { None => { veq(name, Z, G::c(0)); chk_nz(name, X) } Some((x, _)) => { chk_nz(name, Z); veq(name, X, x * Z) } }
}

fn ptpair() -> (G, Curve, Point, Aff, Point, Aff) {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    let (Q, q) = point(A, "Q");
    (A, E, P, p, Q, q)
}
fn add() {
    let (A, E, P, p, Q, q) = ptpair();
    let R = E.add(&P, &Q);
    let s = radd(A, p, q);
    same("add", &R, s);
    let mut T = Point::INFINITY; E.add_into(&mut T, &P, &Q); same("add_into", &T, s);
    let mut T = P; E.addto(&mut T, &Q); same("addto", &T, s);
}
fn sub() {
    let (A, E, P, p, Q, q) = ptpair();
    let s = radd(A, p, rneg(q));
    same("sub", &E.sub(&P, &Q), s);
    let mut T = Point::INFINITY; E.sub_into(&mut T, &P, &Q); same("sub_into", &T, s);
    let mut T = P; E.subfrom(&mut T, &Q); same("subfrom", &T, s);
}
fn self_add() {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    same("P+P", &E.add(&P, &P), radd(A, p, p));
    same("P-P", &E.sub(&P, &P), None);
    same("P+(-P)", &E.add(&P, &-P), None);
    same("P+O", &E.add(&P, &Point::INFINITY), p);
    same("O+P", &E.add(&Point::INFINITY, &P), p);
}
fn dbl() {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    let d = radd(A, p, p);
    same("2P", &E.double(&P), d);
    let mut T = Point::INFINITY; E.double_into(&mut T, &P); same("double_into", &T, d);
    let mut T = P; E.double_self(&mut T); same("double_self", &T, d);
    let (X, Y, Z) = coords(&P);
    let (X, Y, Z) = E.double_from_coords(&X.fq(), &Y.fq(), &Z.fq());
    same("double_from_coords", &E.point_xyz_nocheck(&X, &Y, &Z), d);
}
fn dbl_iter() {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    let n = pick("n", 4);
    let mut d = p;
    for _ in 0..n { d = radd(A, d, d); }
    same("2^n P", &E.double_iter(&P, n as usize), d);
}
fn neg_eq() {
    let A = rvar("A");
    let (P, p) = point(A, "P");
    let (Q, q) = point(A, "Q");
    same("neg", &-P, rneg(p));
    same("neg &", &-&P, rneg(p));
    let mut T = P; T.set_neg(); same("set_neg", &T, rneg(p));
    let c = if pick("c", 2) == 1 { ON } else { 0 };
    let mut T = P; T.set_condneg(c); same("set_condneg", &T, if c == ON { rneg(p) } else { p });
    let mut T = P; T.set_cond(&Q, c); same("set_cond", &T, if c == ON { q } else { p });
    let i = boolword("isinfinity", P.isinfinity());
    check("isinfinity", i == p.is_none());
    let (x, y) = P.to_xy();
    let o = P.to_xy_vartime();
    check("to_xy_vartime", o.is_none() == p.is_none());
    if let Some((px, py)) = p {
        veq("to_xy", G::of(&x), px); veq("to_xy", G::of(&y), py);
        let (x, y) = o.unwrap();
        veq("to_xy_vartime", G::of(&x), px); veq("to_xy_vartime", G::of(&y), py);
    } else { veq("to_xy", G::of(&x), G::c(0)); veq("to_xy", G::of(&y), G::c(0)); }
    let e = boolword("equals", P.equals(&Q));
    match (p, q) {
        (None, None) => check("O=O", e),
        (Some((a, b)), Some((c, d))) => if e { veq("equals", a, c); veq("equals", b, d) } else { check_nonzero("not equals", (a - c).norm() + (b - d).norm()) },
        _ => check("O!=P", !e),
    }
    let (x, z) = P.to_xz();
    let (a, _, c) = coords(&P);
    veq("to_xz", G::of(&x), a); veq("to_xz", G::of(&z), c);
}
fn product() {
    let (A, B) = (rvar("A"), rvar("B"));
    let (E1, E2) = (curve(A), curve(B));
    let (P, p) = point(A, "P");
    let (Q, q) = point(B, "Q");
    let E = EllipticProduct::new(&E1, &E2);
    let (c1, c2) = E.curves();
    veq("curves", G::of(&c1.get_constant()), A); veq("curves", G::of(&c2.get_constant()), B);
    let C = CouplePoint::new(&P, &Q);
    let (a, b) = C.points();
    samept("points", &a, &P); samept("points", &b, &Q);
    let O = CouplePoint::INFINITY.points();
    same("couple infinity", &O.0, None); same("couple infinity", &O.1, None);
    let (a, b) = E.double(&C).points();
    samept("product double", &a, &E1.double(&P)); samept("product double", &b, &E2.double(&Q));
    let n = pick("n", 3) as usize;
    let (a, b) = E.double_iter(&C, n).points();
    samept("product double_iter", &a, &E1.double_iter(&P, n)); samept("product double_iter", &b, &E2.double_iter(&Q, n));
}
fn product_add() {
    let (A, B) = (rvar("A"), G::c(if prime() == 7 { 1 } else { 3 }));
    let (E1, E2) = (curve(A), curve(B));
    let swap = pick("swap", 2) == 1;
    let (P, p) = affpoint(A, "P");
    let (Q, q) = affpoint(A, "Q");
    let (R, r) = affpoint(B, "R");
    let (a, b) = if swap {
        let (a, b) = EllipticProduct::new(&E2, &E1).add(&CouplePoint::new(&R, &P), &CouplePoint::new(&R, &Q)).points(); (b, a)
    } else { EllipticProduct::new(&E1, &E2).add(&CouplePoint::new(&P, &R), &CouplePoint::new(&Q, &R)).points() };
    same("product add", &a, radd(A, p, q));
    same("product add", &b, radd(B, r, r));
}

// ---- C09 ---------------------------------------------------------------------------------------
/// every scalar below 2^5 (quick) with every bit length, junk above the length
fn mul_range(lo: u32, n: u32, bits: &[usize]) {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    let k = (lo + pick("k", n)) as u64;
    let bl = bits[pick("bl", bits.len() as u32) as usize];
    let want = rmul(A, p, k & if bl == 64 { !0 } else { (1 << bl) - 1 });
    let junk = if bl == 64 { 0 } else { 0xA5C3_96E1_F00F_5A3Du64 << bl };
    let low = k & if bl == 64 { !0 } else { (1 << bl) - 1 };
    let nb = (low | junk).to_le_bytes();
    same("mul", &E.mul(&P, &nb, bl), want);
    let mut T = Point::INFINITY; E.mul_into(&mut T, &P, &nb, bl); same("mul_into", &T, want);
}
fn mul_short() { mul_range(0, 32, &[5]) }
fn mul_exact() { mul_range(0, 8, &[0, 1, 2, 3]) }
fn mul_long() { mul_range(0, 16, &[22, 64]) }
fn mul_21() { mul_range(0, 8, &[8, 9, 20, 21]) }
fn mul_apis() {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    let k = pick("k", 18) as u64;
    let want = rmul(A, p, k);
    same("mul_small", &E.mul_small(&P, k), want);
    let mut T = Point::INFINITY; E.mul_small_into(&mut T, &P, k); same("mul_small_into", &T, want);
    same("mul_big", &E.mul_big(&P, &BigUint::from(k)), want);
}
const BIG: [u64; 6] = [1 << 21, (1 << 22) - 1, (1 << 22) + 1, 0x155555, 0x2aaaaa, 0xffff_ffff];
/// large scalars on an affine point with fixed small curves
fn mul_bigk() {
    let A = G::c([0, 1, 3, 6][pick("Ai", 4) as usize]);
    assume_g_nz(A - G::c(2)); assume_g_nz(A + G::c(2));
    let E = curve(A);
    let (P, p) = point(A, "P");
    let k = BIG[pick("k", 6) as usize];
    let want = rmul(A, p, k);
    same("mul_small big", &E.mul_small(&P, k), want);
    same("mul_big big", &E.mul_big(&P, &BigUint::from(k)), want);
}
/// scalars wider than a machine word: the point lies on a fixed curve whose group order is known
fn mul_wide() {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = affpoint(A, "P");
    // 2^64 * k by repeated doubling of the reference
    let k = 1 + pick("k", 5) as u64;
    let mut want = rmul(A, p, k);
    for _ in 0..64 { want = radd(A, want, want); }
    same("mul_big 2^64 k", &E.mul_big(&P, &(BigUint::from(k) << 64)), want);
}
fn xdbl() {
    let A = rvar("A");
    let E = curve(A);
    let (P, p) = point(A, "P");
    if p.is_none() { return; }
    let (X, _, Z) = coords(&P);
    let (x, z) = E.x_dbl_coords(&X.fq(), &Z.fq());
    samex("x_dbl", G::of(&x), G::of(&z), radd(A, p, p));
}

// ---- C10 ---------------------------------------------------------------------------------------
fn accept(A: G, x: G, y: G, z: G) {
    let E = curve(A);
    // affine
    let ok = boolword("set_xy word", { let mut P = Point::INFINITY; E.set_xy(&mut P, &x.fq(), &y.fq()) });
    let mut P = Point::INFINITY;
    E.set_xy(&mut P, &x.fq(), &y.fq());
    let d = y * y - rhs(A, x);
    let o = E.point_xy_vartime(&x.fq(), &y.fq());
    check("point_xy_vartime", o.is_some() == ok);
    let Q = E.point_xy_nocheck(&x.fq(), &y.fq());
    same("point_xy_nocheck", &Q, Some((x, y)));
    let mut T = Point::INFINITY; E.set_xy_nocheck(&mut T, &x.fq(), &y.fq()); same("set_xy_nocheck", &T, Some((x, y)));
    same("new_xy", &Point::new_xy(&x.fq(), &y.fq()), Some((x, y)));
    check("on_curve", E.on_curve(&Q) == ok);
    if ok { veq("set_xy accepts", d, G::c(0)); same("set_xy", &P, Some((x, y))); same("point_xy", &o.unwrap(), Some((x, y))) }
    else { chk_nz("set_xy rejects", d); same("set_xy rejected", &P, None) }
    // projective
    let mut P = Point::INFINITY;
    let ok = boolword("set_xyz word", E.set_xyz(&mut P, &x.fq(), &y.fq(), &z.fq()));
    let o = E.point_xyz_vartime(&x.fq(), &y.fq(), &z.fq());
    check("point_xyz_vartime", o.is_some() == ok);
    let Q = E.point_xyz_nocheck(&x.fq(), &y.fq(), &z.fq());
    let mut T = Point::INFINITY; E.set_xyz_nocheck(&mut T, &x.fq(), &y.fq(), &z.fq()); samept("set_xyz_nocheck", &T, &Q);
    check("on_curve proj", E.on_curve(&Q) == ok);
    if z.is0() {
        check("z=0 accepted", ok); same("z=0", &P, None); same("z=0", &o.unwrap(), None);
    } else {
        let d = y * y * z - (x * x * x + A * x * x * z + x * z * z);
        if ok { veq("set_xyz accepts", d, G::c(0)); samept("set_xyz", &P, &Q); samept("point_xyz", &o.unwrap(), &Q) }
        else { chk_nz("set_xyz rejects", d); same("set_xyz rejected", &P, None) }
    }
}
fn accept_sub() { accept(rvar("A"), rvar("x"), rvar("y"), rvar("z")) }
fn accept_ext() { let A = rvar("A"); let z = pick("z", 3); let (x, y) = (gvar("x"), gvar("y")); accept(A, x, y, [G::c(1), G::c(0), G(cst(2), cst(1))][z as usize]) }
fn lift() {
    let A = G(var("A"), cst(pick("A1", 2) as i64));
    let E = curve(A);
    let x = gvar("x");
    let z = match pick("zk", 4) { 0 => G::c(1), 1 => G::c(0), 2 => G(cst(1), cst(2)), _ => rvar("z") };
    let (P, ok) = E.complete_pointX(&PointX::new_xz(&(x * z).fq(), &z.fq()));
    let ok = boolword("complete word", ok);
    let (gx, gz) = PointX::new_xz(&x.fq(), &z.fq()).get_xz();
    veq("get_xz", G::of(&gx), x); veq("get_xz", G::of(&gz), z);
    if z.is0() { check("complete infinity ok", ok); same("complete infinity", &P, None); return; }
    let f = rhs(A, x);
    let p = prime() as u64;
    if ok {
        let (X, Y, Z) = coords(&P);
        chk_nz("complete z", Z);
        veq("complete x", X, x * Z);
        veq("complete on curve", Y * Y * Z, X * X * X + A * X * X * Z + X * Z * Z);
    } else {
        same("complete failed", &P, None);
        veq("complete none", f.pow((p * p - 1) / 2), G::c(-1));
    }
}
struct SignRng(u32);
impl rand_core::RngCore for SignRng {
    fn next_u32(&mut self) -> u32 { self.0 }
    fn next_u64(&mut self) -> u64 { self.0 as u64 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(self.0 as u8) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for SignRng {}
fn oncurve(name: &str, A: G, P: &Point) {
    let (X, Y, Z) = coords(P);
    chk_nz(name, Z);
    veq(name, Y * Y * Z, X * X * X + A * X * X * Z + X * Z * Z);
}
fn random() {
    let A = G(var("A"), cst(pick("A1", 2) as i64));
    let E = curve(A);
    let s = pick("sign", 2);
    let P = E.rand_point(&mut SignRng(s));
    oncurve("rand_point", A, &P);
}
/// enumeration: consecutive points; x-coordinates strictly follow 1+i, 2+i, ... and no valid one is skipped
fn iterate() {
    let A = G(var("A"), cst(pick("A1", 2) as i64));
    let E = curve(A);
    let p = prime() as u64;
    let want = 1 + pick("n", 3);
    let mut it = E.iter();
    let mut x = G(cst(1), cst(1));
    for _ in 0..want {
        match it.next() {
            None => {
                for _ in 0..p { veq("?exhausted", rhs(A, x).pow((p * p - 1) / 2), G::c(-1)); x = x + G::c(1); }
                return;
            }
            Some(P) => {
                oncurve("iterated", A, &P);
                let (X, _, Z) = coords(&P);
                let mut k = 0;
                while !(X - x * Z).is0() {
                    veq("skipped x is invalid", rhs(A, x).pow((p * p - 1) / 2), G::c(-1));
                    x = x + G::c(1);
                    k += 1;
                    check("x in sequence", k < p + 1);
                    if k > p { return; }
                }
                x = x + G::c(1);
            }
        }
    }
}
// ---- C11 ---------------------------------------------------------------------------------------
fn jnum(A: G) -> (G, G) { let t = A * A - G::c(3); (G::c(256) * t * t * t, A * A - G::c(4)) }
fn jinv() {
    let (A, B) = (rvar("A"), rvar("B"));
    let (E, F) = (curve(A), curve(B));
    let j = G::of(&E.j_invariant());
    let (n, d) = jnum(A);
    veq("j", j * d, n);
    let k = G::of(&F.j_invariant());
    let (m, e) = jnum(B);
    // equal j <=> equal cross-products
    let eq = boolword("j eq", E.j_invariant().equals(&F.j_invariant()));
    if eq { veq("j equal", n * e, m * d) } else { chk_nz("j different", n * e - m * d) }
    veq("constant", G::of(&E.get_constant()), A);
}
fn iso_setup() -> (G, G, Curve, Curve) {
    let (A, B) = (rvar("A"), rvar("B"));
    let (E, F) = (curve(A), curve(B));
    let ((n, d), (m, e)) = (jnum(A), jnum(B));
    assume_g_eq(n * e, m * d);
    (A, B, E, F)
}
fn iso() {
    let (A, B, E, F) = iso_setup();
    let f = CurveIsomorphism::new(&E, &F);
    let (P, p) = point(A, "P");
    let R = f.eval(&P);
    let (X, Y, Z) = coords(&R);
    if p.is_none() { same("iso infinity", &R, None); return; }
    oncurve("iso image", B, &R);
    // injective: the image of a point of the first curve determines the point; 2-torsion maps to 2-torsion, others do not
    let (_, y) = p.unwrap();
    if y.is0() { veq("iso 2-torsion", Y, G::c(0)) } else { chk_nz("iso not 2-torsion", Y) }
}
fn iso_add() {
    let (A, B, E, F) = iso_setup();
    let f = CurveIsomorphism::new(&E, &F);
    let (P, p) = affpoint(A, "P");
    let (Q, q) = affpoint(A, "Q");
    let s = radd(A, p, q);
    let aff = |R: &Point| { let (X, Y, Z) = coords(R); if Z.is0() { None } else { let i = Z.inv(); Some((X * i, Y * i)) } };
    let want = radd(B, aff(&f.eval(&P)), aff(&f.eval(&Q)));
    let S = match s { None => Point::INFINITY, Some((x, y)) => mkpt(x, y, G::c(1)) };
    same("iso additive", &f.eval(&S), want);
}

pub fn list() -> Vec<(&'static str, Harness)> {
    vec![("c08_add", add as Harness), ("c08_sub", sub), ("c08_self", self_add), ("c08_double", dbl), ("c08_iter", dbl_iter), ("c08_neg_eq", neg_eq),
        ("c08_product", product), ("c08_product_add", product_add),
        ("c09_exact", mul_exact), ("c09_short", mul_short), ("c09_21", mul_21), ("c09_long", mul_long), ("c09_apis", mul_apis), ("c09_bigk", mul_bigk), ("c09_wide", mul_wide), ("c09_xdbl", xdbl),
        ("c10_accept", accept_sub), ("c10_accept_ext", accept_ext), ("c10_lift", lift), ("c10_random", random), ("c10_iterate", iterate),
        ("c11_j", jinv), ("c11_iso", iso), ("c11_add", iso_add)]
}
