//! C16 (theta arithmetic), public interface only.
use crate::ecFESTA::*;
use crate::h_ec::{chk_nz, coords, radd, rhs, rmul, rneg, Aff};
use crate::explore::Harness;
use crate::spec::*;
use crate::sym::*;
use crate::thetaFESTA::*;

pub type V4 = [G; 4];
pub fn th(v: &V4) -> ThetaPoint { ThetaPoint::from_coords(&v[0].fq(), &v[1].fq(), &v[2].fq(), &v[3].fq()) }
pub fn of4(P: &ThetaPoint) -> V4 { let (x, y, z, t) = P.coords(); [G::of(&x), G::of(&y), G::of(&z), G::of(&t)] }
pub fn of4t(t: (crate::ecFESTA::Fq, crate::ecFESTA::Fq, crate::ecFESTA::Fq, crate::ecFESTA::Fq)) -> V4 { [G::of(&t.0), G::of(&t.1), G::of(&t.2), G::of(&t.3)] }
pub fn rv4(n: &str) -> V4 { [0, 1, 2, 3].map(|i| rvar(&format!("{n}{i}_"))) }
pub fn gv4(n: &str) -> V4 { [0, 1, 2, 3].map(|i| gvar(&format!("{n}{i}_"))) }
/// Hadamard from its definition: sum over t of (-1)^(i.t) x_t
pub fn rhad(v: &V4) -> V4 {
    [0usize, 1, 2, 3].map(|i| {
        let mut s = G::c(0);
        for t in 0..4 { s = if ((i & t).count_ones() & 1) == 1 { s - v[t] } else { s + v[t] }; }
        s
    })
}
pub fn rsq(v: &V4) -> V4 { [v[0].sq(), v[1].sq(), v[2].sq(), v[3].sq()] }
/// projective equality of two vectors; w is known to be non-zero where `nz` holds
pub fn proj(name: &str, v: &V4, w: &V4) {
    for i in 0..4 { for j in 0..i { veq(name, v[i] * w[j], v[j] * w[i]); } }
}
/// v is not the zero vector
pub fn nonzero4(name: &str, v: &V4) {
    for i in 0..4 { if !v[i].is0() { check_eq(name, cst(0), cst(0)); return; } }
    check(name, false);
}
fn had(v: V4, tag: &str) {
    let P = th(&v);
    let h = of4t(P.hadamard());
    let r = rhad(&v);
    for i in 0..4 { veq("hadamard", h[i], r[i]); }
    let hh = of4t(th(&h).hadamard());
    for i in 0..4 { veq("hadamard twice", hh[i], v[i] * G::c(4)); }
    let s = of4t(P.squared_theta());
    let r = rhad(&rsq(&v));
    for i in 0..4 { veq("squared theta", s[i], r[i]); }
    let l = P.list();
    for i in 0..4 { veq("list", G::of(&l[i]), v[i]); }
}
fn had_r() { had(rv4("x"), "") }
fn had_g() { had([rvar("x0"), gvar("x1"), rvar("x2"), gvar("x3")], "") }
/// a null point for which the doubling formulas are defined
pub fn null4(v: &V4) {
    for x in v { assume_g_nz(*x); }
    for x in rhad(&rsq(v)) { assume_g_nz(x); }
}
/// reference doubling: a_i * X_i(2P) = H( H(x^2)^2 / H(a^2) )_i, up to a common factor
pub fn rdouble(n: &V4, v: &V4) -> V4 {
    let d = rhad(&rsq(n));
    let s = rhad(&rsq(v));
    let q = [0, 1, 2, 3].map(|i: usize| s[i].sq() * d[i].inv());
    let h = rhad(&q);
    [0, 1, 2, 3].map(|i: usize| h[i] * n[i].inv())
}
fn dbl(n: V4, v: V4) {
    null4(&n);
    let Th = ThetaStructure::new_from_point(&th(&n));
    let r = rdouble(&n, &v);
    let d = of4(&Th.double_point(&th(&v)));
    // the code normalises by the first coordinates: d = r * n0 * H(n^2)_0
    let k = n[0] * rhad(&rsq(&n))[0];
    for i in 0..4 { veq("double", d[i], r[i] * k); }
    let mut P = th(&v);
    Th.set_double_self(&mut P);
    let e = of4(&P);
    for i in 0..4 { veq("set_double_self", e[i], d[i]); }
    let nul = of4(&Th.null_point());
    for i in 0..4 { veq("null point", nul[i], n[i]); }
}
fn dbl_r() { let mut n = rv4("n"); n[0] = G::c(1); dbl(n, rv4("x")) }
fn dbl_scale() { dbl(rv4("n"), [rvar("x0"), G::c(1), rvar("x2"), G::c(3)]) }
fn dbl_g() { dbl([G::c(1), gvar("n1"), G(cst(2), cst(1)), G(cst(1), cst(3))], [gvar("x0"), rvar("x1"), G(cst(0), cst(1)), G::c(3)]) }
fn dbl_null() {
    let n = rv4("n");
    null4(&n);
    let Th = ThetaStructure::new_from_coords(&n[0].fq(), &n[1].fq(), &n[2].fq(), &n[3].fq());
    let d = of4(&Th.double_point(&Th.null_point()));
    proj("2*0 = 0", &d, &n);
    nonzero4("2*0 is a point", &d);
}
fn dbl_iter() {
    let mut n = rv4("n"); n[0] = G::c(1); n[1] = G::c(2);
    null4(&n);
    let x = [rvar("x0"), G::c(1), rvar("x2"), rvar("x3")];
    let Th = ThetaStructure::new_from_point(&th(&n));
    let k = pick("k", 5);
    let d = of4(&Th.double_iter(&th(&x), k as usize));
    let mut e = th(&x);
    for _ in 0..k { e = Th.double_point(&e); }
    let e = of4(&e);
    for i in 0..4 { veq("double_iter", d[i], e[i]); }
}
fn precomp() {
    let n = rv4("n");
    null4(&n);
    let p = ThetaStructure::precomputation(&th(&n));
    let d = rhad(&rsq(&n));
    for i in 0..3 { veq("a/b, a/c, a/d", G::of(&p[i]) * n[i + 1], n[0]); veq("A/B, A/C, A/D", G::of(&p[i + 3]) * d[i + 1], d[0]); }
}
/// projective scaling of null point and point never changes the projective result
fn scale() {
    let mut n = rv4("n"); n[0] = G::c(1);
    null4(&n);
    let x = [rvar("x0"), rvar("x1"), G::c(1), rvar("x3")];
    let (s, t) = (rvar("s"), rvar("t"));
    assume_g_nz(s);
    assume_g_nz(t);
    let a = of4(&ThetaStructure::new_from_point(&th(&n)).double_point(&th(&x)));
    let b = of4(&ThetaStructure::new_from_point(&th(&n.map(|c| c * s))).double_point(&th(&x.map(|c| c * t))));
    proj("scaling", &a, &b);
}
// ---- chains between elliptic products over GF(31^2): E(GF(31^2)) = (Z/32)^2, chain length 3 ----------
/// concrete maximally isotropic kernels (tools/gen_kernels.py), two curves and four points of order 32
pub struct Ker { pub a1: G, pub a2: G, pub p1: Aff, pub p2: Aff, pub q1: Aff, pub q2: Aff }
fn kers() -> &'static str { match prime() { 7 => include_str!("../data/k7.txt"), 23 => include_str!("../data/k23.txt"), 31 => include_str!("../data/k31.txt"), 127 => include_str!("../data/k127.txt"), _ => panic!("no kernels for this prime") } }
pub fn nker() -> u32 { kers().lines().count() as u32 }
pub fn ker(k: usize) -> Ker {
    let v: Vec<G> = kers().lines().nth(k).unwrap().split(' ').map(|c| { let (a, b) = c.split_once(',').unwrap(); G(cst(a.parse().unwrap()), cst(b.parse().unwrap())) }).collect();
    Ker { a1: v[0], a2: v[1], p1: Some((v[2], v[3])), p2: Some((v[4], v[5])), q1: Some((v[6], v[7])), q2: Some((v[8], v[9])) }
}
pub fn chain_len() -> usize { (prime() + 1).trailing_zeros() as usize - 2 }
/// all strategies for a tree with n leaves
pub fn strategies(n: usize) -> Vec<Vec<usize>> {
    if n == 1 { return vec![vec![]]; }
    let mut r = vec![];
    for i in 1..n { for a in strategies(n - i) { for b in strategies(i) { let mut s = vec![i]; s.extend(&a); s.extend(&b); r.push(s); } } }
    r
}
pub fn pt(a: Aff) -> Point { match a { None => Point::INFINITY, Some((x, y)) => mkp(x, y) } }
fn mkp(x: G, y: G) -> Point { Point::new_xy(&x.fq(), &y.fq()) }
pub fn cp(a: (Aff, Aff)) -> CouplePoint { CouplePoint::new(&pt(a.0), &pt(a.1)) }
impl Ker {
    pub fn prod(&self) -> EllipticProduct { EllipticProduct::new(&Curve::new(&self.a1.fq()), &Curve::new(&self.a2.fq())) }
    pub fn gens(&self) -> (CouplePoint, CouplePoint) { (cp((self.p1, self.p2)), cp((self.q1, self.q2))) }
    pub fn add(&self, a: (Aff, Aff), b: (Aff, Aff)) -> (Aff, Aff) { (radd(self.a1, a.0, b.0), radd(self.a2, a.1, b.1)) }
    pub fn comb(&self, i: u64, j: u64) -> (Aff, Aff) {
        (radd(self.a1, rmul(self.a1, self.p1, i), rmul(self.a1, self.q1, j)), radd(self.a2, rmul(self.a2, self.p2, i), rmul(self.a2, self.q2, j)))
    }
    /// strategy-based chain, or the naive one for an empty strategy
    pub fn chain(&self, img: &[(Aff, Aff)], strat: &[usize]) -> (G, G, Vec<(Point, Point)>) {
        let (P, Q) = self.gens();
        let im: Vec<CouplePoint> = img.iter().map(|x| cp(*x)).collect();
        let (E, v) = if strat.is_empty() { product_isogeny_no_strategy(&self.prod(), &P, &Q, &im, chain_len()) } else { product_isogeny(&self.prod(), &P, &Q, &im, chain_len(), strat) };
        check("as many images as points", v.len() == img.len());
        let (E3, E4) = E.curves();
        (G::of(&E3.get_constant()), G::of(&E4.get_constant()), v.into_iter().map(|c| c.points()).collect())
    }
}
/// R (from the code) as affine point, checked to be on the curve
pub fn aff_on(name: &str, A: G, R: &Point) -> Aff {
    let (X, Y, Z) = coords(R);
    if Z.is0() { check_eq(name, cst(0), cst(0)); return None; }
    let zi = Z.inv();
    let (x, y) = (X * zi, Y * zi);
    veq(name, y * y, rhs(A, x));
    Some((x, y))
}
fn same_x(name: &str, a: Aff, b: Aff) {
    match (a, b) { (None, None) => check(name, true), (Some(a), Some(b)) => veq(name, a.0, b.0), _ => check(name, false) }
}
/// W = +-(R + S) or +-(R - S)
fn sum_x(name: &str, A: G, W: Aff, R: Aff, S: Aff) {
    let (u, v) = (radd(A, R, S), radd(A, R, rneg(S)));
    match (W, u, v) {
        (None, None, _) | (None, _, None) => check(name, true),
        (None, _, _) => check(name, false),
        (Some((x, _)), Some((a, _)), Some((b, _))) => { let d = (x - a) * (x - b); veq(name, d, G::c(0)) }
        (Some((x, _)), Some((a, _)), None) | (Some((x, _)), None, Some((a, _))) => veq(name, x, a),
        (Some(_), None, None) => check(name, false),
    }
}
/// everything concrete: kernel, multiples and sums
fn e2e_conc() {
    let k = pick("kernel", nker());
    let K = ker(k as usize);
    let (T, U) = ((K.p1, None), (rmul(K.a1, K.q1, 3), K.q2));
    let img = [(None, None), K.comb(4, 0), K.comb(0, 4), K.comb(20, 24), T, U, K.add(T, U), K.add(T, T), K.comb(16, 16)];
    let ss = strategies(chain_len());
    for s in [&ss[0][..], &ss[ss.len() - 1], &[]] {
        let (a3, a4, v) = K.chain(&img, s);
        chk_nz("codomain is a curve", (a3 * a3 - G::c(4)) * (a4 * a4 - G::c(4)));
        let w: Vec<(Aff, Aff)> = v.iter().map(|(R, S)| (aff_on("on E3", a3, R), aff_on("on E4", a4, S))).collect();
        for i in [0, 1, 2, 3, 8] { check("kernel and O go to O", w[i].0.is_none() && w[i].1.is_none()); }
        sum_x("addition E3", a3, w[6].0, w[4].0, w[5].0);
        sum_x("addition E4", a4, w[6].1, w[4].1, w[5].1);
        same_x("doubling E3", w[7].0, radd(a3, w[4].0, w[4].0));
        same_x("doubling E4", w[7].1, radd(a4, w[4].1, w[4].1));
    }
}
/// arbitrary point of E with x in GF(31) (A in GF(31)): y is in GF(31) or i GF(31)
fn pickreal(A: G, n: &str) -> Aff {
    let x = rvar(&format!("{n}x"));
    let w = rhs(A, x).0;
    assume(w, set_qr(prime()) | 1, true);
    Some((x, G(w.sqrt().0, cst(0))))
}
pub fn halfreal(A: G, n: &str) -> Aff {
    let x = rvar(&format!("{n}x"));
    let w = rhs(A, x).0;
    check("A in GF(p)", conc(A.1) == Some(0));
    let k = pick(&format!("{n}y"), 4); // imaginary or not, sign
    let w = if k & 1 == 1 { -w } else { w };
    assume(w, set_qr(prime()) | 1, true);
    let y = w.sqrt().0;
    let y = if k & 2 == 2 { -y } else { y };
    Some((x, if k & 1 == 1 { G(cst(0), y) } else { G(y, cst(0)) }))
}
/// image of an arbitrary point against the image of its translate by a fixed point
fn e2e_sym(side: usize, what: usize) {
    let K = ker([4usize, 8, 12, 16][pick("kernel", 4) as usize]);
    let P = if side == 0 { (halfreal(K.a1, "P"), K.q2) } else { (None, halfreal(K.a2, "P")) };
    let T = [K.comb(1, 0), (K.p1, None), (None, K.q2)][what];
    let (a3, a4, v) = K.chain(&[P, K.add(P, T), T], &strategies(chain_len())[0]);
    let w: Vec<(Aff, Aff)> = v.iter().map(|(R, S)| (aff_on("on E3", a3, R), aff_on("on E4", a4, S))).collect();
    sum_x("addition E3", a3, w[1].0, w[0].0, w[2].0);
    sum_x("addition E4", a4, w[1].1, w[0].1, w[2].1);
}
/// every strategy gives the same codomain and the same image as the naive chain
fn strat() { strat_n(5, true) }
fn strat_q() { strat_n(1, false) }
fn strat_n(nk: u32, full: bool) {
    let n = nker() as usize;
    let K = ker([0usize, 4, 8, 12, 16][pick("kernel", nk) as usize] % n);
    let ss = strategies(chain_len());
    let s = &ss[pick("strategy", ss.len() as u32) as usize];
    let P = if !full { (pickreal(K.a1, "P"), K.q2) } else if pick("side", 2) == 0 { (halfreal(K.a1, "P"), K.q2) } else { (K.p1, halfreal(K.a2, "P")) };
    let (a3, a4, v) = K.chain(&[P, (None, None)], s);
    let (b3, b4, w) = K.chain(&[P, (None, None)], &[]);
    veq("same E3", a3, b3);
    veq("same E4", a4, b4);
    for i in 0..2 {
        same_x("same image on E3", aff_on("on E3", a3, &v[i].0), aff_on("on E3", b3, &w[i].0));
        same_x("same image on E4", aff_on("on E4", a4, &v[i].1), aff_on("on E4", b4, &w[i].1));
    }
}
fn e2e_sym_00() { e2e_sym(0, 0) }
fn e2e_sym_01() { e2e_sym(0, 1) }
fn e2e_sym_02() { e2e_sym(0, 2) }
fn e2e_sym_10() { e2e_sym(1, 0) }
fn e2e_sym_11() { e2e_sym(1, 1) }
fn e2e_sym_12() { e2e_sym(1, 2) }
pub fn list() -> Vec<(&'static str, Harness)> {
    vec![("c16_had", had_r as Harness), ("c16_had_g", had_g), ("c16_dbl", dbl_r), ("c16_dbl_scale", dbl_scale), ("c16_dbl_g", dbl_g), ("c16_dbl_null", dbl_null),
        ("c16_dbl_iter", dbl_iter), ("c16_precomp", precomp), ("c16_scale", scale),
        ("c17_e2e_conc", e2e_conc), ("c17_strategies", strat), ("c17_strategies_q", strat_q), ("c17_e2e_00", e2e_sym_00), ("c17_e2e_01", e2e_sym_01), ("c17_e2e_02", e2e_sym_02), ("c17_e2e_10", e2e_sym_10), ("c17_e2e_11", e2e_sym_11), ("c17_e2e_12", e2e_sym_12)]
}
