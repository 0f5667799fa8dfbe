use crate::sym::{self, Fp};
use core::ops::*;
use num_bigint::BigUint;
use rand_core::{CryptoRng, RngCore};

fn mask(b: bool) -> u32 { if b { !0 } else { 0 } }
fn kmod(k: &BigUint) -> Fp { let n = BigUint::from(sym::prime()); let r = k % n; sym::cst(r.iter_u32_digits().next().unwrap_or(0) as i64) }
fn kbytes(b: &[u8], n: usize) -> Fp {
    let mut k = BigUint::from(0u32);
    for i in (0..n).rev() { k = k * 2u32; if b.get(i >> 3).map_or(0, |x| x >> (i & 7) & 1) == 1 { k += 1u32; } }
    kmod(&k)
}
fn unsupported() -> ! { panic!("UNSUPPORTED: not part of the abstract group") }

/// g^k, an element of the multiplicative group of order N
#[derive(Clone, Copy, Debug)]
pub struct Fq(pub Fp);
impl Fq {
    pub const ONE: Fq = Fq(Fp::ZERO);
    pub const ZERO: Fq = Fq(Fp(0xdead));
    pub const TWO: Fq = Fq(Fp(0xdead));
    pub const ZETA: Fq = Fq(Fp(0xdead));
    pub fn new(_a: &Fp, _b: &Fp) -> Fq { unsupported() }
    pub fn get_coeff(&self) -> (Fp, Fp) { unsupported() }
    pub fn legendre(self) -> i32 { unsupported() }
    pub fn sqrt(self) -> (Fq, u32) { unsupported() }
    pub const THREE: Fq = Fq(Fp(0xdead));
    pub const FOUR: Fq = Fq(Fp(0xdead));
    pub const MINUS_ONE: Fq = Fq(Fp(0xdead));
    pub const MINUS_ZETA: Fq = Fq(Fp(0xdead));
    pub const ENCODED_LENGTH: usize = 2;
    pub fn iszero(self) -> u32 { 0 }
    pub fn equals(self, o: &Fq) -> u32 { self.0.equals(&o.0) }
    pub fn square(self) -> Fq { Fq(self.0 + self.0) }
    pub fn set_square(&mut self) { *self = self.square() }
    pub fn set_mul(&mut self, o: &Fq) { *self = *self * *o }
    pub fn invert(self) -> Fq { Fq(-self.0) }
    pub fn set_invert(&mut self) { *self = self.invert() }
    pub fn pow_small(self, k: u32) -> Fq { Fq(self.0 * sym::cst(k as i64)) }
    pub fn set_pow_small(&mut self, k: u32) { *self = self.pow_small(k) }
    pub fn pow_u64(self, k: u64, n: usize) -> Fq { let k = if n < 64 { k & ((1 << n) - 1) } else { k }; self.pow_big(&BigUint::from(k)) }
    pub fn set_pow_u64(&mut self, k: u64, n: usize) { *self = self.pow_u64(k, n) }
    pub fn pow_u64_vartime(self, k: u64) -> Fq { self.pow_big(&BigUint::from(k)) }
    pub fn set_pow_u64_vartime(&mut self, k: u64) { *self = self.pow_u64_vartime(k) }
    pub fn set_pow(&mut self, e: &[u8], n: usize) { *self = self.pow(e, n) }
    pub fn set_select(&mut self, a: &Fq, b: &Fq, c: u32) { *self = Fq::select(a, b, c) }
    pub fn condswap(a: &mut Fq, b: &mut Fq, c: u32) { if c != 0 { core::mem::swap(a, b) } }
    pub fn batch_invert(xx: &mut [Fq]) { for x in xx { x.set_invert() } }
    pub fn conj(self) -> Fq { unsupported() }
    pub fn half(self) -> Fq { unsupported() }
    pub fn mul2(self) -> Fq { unsupported() }
    pub fn mul_small(self, _k: i32) -> Fq { unsupported() }
    pub fn decode(_b: &[u8]) -> (Fq, u32) { unsupported() }
    pub fn pow_big(self, k: &BigUint) -> Fq { Fq(self.0 * kmod(k)) }
    pub fn pow(self, e: &[u8], n: usize) -> Fq { Fq(self.0 * kbytes(e, n)) }
    /// canonical bytes: the exponent itself (forks over all values)
    pub fn encode(self) -> [u8; 2] {
        for v in 0..sym::prime() { if sym::test(self.0, 1u128 << v) { return [v as u8, 0]; } }
        unreachable!()
    }
    pub fn hashcode(self) -> u64 { self.encode()[0] as u64 }
    pub fn set_cond(&mut self, o: &Fq, c: u32) { if c != 0 { *self = *o } }
    pub fn select(a: &Fq, b: &Fq, c: u32) -> Fq { if c != 0 { *b } else { *a } }
}
macro_rules! ops { ($t:ty, $tr:ident,$f:ident,$ta:ident,$fa:ident,$e:expr) => {
    impl $tr<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { $e(self, o) } }
    impl $tr<&$t> for $t { type Output = $t; fn $f(self, o: &$t) -> $t { $e(self, *o) } }
    impl $tr<$t> for &$t { type Output = $t; fn $f(self, o: $t) -> $t { $e(*self, o) } }
    impl $tr<&$t> for &$t { type Output = $t; fn $f(self, o: &$t) -> $t { $e(*self, *o) } }
    impl $ta<$t> for $t { fn $fa(&mut self, o: $t) { *self = $e(*self, o) } }
    impl $ta<&$t> for $t { fn $fa(&mut self, o: &$t) { *self = $e(*self, *o) } }
}}
ops!(Fq, Mul, mul, MulAssign, mul_assign, |a: Fq, b: Fq| Fq(a.0 + b.0));
ops!(Fq, Div, div, DivAssign, div_assign, |a: Fq, b: Fq| Fq(a.0 - b.0));
ops!(Fq, Add, add, AddAssign, add_assign, |_: Fq, _: Fq| -> Fq { unsupported() });
ops!(Fq, Sub, sub, SubAssign, sub_assign, |_: Fq, _: Fq| -> Fq { unsupported() });
impl Neg for Fq { type Output = Fq; fn neg(self) -> Fq { unsupported() } }
impl Neg for &Fq { type Output = Fq; fn neg(self) -> Fq { unsupported() } }
impl PartialEq for Fq { fn eq(&self, o: &Fq) -> bool { self.equals(o) != 0 } }
impl Eq for Fq {}
impl std::fmt::Display for Fq { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }

/// a*B1 + b*B2 in (Z/N)^2
#[derive(Clone, Copy, Debug)]
pub struct Point { pub a: Fp, pub b: Fp }
impl Point {
    pub const INFINITY: Point = Point { a: Fp::ZERO, b: Fp::ZERO };
    pub fn new_xy(_x: &Fq, _y: &Fq) -> Point { unsupported() }
    pub fn isinfinity(self) -> u32 { mask(sym::test(self.a, 1) && sym::test(self.b, 1)) }
    pub fn equals(self, o: &Point) -> u32 { Point { a: self.a - o.a, b: self.b - o.b }.isinfinity() }
    pub fn set_neg(&mut self) { *self = -*self }
    pub fn set_condneg(&mut self, c: u32) { if c != 0 { *self = -*self } }
    pub fn to_xy(self) -> (Fq, Fq) { unsupported() }
    pub fn to_xz(self) -> (Fq, Fq) { unsupported() }
    pub fn to_xyz(self) -> (Fq, Fq, Fq) { unsupported() }
    pub fn set_cond(&mut self, o: &Point, c: u32) { if c != 0 { *self = *o } }
    pub fn select(a: &Point, b: &Point, c: u32) -> Point { if c != 0 { *b } else { *a } }
}
impl Neg for Point { type Output = Point; fn neg(self) -> Point { Point { a: -self.a, b: -self.b } } }
impl Neg for &Point { type Output = Point; fn neg(self) -> Point { -*self } }

#[derive(Clone, Copy, Debug)]
pub struct Curve { pub id: u32 }
pub struct CurvePointIter { id: u32, k: u32 }
/// the points the curve's iterator yields: arbitrary, the same each time
pub fn listed(id: u32, k: u32) -> Point { Point { a: sym::var_cached(&format!("it{id}_{k}a")), b: sym::var_cached(&format!("it{id}_{k}b")) } }
thread_local! { pub static LISTED: core::cell::Cell<u32> = const { core::cell::Cell::new(2) }; pub static MAXDRAW: core::cell::Cell<u32> = const { core::cell::Cell::new(2) }; pub static DRAWS: core::cell::Cell<u32> = const { core::cell::Cell::new(0) }; }
impl Iterator for CurvePointIter {
    type Item = Point;
    fn next(&mut self) -> Option<Point> {
        // bound on the number of candidates that are looked at
        if self.k == LISTED.with(|l| l.get()) { std::panic::panic_any(sym::Stop) }
        self.k += 1;
        Some(listed(self.id, self.k - 1))
    }
}
impl Curve {
    pub fn get_constant(&self) -> Fq { unsupported() }
    pub fn add(&self, p: &Point, q: &Point) -> Point { Point { a: p.a + q.a, b: p.b + q.b } }
    pub fn sub(&self, p: &Point, q: &Point) -> Point { Point { a: p.a - q.a, b: p.b - q.b } }
    pub fn add_into(&self, r: &mut Point, p: &Point, q: &Point) { *r = self.add(p, q) }
    pub fn double(&self, p: &Point) -> Point { self.add(p, p) }
    pub fn double_self(&self, p: &mut Point) { *p = self.double(p) }
    pub fn double_iter(&self, p: &Point, n: usize) -> Point { self.mul_big(p, &(BigUint::from(1u32) << n)) }
    pub fn mul_big(&self, p: &Point, k: &BigUint) -> Point { let k = kmod(k); Point { a: p.a * k, b: p.b * k } }
    pub fn mul_small(&self, p: &Point, k: u64) -> Point { self.mul_big(p, &BigUint::from(k)) }
    pub fn mul(&self, p: &Point, e: &[u8], n: usize) -> Point { let k = kbytes(e, n); Point { a: p.a * k, b: p.b * k } }
    pub fn addto(&self, p: &mut Point, q: &Point) { *p = self.add(p, q) }
    pub fn subfrom(&self, p: &mut Point, q: &Point) { *p = self.sub(p, q) }
    pub fn sub_into(&self, r: &mut Point, p: &Point, q: &Point) { *r = self.sub(p, q) }
    pub fn double_into(&self, r: &mut Point, p: &Point) { *r = self.double(p) }
    pub fn mul_into(&self, r: &mut Point, p: &Point, e: &[u8], n: usize) { *r = self.mul(p, e, n) }
    pub fn mul_small_into(&self, r: &mut Point, p: &Point, k: u64) { *r = self.mul_small(p, k) }
    pub fn set_rand_point<T: CryptoRng + RngCore>(&self, rng: &mut T, p: &mut Point) { *p = self.rand_point(rng) }
    pub fn j_invariant(&self) -> Fq { unsupported() }
    pub fn on_curve(&self, _p: &Point) -> bool { true }
    pub fn rand_point<T: CryptoRng + RngCore>(&self, _rng: &mut T) -> Point {
        // bound on the number of random draws per run
        let n = DRAWS.with(|d| d.get());
        if n == MAXDRAW.with(|l| l.get()) { std::panic::panic_any(sym::Stop) }
        DRAWS.with(|d| d.set(n + 1));
        Point { a: sym::var(&format!("rnd{n}a")), b: sym::var(&format!("rnd{n}b")) }
    }
    pub fn iter(&self) -> CurvePointIter { CurvePointIter { id: self.id, k: 0 } }
}

/// Pairing on E[D], D with a coprime cofactor in N: the determinant (a fixed power, prime to D, of the Weil
/// pairing).  Outside E[D] the value is arbitrary.
pub fn weil_pairing(_E: &Curve, p: &Point, q: &Point, order: &BigUint) -> Fq {
    let d = order.iter_u32_digits().next().unwrap_or(0);
    let n = sym::prime();
    let k = n / d;
    let g = |mut a: u32, mut b: u32| { while b != 0 { (a, b) = (b, a % b) } a };
    if n % d != 0 || g(k, d) != 1 { unsupported() }
    let e = kmod(order);
    for x in [p.a, p.b, q.a, q.b] { if !sym::test(x * e, 1) { return Fq(sym::var_cached(&format!("undefined_pairing_{}", x.0))); } }
    Fq(p.a * q.b - p.b * q.a)
}
pub fn tate_pairing(E: &Curve, p: &Point, q: &Point, order: &BigUint) -> Fq { weil_pairing(E, p, q, order) }

/// a recorded isogeny
#[derive(Clone, Copy, Debug)]
pub struct KummerLineIsogeny { pub domain: u32, pub kernel: Point, pub degree: u32, pub codomain: Curve }
impl KummerLineIsogeny { pub fn get_codomain(&self) -> Curve { self.codomain } }
pub fn factored_kummer_isogeny(E: &Curve, K: &Point, D: &[(u32, u32)]) -> Vec<KummerLineIsogeny> {
    let d = D.iter().fold(1u32, |m, (l, e)| m * l.pow(*e));
    // two recorded steps, so that taking the first instead of the last codomain shows
    vec![
        KummerLineIsogeny { domain: E.id, kernel: *K, degree: d, codomain: Curve { id: E.id * 10 + 1 } },
        KummerLineIsogeny { domain: E.id * 10 + 1, kernel: *K, degree: 0, codomain: Curve { id: E.id * 10 + 2 } },
    ]
}
