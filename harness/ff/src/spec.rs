//! Reference arithmetic used by the specifications (textbook formulas, independent of the code under test).
use crate::fields::FpFESTAExt::Fp2;
use crate::sym::*;
use core::ops::{Add, Mul, Neg, Sub};

/// element a + b*i of GF(p)[i]/(i^2+1)
#[derive(Clone, Copy, Debug)]
pub struct G(pub Fp, pub Fp);
impl Add for G { type Output = G; fn add(self, o: G) -> G { G(self.0 + o.0, self.1 + o.1) } }
impl Sub for G { type Output = G; fn sub(self, o: G) -> G { G(self.0 - o.0, self.1 - o.1) } }
impl Neg for G { type Output = G; fn neg(self) -> G { G(-self.0, -self.1) } }
impl Mul for G { type Output = G; fn mul(self, o: G) -> G { G(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0) } }
impl G {
    pub fn c(v: i64) -> G { G(cst(v), cst(0)) }
    pub fn of(x: &Fp2) -> G { let (a, b) = x.get_coeff(); G(a, b) }
    pub fn fq(self) -> Fp2 { Fp2::new(&self.0, &self.1) }
    pub fn sq(self) -> G { self * self }
    pub fn norm(self) -> Fp { self.0 * self.0 + self.1 * self.1 }
    pub fn inv(self) -> G { let n = self.norm().invert(); G(self.0 * n, -(self.1 * n)) }
    pub fn div(self, o: G) -> G { self * o.inv() }
    /// fork
    pub fn is0(self) -> bool { test(self.0, 1) && test(self.1, 1) }
    pub fn eq(self, o: G) -> bool { (self - o).is0() }
    pub fn pow(self, mut e: u64) -> G { let mut r = G::c(1); let mut b = self; while e > 0 { if e & 1 == 1 { r = r * b } b = b * b; e >>= 1; } r }
}
pub fn veq(name: &str, x: G, y: G) { check_eq(name, x.0, y.0); check_eq(name, x.1, y.1) }
/// two expressions that must vanish together (both or neither): not needed often
pub fn assume_g_eq(x: G, y: G) { assume_eq(x.0, y.0); assume_eq(x.1, y.1) }
/// x != 0 (forks on the first coordinate, then constrains the second)
pub fn assume_g_nz(x: G) {
    if conc(x.1) == Some(0) { assume_nonzero(x.0); return; }
    if conc(x.0) == Some(0) { assume_nonzero(x.1); return; }
    if test(x.0, 1) { assume_nonzero(x.1) }
}
/// full extension-field variable
pub fn gvar(n: &str) -> G { G(var(&format!("{n}0")), var(&format!("{n}1"))) }
/// variable restricted to the subfield
pub fn rvar(n: &str) -> G { G(var(n), cst(0)) }
