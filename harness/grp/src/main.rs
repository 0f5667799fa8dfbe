#![allow(non_snake_case, unused, dead_code, non_upper_case_globals)]
//! Generic-group instance: the repository's discrete logarithm and torsion-point code over abstract groups.
//! Elements are exponents modulo a small N (symbolic handles of the same engine as `ff`): the field's
//! multiplicative group is Z/N, a curve's rational points are (Z/N)^2, the Weil pairing is the determinant.
#[path = "../../ff/src/explore.rs"]
mod explore;
#[path = "../../ff/src/sym.rs"]
mod sym;
// ---- the code under test, included from the repository's working tree -----------------------------
#[path = "/repo/src/discrete_log.rs"]
pub mod discrete_log;
#[path = "/repo/src/supersingular.rs"]
pub mod supersingular;

/// constants of the instance that depend on N
pub struct Dyn(pub fn() -> &'static [u32]);
impl core::ops::Deref for Dyn { type Target = [u32]; fn deref(&self) -> &[u32] { (self.0)() } }
fn leak(v: u32) -> &'static [u32] {
    static T: [u32; 256] = { let mut t = [0u32; 256]; let mut i = 0; while i < 256 { t[i] = i as u32; i += 1 } t };
    &T[v as usize..v as usize + 1]
}
pub mod fields {
    pub mod FpFESTA { pub type Fp = crate::sym::Fp; }
    pub mod FpFESTAExt {
        pub type Fp2 = crate::ecFESTA::Fq;
        /// order of each of the two cyclic factors of the curve: N = 4 * odd
        pub static BASIS_ORDER: crate::Dyn = crate::Dyn(|| crate::leak(crate::sym::prime()));
        pub static BIGUINT_MODULUS: crate::Dyn = crate::Dyn(|| crate::leak(crate::sym::prime() - 1));
        pub const L_POWER: u32 = 2;
    }
}
pub mod ecFESTA { include!("group.rs"); }
pub mod thetaFESTA { pub use crate::ecFESTA::*; }
pub mod pairing { pub use crate::ecFESTA::{weil_pairing, tate_pairing}; }
mod h;

use explore::*;
use std::time::{Duration, Instant};
fn harnesses() -> Vec<(&'static str, Harness)> { h::list() }
#[path = "../../kint/src/lists.rs"]
mod lists;
/// native replay of a counterexample of harness/kint: values in the order of the kani::any() calls; 1 = reproduced
fn int(name: &str, v: &[u64]) -> i32 {
    use num_bigint::BigUint;
    let r = std::panic::catch_unwind(|| {
        if name.starts_with("inverse") {
            let (a, b) = (v[0], v[1]);
            if b < 2 || (0..b).all(|i| a * i % b != 1) { return (2, "outside".to_string()); }
            let r = discrete_log::xgcd_big(&BigUint::from(a), &BigUint::from(b));
            let ok = r < BigUint::from(b) && &r * a % b == BigUint::from(1u32);
            return (!ok as i32, format!("xgcd_big({a}, {b}) = {r}"));
        }
        if name.starts_with("sqrt") {
            let n = v[0] as u32;
            let r = discrete_log::sqrt_floor(n) as u64;
            let ok = r * r <= n as u64 && (r + 1) * (r + 1) > n as u64;
            return (!ok as i32, format!("sqrt_floor({n}) = {r}"));
        }
        let (f, v) = if let Some(i) = name.strip_prefix("crt_medium_") { (lists::CRT_MEDIUM[i.parse::<usize>().unwrap()], v) } else { (lists::CRT_SMALL[v[0].min(7) as usize], &v[1..]) };
        let rem: Vec<_> = v[..f.len()].iter().map(|x| BigUint::from(*x)).collect();
        if f.iter().zip(v).any(|((l, e), x)| *x >= l.pow(*e) as u64) { return (2, "outside".to_string()); }
        let x = discrete_log::compute_crt(&rem, f);
        let m = f.iter().fold(1u64, |m, (l, e)| m * l.pow(*e) as u64);
        let ok = x < BigUint::from(m) && f.iter().zip(&rem).all(|((l, e), r)| &x % l.pow(*e) == *r);
        (!ok as i32, format!("compute_crt({v:?}, {f:?}) = {x}"))
    });
    match r { Ok((c, s)) => { println!("{s}"); c } Err(_) => { println!("panic with {v:?}"); 1 } }
}
include!("../../ff/src/cli.rs");
