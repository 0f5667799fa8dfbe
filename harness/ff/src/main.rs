#![allow(non_snake_case, unused, dead_code, non_upper_case_globals)]
mod explore;
mod sym;
mod spec;

// ---- the code under test, included from the repository's working tree -----------------------------
#[path = "/repo/src/finitefield/fp2_gen.rs"]
mod fp2_gen;
#[path = "/repo/src/eccore.rs"]
mod eccore;
#[cfg(feature = "iso")]
#[path = "/repo/src/isogeny.rs"]
mod isogeny;
#[cfg(feature = "iso")]
#[path = "/repo/src/pairing.rs"]
mod pairing;
#[cfg(feature = "theta")]
#[path = "/repo/src/theta.rs"]
mod theta;

#[cfg(feature = "sup")]
#[path = "/repo/src/discrete_log.rs"]
pub mod discrete_log;
#[cfg(feature = "sup")]
#[path = "/repo/src/supersingular.rs"]
pub mod supersingular;
#[cfg(feature = "festa")]
#[path = "/repo/src/festa.rs"]
pub mod festa;

/// constants of the instance that depend on p
pub struct Dyn(pub fn() -> &'static [u32]);
impl core::ops::Deref for Dyn { type Target = [u32]; fn deref(&self) -> &[u32] { (self.0)() } }
fn leak(v: u32) -> &'static [u32] {
    static T: [u32; 256] = { let mut t = [0u32; 256]; let mut i = 0; while i < 256 { t[i] = i as u32; i += 1 } t };
    &T[v as usize..v as usize + 1]
}
pub mod fields {
    pub mod FpFESTA {
        pub type Fp = crate::sym::Fp;
    }
    pub mod FpFESTAExt {
        use super::FpFESTA::Fp;
        use num_bigint::BigUint;
        // NQR_RE + i must be a non-square: chosen per prime by the harnesses that use it
        const NQR_RE: Fp = Fp::TWO;
        crate::fp2_gen::define_fp2_core! {}
        pub static BASIS_ORDER: crate::Dyn = crate::Dyn(|| crate::leak(crate::sym::prime() + 1));
        pub static BIGUINT_MODULUS: crate::Dyn = crate::Dyn(|| crate::leak(crate::sym::prime()));
        pub const L_POWER: u32 = 2;
        #[cfg(feature = "festa")]
        include!("festa_consts.rs");
    }
}
pub mod ecFESTA {
    pub type Fq = crate::fields::FpFESTAExt::Fp2;
    crate::eccore::define_ec_core! {}
    #[cfg(feature = "iso")]
    crate::isogeny::define_isogeny_structure! {}
}
pub mod thetaFESTA {
    #[cfg(feature = "iso")]
    pub use crate::ecFESTA::KummerLineIsogeny;
    pub use crate::ecFESTA::{CouplePoint, Curve, EllipticProduct, Fq, Point, PointX};
    #[cfg(feature = "theta")]
    crate::theta::define_theta_structure! {}
    #[cfg(feature = "thetapriv")]
    pub mod priv_h { include!("h_thetap.rs"); }
}
mod h_ec;
mod h_fp2;
#[cfg(feature = "iso")]
mod h_iso;
#[cfg(feature = "theta")]
mod h_theta;
#[cfg(feature = "sup")]
mod h_sup;
#[cfg(feature = "festa")]
mod h_festa;

use explore::*;
use std::time::{Duration, Instant};

fn harnesses() -> Vec<(&'static str, Harness)> {
    let mut v: Vec<(&'static str, Harness)> = vec![];
    v.extend(h_ec::list());
    v.extend(h_fp2::list());
    #[cfg(feature = "iso")]
    v.extend(h_iso::list());
    #[cfg(feature = "theta")]
    v.extend(h_theta::list());
    #[cfg(feature = "sup")]
    v.extend(h_sup::list());
    #[cfg(feature = "festa")]
    v.extend(h_festa::list());
    #[cfg(feature = "thetapriv")]
    v.extend(thetaFESTA::priv_h::list());
    v
}

fn int(_: &str, _: &[u64]) -> i32 { 2 }
include!("cli.rs");
