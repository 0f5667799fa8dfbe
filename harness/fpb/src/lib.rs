#![allow(non_snake_case, unused, dead_code, non_upper_case_globals)]
//! The base field over a one-word stand-in for the big-integer library (Kani only): how pow_big hands its exponent on.
#[path = "/repo/src/finitefield/mod.rs"]
pub mod finitefield;
#[path = "/repo/src/fields.rs"]
pub mod fields;
use fields::FpFESTA::Fp;

/// C22: pow_big hands its exponent unchanged to the byte-wise power (whose result is engine E5's subject)
#[cfg(kani)]
mod proofs {
    use super::*;
    static mut SEEN: (u32, u128) = (0, 0);
    fn recorder(x: &mut Fp, e: &[u8], off: usize, len: usize) {
        assert!(off + len <= 8 * e.len(), "the window lies inside the exponent");
        assert!(e.len() <= 16);
        let mut v = 0u128;
        for i in 0..e.len() { v |= (e[i] as u128) << (8 * i); }
        v >>= off as u32 & 127;
        if len < 128 { v &= (1u128 << len) - 1; }
        unsafe { SEEN = (SEEN.0 + 1, v); }
    }
    fn case(e: u64) {
        let x = Fp::TWO;
        let y = x.pow_big(&num_bigint::BigUint::from(e));
        let (n, v) = unsafe { SEEN };
        kani::cover!(n == 1);
        assert!(n == 1 && v == e as u128, "exponent handed over");
        let (a, b): ([u64; 21], [u64; 21]) = unsafe { (core::mem::transmute(x), core::mem::transmute(y)) };
        let mut same = true;
        for i in 0..21 { same &= a[i] == b[i]; }
        assert!(same, "base handed over");
    }
    #[kani::proof]
    #[kani::stub(fields::FpFESTA::Fp::set_pow_ext, recorder)]
    #[kani::unwind(23)]
    fn pow_big_64() { case(kani::any::<u64>()) }
    #[kani::proof]
    #[kani::stub(fields::FpFESTA::Fp::set_pow_ext, recorder)]
    #[kani::unwind(23)]
    fn pow_big_16() { case(kani::any::<u16>() as u64) }
}
