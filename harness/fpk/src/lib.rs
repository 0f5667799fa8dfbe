#![allow(non_snake_case, unused, dead_code, non_upper_case_globals, improper_ctypes_definitions)]
//! Entry points of the base field for the word-level symbolic executor (checks/ir.py); also loaded natively for replays.
#[path = "/repo/src/finitefield/mod.rs"]
pub mod finitefield;
#[path = "/repo/src/fields.rs"]
pub mod fields;
use fields::FpFESTA::Fp;
macro_rules! bin { ($n:ident, $f:expr) => { #[no_mangle] pub extern "C" fn $n(r: &mut Fp, a: &Fp, b: &Fp) { let f: fn(&Fp, &Fp) -> Fp = $f; *r = f(a, b) } } }
macro_rules! un { ($n:ident, $f:expr) => { #[no_mangle] pub extern "C" fn $n(r: &mut Fp, a: &Fp) { let f: fn(&Fp) -> Fp = $f; *r = f(a) } } }
bin!(k_add, |a, b| a + b);
bin!(k_add_assign, |a, b| { let mut t = *a; t += b; t });
bin!(k_sub, |a, b| a - b);
bin!(k_sub_assign, |a, b| { let mut t = *a; t -= *b; t });
bin!(k_mul, |a, b| a * b);
bin!(k_mul_assign, |a, b| { let mut t = *a; t *= b; t });
un!(k_neg, |a| -a);
un!(k_set_neg, |a| { let mut t = *a; t.set_neg(); t });
un!(k_square, |a| a.square());
un!(k_half, |a| a.half());
un!(k_mul2, |a| a.mul2());
un!(k_mul3, |a| a.mul3());
un!(k_mul4, |a| a.mul4());
un!(k_mul8, |a| a.mul8());
#[no_mangle] pub extern "C" fn k_mul_small(r: &mut Fp, a: &Fp, k: i32) { *r = a.mul_small(k) }
#[no_mangle] pub extern "C" fn k_sum_products(r: &mut Fp, a: &Fp, b: &Fp, c: &Fp, d: &Fp) { *r = Fp::sum_of_products(a, b, c, d) }
#[no_mangle] pub extern "C" fn k_difference_products(r: &mut Fp, a: &Fp, b: &Fp, c: &Fp, d: &Fp) { *r = Fp::difference_of_products(a, b, c, d) }
#[no_mangle] pub extern "C" fn k_from_u64(r: &mut Fp, x: u64) { *r = Fp::from_u64(x) }
#[no_mangle] pub extern "C" fn k_from_u32(r: &mut Fp, x: u32) { *r = Fp::from_u32(x) }
#[no_mangle] pub extern "C" fn k_from_i64(r: &mut Fp, x: i64) { *r = Fp::from_i64(x) }
#[no_mangle] pub extern "C" fn k_from_i32(r: &mut Fp, x: i32) { *r = Fp::from_i32(x) }
#[no_mangle] pub extern "C" fn k_encode(r: &mut [u8; Fp::ENCODED_LENGTH], a: &Fp) { *r = a.encode() }
#[no_mangle] pub extern "C" fn k_decode(r: &mut Fp, b: *const u8, n: usize) -> u32 { let (x, c) = Fp::decode(unsafe { core::slice::from_raw_parts(b, n) }); *r = x; c }
#[no_mangle] pub extern "C" fn k_decode_reduce(r: &mut Fp, b: *const u8, n: usize) { *r = Fp::decode_reduce(unsafe { core::slice::from_raw_parts(b, n) }) }
bin!(k_div, |a, b| a / b);
un!(k_invert, |a| a.invert());
#[no_mangle] pub extern "C" fn k_legendre(a: &Fp) -> i32 { a.legendre() }
#[no_mangle] pub extern "C" fn k_sqrt(r: &mut Fp, a: &Fp) -> u32 { let (x, c) = a.sqrt(); *r = x; c }
#[no_mangle] pub extern "C" fn k_fourth_root(r: &mut Fp, a: &Fp) -> u32 { let (x, c) = a.fourth_root(); *r = x; c }
#[no_mangle] pub extern "C" fn k_pow(r: &mut Fp, a: &Fp, b: *const u8, n: usize, off: usize, len: usize) { *r = a.pow_ext(unsafe { core::slice::from_raw_parts(b, n) }, off, len) }
#[no_mangle] pub extern "C" fn k_pow_plain(r: &mut Fp, a: &Fp, b: *const u8, n: usize, off: usize, len: usize) { *r = a.pow(unsafe { core::slice::from_raw_parts(b, n) }, len) }
#[no_mangle] pub extern "C" fn k_pow_big(r: &mut Fp, a: &Fp, lo: u64, hi: u64) { *r = a.pow_big(&num_bigint::BigUint::from((hi as u128) << 64 | lo as u128)) }
#[no_mangle] pub extern "C" fn k_iszero(a: &Fp) -> u32 { a.iszero() }
#[no_mangle] pub extern "C" fn k_equals(a: &Fp, b: &Fp) -> u32 { a.equals(b) }
#[no_mangle] pub extern "C" fn k_select(r: &mut Fp, a: &Fp, b: &Fp, c: u32) { *r = Fp::select(a, b, c) }
#[no_mangle] pub extern "C" fn k_set_cond(r: &mut Fp, a: &Fp, c: u32) { r.set_cond(a, c) }
#[no_mangle] pub extern "C" fn k_set_condneg(r: &mut Fp, c: u32) { r.set_condneg(c) }
#[no_mangle] pub extern "C" fn k_condswap(a: &mut Fp, b: &mut Fp, c: u32) { Fp::condswap(a, b, c) }

un!(k_condneg_no, |a| { let mut t = *a; t.set_condneg(0); t });
un!(k_condneg_yes, |a| { let mut t = *a; t.set_condneg(0xFFFFFFFF); t });

/// C02: tests, selections and swaps, all reduced operands (bit-precise, CBMC)
#[cfg(kani)]
mod proofs {
    use super::*;
    const P: [u64; 21] = Fp::MODULUS;
    fn below_p(w: &[u64; 21]) -> bool {
        let mut b = 0u64;
        for i in 0..21 {
            let (d, b1) = w[i].overflowing_sub(P[i]);
            let (_, b2) = d.overflowing_sub(b);
            b = (b1 | b2) as u64;
        }
        b == 1
    }
    fn any() -> [u64; 21] { let w: [u64; 21] = kani::any(); kani::assume(below_p(&w)); w }
    fn fp(w: [u64; 21]) -> Fp { unsafe { core::mem::transmute(w) } }
    fn words(x: Fp) -> [u64; 21] { unsafe { core::mem::transmute(x) } }
    fn same(a: &[u64; 21], b: &[u64; 21]) -> bool { let mut r = true; for i in 0..21 { r &= a[i] == b[i]; } r }
    fn ctl() -> u32 { if kani::any() { 0xFFFFFFFF } else { 0 } }
    #[kani::proof]
    #[kani::unwind(23)]
    fn iszero() {
        let a = any();
        let z = same(&a, &[0; 21]);
        kani::cover!(z);
        kani::cover!(!z);
        assert_eq!(fp(a).iszero(), if z { 0xFFFFFFFF } else { 0 }, "zero test");
    }
    #[kani::proof]
    #[kani::unwind(23)]
    fn equals() {
        let (a, b) = (any(), any());
        let z = same(&a, &b);
        kani::cover!(z);
        kani::cover!(!z);
        assert_eq!(fp(a).equals(&fp(b)), if z { 0xFFFFFFFF } else { 0 }, "equality test");
    }
    #[kani::proof]
    #[kani::unwind(23)]
    fn select() {
        let (a, b, c) = (any(), any(), ctl());
        kani::cover!(c == 0);
        kani::cover!(c != 0);
        let r = words(Fp::select(&fp(a), &fp(b), c));
        assert!(same(&r, if c == 0 { &a } else { &b }), "select");
    }
    #[kani::proof]
    #[kani::unwind(23)]
    fn set_cond() {
        let (a, b, c) = (any(), any(), ctl());
        let mut r = fp(a);
        r.set_cond(&fp(b), c);
        assert!(same(&words(r), if c == 0 { &a } else { &b }), "conditional copy");
    }
    #[kani::proof]
    #[kani::unwind(23)]
    fn condswap() {
        let (a, b, c) = (any(), any(), ctl());
        let (mut x, mut y) = (fp(a), fp(b));
        Fp::condswap(&mut x, &mut y, c);
        let (x, y) = (words(x), words(y));
        assert!(same(&x, if c == 0 { &a } else { &b }) && same(&y, if c == 0 { &b } else { &a }), "conditional swap");
    }
}
