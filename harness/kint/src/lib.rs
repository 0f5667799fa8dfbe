#![allow(non_snake_case, unused, dead_code)]
//! The integer helpers of discrete_log.rs under Kani/CBMC: all values of the arguments within a bit width.
#[path = "/repo/src/discrete_log.rs"]
pub mod discrete_log;
/// the generic group pieces are not executed here (see harness/grp)
pub mod ecFESTA {
    use core::ops::*;
    use num_bigint::BigUint;
    #[derive(Clone, Copy)]
    pub struct Fq;
    impl Fq {
        pub const ONE: Fq = Fq;
        pub fn equals(self, _o: &Fq) -> u32 { unimplemented!() }
        pub fn invert(self) -> Fq { unimplemented!() }
        pub fn square(self) -> Fq { unimplemented!() }
        pub fn pow_small(self, _k: u32) -> Fq { unimplemented!() }
        pub fn pow_big(self, _k: &BigUint) -> Fq { unimplemented!() }
        pub fn pow(self, _k: &[u8], _n: usize) -> Fq { unimplemented!() }
        pub fn encode(self) -> [u8; 2] { unimplemented!() }
        pub fn hashcode(self) -> u64 { unimplemented!() }
    }
    impl Mul<Fq> for Fq { type Output = Fq; fn mul(self, _o: Fq) -> Fq { unimplemented!() } }
    impl Mul<&Fq> for Fq { type Output = Fq; fn mul(self, _o: &Fq) -> Fq { unimplemented!() } }
    impl Mul<Fq> for &Fq { type Output = Fq; fn mul(self, _o: Fq) -> Fq { unimplemented!() } }
    impl Mul<&Fq> for &Fq { type Output = Fq; fn mul(self, _o: &Fq) -> Fq { unimplemented!() } }
    impl MulAssign<Fq> for Fq { fn mul_assign(&mut self, _o: Fq) { unimplemented!() } }
    impl MulAssign<&Fq> for Fq { fn mul_assign(&mut self, _o: &Fq) { unimplemented!() } }
    impl PartialEq for Fq { fn eq(&self, _o: &Fq) -> bool { unimplemented!() } }
    #[derive(Clone, Copy)]
    pub struct Point;
    impl Neg for Point { type Output = Point; fn neg(self) -> Point { unimplemented!() } }
    impl Neg for &Point { type Output = Point; fn neg(self) -> Point { unimplemented!() } }
    #[derive(Clone, Copy)]
    pub struct Curve;
}
pub mod pairing {
    use crate::ecFESTA::*;
    pub fn weil_pairing(_E: &Curve, _P: &Point, _Q: &Point, _d: &num_bigint::BigUint) -> Fq { unimplemented!() }
}

pub mod lists;
#[cfg(kani)]
mod proofs {
    use crate::discrete_log::*;
    use num_bigint::BigUint;
    use crate::lists::*;
    fn inverse(w: u32) {
        let (a, b): (u16, u16) = (kani::any(), kani::any());
        kani::assume(a < 1 << w && b < 1 << w && a >= 1 && b >= 2);
        // a is invertible modulo b: witnessed by an inverse (no gcd loop in the specification)
        let inv: u16 = kani::any();
        kani::assume(inv < b && a * inv % b == 1);
        let r = xgcd_big(&BigUint::from(a), &BigUint::from(b)).0 as u16;
        assert!(r == inv, "xgcd_big returns the inverse of a modulo b");
        kani::cover!(a > b);
        kani::cover!(a < b && r > 1);
    }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn inverse_5() { inverse(5) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn inverse_6() { inverse(6) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(14)]
    fn inverse_8() { inverse(8) }

    fn crt(f: &[(u32, u32)]) {
        let mut r = vec![];
        let mut m = 1u32;
        let mut v = [0u32; 4];
        for i in 0..f.len() {
            let q = f[i].0.pow(f[i].1);
            m *= q;
            let x: u32 = kani::any();
            kani::assume(x < q);
            v[i] = x;
            r.push(BigUint::from(x));
        }
        let x = u32::try_from(compute_crt(&r, f).0).unwrap();
        assert!(x < m, "compute_crt: result below the modulus");
        for i in 0..f.len() { assert!(x % f[i].0.pow(f[i].1) == v[i], "compute_crt: result has the given remainders"); }
        kani::cover!(x > 1);
    }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(9)]
    fn crt_small() {
        match kani::any::<u8>() {
            0 => crt(CRT_SMALL[0]), 1 => crt(CRT_SMALL[1]), 2 => crt(CRT_SMALL[2]), 3 => crt(CRT_SMALL[3]),
            4 => crt(CRT_SMALL[4]), 5 => crt(CRT_SMALL[5]), 6 => crt(CRT_SMALL[6]), _ => crt(CRT_SMALL[7]),
        }
    }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn crt_medium_0() { crt(CRT_MEDIUM[0]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn crt_medium_1() { crt(CRT_MEDIUM[1]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn crt_medium_2() { crt(CRT_MEDIUM[2]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn crt_medium_3() { crt(CRT_MEDIUM[3]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn crt_medium_4() { crt(CRT_MEDIUM[4]) }

    fn sqrt(lo: u32, hi: u32) {
        let n: u32 = kani::any();
        kani::assume(lo <= n && n <= hi);
        let r = sqrt_floor(n) as u64;
        assert!(r * r <= n as u64, "sqrt_floor is not too large");
        assert!((r + 1) * (r + 1) > n as u64, "sqrt_floor is not too small");
        kani::cover!(r * r == n as u64);
        kani::cover!(r * r < n as u64);
    }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(12)]
    fn sqrt_10() { sqrt(0, (1 << 10) - 1) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(18)]
    fn sqrt_16() { sqrt(0, (1 << 16) - 1) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_top() { sqrt(u32::MAX - (1 << 17), u32::MAX) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_32() { sqrt(0, u32::MAX) }
    /// all n within 2^9 of the square of one of the listed roots
    fn window(r0: u32) {
        let n: u32 = kani::any();
        kani::assume(n >= r0 * r0 - 512 && n - (r0 * r0 - 512) < 1024);
        let r = sqrt_floor(n) as u64;
        assert!(r * r <= n as u64, "sqrt_floor is not too large");
        assert!((r + 1) * (r + 1) > n as u64, "sqrt_floor is not too small");
        kani::cover!(r == r0 as u64);
        kani::cover!(r < r0 as u64);
    }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_0() { window(ROOTS[0]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_1() { window(ROOTS[1]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_2() { window(ROOTS[2]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_3() { window(ROOTS[3]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_4() { window(ROOTS[4]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_5() { window(ROOTS[5]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_6() { window(ROOTS[6]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_7() { window(ROOTS[7]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_8() { window(ROOTS[8]) }
    #[kani::proof]
    #[kani::solver(cadical)]
    #[kani::unwind(34)]
    fn sqrt_win_9() { window(ROOTS[9]) }
}
