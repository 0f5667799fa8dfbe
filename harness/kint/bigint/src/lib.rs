//! Machine-word stand-in for num-bigint: exact as long as every value fits (checked arithmetic).
//! The integer helpers of the repository are compiled against it so that CBMC sees plain machine arithmetic.
#![allow(non_camel_case_types)]
use core::cmp::Ordering;
use core::ops::*;
#[cfg(feature = "w16")]
type U = u16;
#[cfg(not(feature = "w16"))]
type U = u32;
#[cfg(feature = "w16")]
type I = i16;
#[cfg(not(feature = "w16"))]
type I = i32;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct BigUint(pub U);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct BigInt(pub I);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sign { Minus, NoSign, Plus }
pub trait ToBigInt { fn to_bigint(&self) -> Option<BigInt>; }
pub trait ToBigUint { fn to_biguint(&self) -> Option<BigUint>; }
impl ToBigInt for BigUint { fn to_bigint(&self) -> Option<BigInt> { assert!(self.0 <= I::MAX as U); Some(BigInt(self.0 as I)) } }
impl ToBigInt for BigInt { fn to_bigint(&self) -> Option<BigInt> { Some(self.clone()) } }
impl ToBigUint for BigInt { fn to_biguint(&self) -> Option<BigUint> { self.to_biguint() } }
impl BigInt {
    pub const ZERO: BigInt = BigInt(0);
    pub fn sign(&self) -> Sign { if self.0 < 0 { Sign::Minus } else if self.0 == 0 { Sign::NoSign } else { Sign::Plus } }
    pub fn to_biguint(&self) -> Option<BigUint> { if self.0 < 0 { None } else { Some(BigUint(self.0 as U)) } }
    pub fn magnitude(&self) -> BigUint { BigUint(self.0.unsigned_abs()) }
    pub fn from_biguint(s: Sign, m: BigUint) -> BigInt { match s { Sign::Minus => BigInt(-(m.0 as I)), _ => BigInt(m.0 as I) } }
}
impl BigUint {
    pub const ZERO: BigUint = BigUint(0);
    pub fn bits(&self) -> u64 { (U::BITS - self.0.leading_zeros()) as u64 }
    pub fn pow(&self, e: u32) -> BigUint { let mut r: U = 1; let mut i = 0; while i < e { r = r.checked_mul(self.0).unwrap(); i += 1 } BigUint(r) }
    pub fn from_slice(d: &[u32]) -> BigUint { BigUint::from(d[0]) }
    pub fn sqrt(&self) -> BigUint { let mut r: U = 0; while (r + 1) * (r + 1) <= self.0 { r += 1 } BigUint(r) }
    pub fn modpow(&self, e: &BigUint, m: &BigUint) -> BigUint { let mut r: U = 1 % m.0; let mut i = 0; while i < e.0 { r = r * self.0 % m.0; i += 1 } BigUint(r) }
    pub fn bit(&self, i: u64) -> bool { self.0 >> i & 1 == 1 }
    pub fn is_zero(&self) -> bool { self.0 == 0 }
    pub fn is_one(&self) -> bool { self.0 == 1 }
}
macro_rules! from { ($($t:ty),*) => { $(
    impl From<$t> for BigUint { fn from(x: $t) -> Self { BigUint(U::try_from(x).unwrap()) } }
    impl From<$t> for BigInt { fn from(x: $t) -> Self { BigInt(I::try_from(x).unwrap()) } }
)* } }
from!(u8, u16, u32, u64, usize);
impl From<i32> for BigInt { fn from(x: i32) -> Self { BigInt(x as I) } }
impl From<i64> for BigInt { fn from(x: i64) -> Self { BigInt(x as I) } }
impl From<BigUint> for BigInt { fn from(x: BigUint) -> Self { BigInt(x.0 as I) } }
macro_rules! bin { ($ty:ident, $p:ty, $tr:ident, $f:ident, $ta:ident, $fa:ident, $e:expr) => {
    impl $tr<$ty> for $ty { type Output = $ty; fn $f(self, o: $ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl $tr<&$ty> for $ty { type Output = $ty; fn $f(self, o: &$ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl $tr<$ty> for &$ty { type Output = $ty; fn $f(self, o: $ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl $tr<&$ty> for &$ty { type Output = $ty; fn $f(self, o: &$ty) -> $ty { $ty($e(self.0, o.0)) } }
    impl $ta<$ty> for $ty { fn $fa(&mut self, o: $ty) { self.0 = $e(self.0, o.0) } }
    impl $ta<&$ty> for $ty { fn $fa(&mut self, o: &$ty) { self.0 = $e(self.0, o.0) } }
} }
macro_rules! all { ($ty:ident, $p:ty) => {
    bin!($ty, $p, Add, add, AddAssign, add_assign, |a: $p, b: $p| a.checked_add(b).unwrap());
    bin!($ty, $p, Sub, sub, SubAssign, sub_assign, |a: $p, b: $p| a.checked_sub(b).unwrap());
    bin!($ty, $p, Mul, mul, MulAssign, mul_assign, |a: $p, b: $p| a.checked_mul(b).unwrap());
    bin!($ty, $p, Div, div, DivAssign, div_assign, |a: $p, b: $p| a / b);
    bin!($ty, $p, Rem, rem, RemAssign, rem_assign, |a: $p, b: $p| a % b);
} }
all!(BigUint, U);
all!(BigInt, I);
macro_rules! scal { ($t:ty) => {
    impl Mul<$t> for BigUint { type Output = BigUint; fn mul(self, o: $t) -> BigUint { self * BigUint::from(o) } }
    impl Mul<$t> for &BigUint { type Output = BigUint; fn mul(self, o: $t) -> BigUint { self * BigUint::from(o) } }
    impl Mul<&$t> for &BigUint { type Output = BigUint; fn mul(self, o: &$t) -> BigUint { self * BigUint::from(*o) } }
    impl MulAssign<$t> for BigUint { fn mul_assign(&mut self, o: $t) { *self *= BigUint::from(o) } }
    impl Add<$t> for BigUint { type Output = BigUint; fn add(self, o: $t) -> BigUint { self + BigUint::from(o) } }
    impl Add<$t> for &BigUint { type Output = BigUint; fn add(self, o: $t) -> BigUint { self + BigUint::from(o) } }
    impl AddAssign<$t> for BigUint { fn add_assign(&mut self, o: $t) { *self += BigUint::from(o) } }
    impl Sub<$t> for BigUint { type Output = BigUint; fn sub(self, o: $t) -> BigUint { self - BigUint::from(o) } }
    impl SubAssign<$t> for BigUint { fn sub_assign(&mut self, o: $t) { *self -= BigUint::from(o) } }
    impl Rem<$t> for BigUint { type Output = BigUint; fn rem(self, o: $t) -> BigUint { self % BigUint::from(o) } }
    impl Rem<$t> for &BigUint { type Output = BigUint; fn rem(self, o: $t) -> BigUint { self % BigUint::from(o) } }
    impl Rem<&$t> for &BigUint { type Output = BigUint; fn rem(self, o: &$t) -> BigUint { self % BigUint::from(*o) } }
    impl Div<$t> for BigUint { type Output = BigUint; fn div(self, o: $t) -> BigUint { self / BigUint::from(o) } }
    impl Div<$t> for &BigUint { type Output = BigUint; fn div(self, o: $t) -> BigUint { self / BigUint::from(o) } }
} }
scal!(u32); scal!(u64); scal!(usize);
impl Shr<usize> for BigUint { type Output = BigUint; fn shr(self, k: usize) -> BigUint { BigUint(self.0 >> k) } }
impl Shl<usize> for BigUint { type Output = BigUint; fn shl(self, k: usize) -> BigUint { BigUint(self.0 << k) } }
impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(-self.0) } }
impl Neg for &BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(-self.0) } }
impl core::fmt::Display for BigUint { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{}", self.0) } }
impl core::fmt::Display for BigInt { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { write!(f, "{}", self.0) } }
impl core::iter::Sum for BigUint { fn sum<It: Iterator<Item = BigUint>>(it: It) -> BigUint { it.fold(BigUint(0), |a, b| a + b) } }
impl core::iter::Product for BigUint { fn product<It: Iterator<Item = BigUint>>(it: It) -> BigUint { it.fold(BigUint(1), |a, b| a * b) } }
