#![allow(non_snake_case, unused, dead_code, non_upper_case_globals)]
//! Prints the constants of the crate as rustc evaluates them, one JSON line.
#[path = "/repo/src/finitefield/mod.rs"]
pub mod finitefield;
pub mod fields { include!(concat!(env!("OUT_DIR"), "/fields.rs")); }
use fields::{FpFESTA as F, FpFESTAExt as X};
trait Show { fn show(&self) -> String; }
fn list<T: Show>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")) }
macro_rules! num { ($($t:ty)*) => { $(impl Show for $t { fn show(&self) -> String { format!("{}", self) } })* } }
num!(u8 u16 u32 u64 usize i32 i64);
impl<T: Show, const K: usize> Show for [T; K] { fn show(&self) -> String { list(self) } }
impl<T: Show> Show for &[T] { fn show(&self) -> String { list(self) } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> String { format!("[{},{}]", self.0.show(), self.1.show()) } }
impl Show for F::Fp { fn show(&self) -> String { let w: [u64; F::N] = unsafe { core::mem::transmute_copy(self) }; list(&w) } }
macro_rules! p { ($($m:ident :: $n:ident)*) => { println!("{{{}}}", [$(format!("\"{}\":{}", stringify!($n), $m::$n.show())),*].join(",")) } }
type P = F::Fp;
fn main() {
    p!(F::N F::BITLEN F::MODULUS F::HALF_MODULUS F::R_VAL F::MINUS_R_VAL F::DR_VAL F::TR_VAL F::QR_VAL F::R2_VAL F::P0I F::TFIXDIV_VAL
       F::TDEC_VAL F::WIN_LEN F::SQRT_EH F::SQRT_EL F::FOURTH_ROOT_EH F::FOURTH_ROOT_EL F::P1 F::P1DIV_M
       X::NQR_RE X::P0x X::P0y X::Q0x X::Q0y X::D1 X::D1_FACTORED X::D2 X::D2_FACTORED X::DA X::DA_FACTORED X::DA1 X::DA1_FACTORED
       X::DA2 X::DA2_FACTORED X::M1 X::M2 X::L_POWER X::THETA_ISOGENY_LENGTH X::BASIS_ORDER X::BIGUINT_MODULUS X::THETA_STRATEGY
       P::ZERO P::ONE P::TWO P::THREE P::FOUR P::MINUS_ONE P::BIT_LENGTH P::ENCODED_LENGTH);
}
