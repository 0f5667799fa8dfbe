//! C05, C06, C07: the extension-field layer over a symbolic base field.
use crate::explore::Harness;
use crate::fields::FpFESTAExt::Fp2;
use crate::spec::*;
use crate::sym::*;
use num_bigint::BigUint;
use std::hash::{Hash, Hasher};

fn v(name: &str, x: Fp2, y: G) { veq(name, G::of(&x), y) }
const ON: u32 = !0;
/// all checks over both outcomes of a control word
fn ctlword(n: &str) -> u32 { if pick(n, 2) == 1 { ON } else { 0 } }
fn boolword(name: &str, w: u32) -> bool { check(name, w == 0 || w == ON); w == ON }

fn ring() {
    let (x, y) = (gvar("x"), gvar("y"));
    let (a, b) = (x.fq(), y.fq());
    v("add", a + b, x + y); v("add &", &a + &b, x + y); v("add v&", a + &b, x + y); v("add &v", &a + b, x + y);
    let mut t = a; t += b; v("+=", t, x + y);
    let mut t = a; t += &b; v("+= &", t, x + y);
    v("sub", a - b, x - y); v("sub &", &a - &b, x - y); v("sub v&", a - &b, x - y); v("sub &v", &a - b, x - y);
    let mut t = a; t -= b; v("-=", t, x - y);
    let mut t = a; t -= &b; v("-= &", t, x - y);
    v("neg", -a, -x); v("neg &", -&a, -x);
    let mut t = a; t.set_neg(); v("set_neg", t, -x);
    v("conj", a.conj(), G(x.0, -x.1));
    let mut t = a; t.set_conj(); v("set_conj", t, G(x.0, -x.1));
    let h = (prime() as i64 + 1) / 2;
    v("half", a.half(), G::c(h) * x);
    let mut t = a; t.set_half(); v("set_half", t, G::c(h) * x);
    v("mul2", a.mul2(), G::c(2) * x); let mut t = a; t.set_mul2(); v("set_mul2", t, G::c(2) * x);
    v("mul3", a.mul3(), G::c(3) * x); let mut t = a; t.set_mul3(); v("set_mul3", t, G::c(3) * x);
    v("mul4", a.mul4(), G::c(4) * x); let mut t = a; t.set_mul4(); v("set_mul4", t, G::c(4) * x);
    v("mul8", a.mul8(), G::c(8) * x); let mut t = a; t.set_mul8(); v("set_mul8", t, G::c(8) * x);
    for k in [0, 1, -1, 2, 5, -7, 1000003, i32::MAX, i32::MIN] {
        v("mul_small", a.mul_small(k), G::c(k as i64) * x);
        let mut t = a; t.set_mul_small(k); v("set_mul_small", t, G::c(k as i64) * x);
    }
    check("consts", true);
    v("ZERO", Fp2::ZERO, G::c(0)); v("ONE", Fp2::ONE, G::c(1)); v("TWO", Fp2::TWO, G::c(2)); v("THREE", Fp2::THREE, G::c(3));
    v("FOUR", Fp2::FOUR, G::c(4)); v("MINUS_ONE", Fp2::MINUS_ONE, G::c(-1)); v("ZETA", Fp2::ZETA, G(cst(0), cst(1)));
    v("MINUS_ZETA", Fp2::MINUS_ZETA, G(cst(0), cst(-1)));
}
fn mul() {
    let (x, y) = (gvar("x"), gvar("y"));
    let (a, b) = (x.fq(), y.fq());
    let m = x * y;
    v("mul", a * b, m); v("mul &", &a * &b, m); v("mul v&", a * &b, m); v("mul &v", &a * b, m);
    let mut t = a; t *= b; v("*=", t, m);
    let mut t = a; t *= &b; v("*= &", t, m);
    let mut t = a; t.set_mul(&b); v("set_mul", t, m);
    v("mul_new", a.mul_new(b), m); v("mul_old", a.mul_old(b), m);
    v("square", a.square(), x * x);
    let mut t = a; t.set_square(); v("set_square", t, x * x);
    let c = a; v("a*a", &c * &c, x * x);
}
fn div() {
    let (x, y) = (gvar("x"), gvar("y"));
    let (a, b) = (x.fq(), y.fq());
    let mut t1 = a; t1 /= b;
    let mut t2 = a; t2 /= &b;
    let mut i2 = b; i2.set_invert();
    let qs = [("/", a / b), ("/ &", &a / &b), ("/ v&", a / &b), ("/ &v", &a / b), ("/=", t1), ("/= &", t2)];
    let is = [("invert", b.invert()), ("set_invert", i2)];
    if y.is0() {
        for (n, q) in qs { v(n, q, G::c(0)) }
        for (n, q) in is { v(n, q, G::c(0)) }
    } else {
        for (n, q) in qs { v(n, G::of(&q).fq() * b, x); v(n, (G::of(&q) * y).fq(), x) }
        for (n, q) in is { veq(n, G::of(&q) * y, G::c(1)) }
    }
}
fn batch_n(n: usize, sym: &[usize]) {
    let xs: Vec<G> = (0..n).map(|i| if sym.contains(&i) { gvar(&format!("x{i}_")) } else { G::c(i as i64 * 3 + 1) + G(cst(0), cst(i as i64)) }).collect();
    let mut f: Vec<Fp2> = xs.iter().map(|x| x.fq()).collect();
    Fp2::batch_invert(&mut f);
    for (x, r) in xs.iter().zip(f) {
        if x.is0() { v("batch 0", r, G::c(0)) } else { veq("batch", G::of(&r) * *x, G::c(1)) }
    }
    check("returned", true);
}
fn batch() {
    match pick("n", 5) {
        0 => batch_n(0, &[]), 1 => batch_n(1, &[0]), 2 => batch_n(2, &[0, 1]), 3 => batch_n(3, &[0, 1, 2]),
        _ => batch_n(5, &[0, 2, 4]),
    }
}
fn batch_long() {
    match pick("n", 3) { 0 => batch_n(200, &[0, 199]), 1 => batch_n(201, &[0, 200]), _ => batch_n(403, &[199, 200, 402]) }
}
const EXPS: [u64; 40] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 27, 31, 32, 33, 47, 63, 64, 85, 127, 128, 170, 255, 256, 257,
    0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0001, 0x8000_0000_0000_0000, u64::MAX];
fn pows() {
    let x = gvar("x");
    let a = x.fq();
    let e = EXPS[pick("e", EXPS.len() as u32) as usize];
    let want = x.pow(e);
    let n = 64 - e.leading_zeros() as usize;
    let eb = e.to_le_bytes();
    v("pow", a.pow(&eb, n), want);
    v("pow long", a.pow(&eb, 64), want);
    let mut t = a; t.set_pow(&eb, n); v("set_pow", t, want);
    if e <= u32::MAX as u64 { v("pow_small", a.pow_small(e as u32), want); }
    v("pow_big", a.pow_big(&BigUint::from(e)), want);
    v("pow_u64", a.pow_u64(e, n), want);
    v("pow_u64 64", a.pow_u64(e, 64), want);
    let mut t = a; t.set_pow_u64(e, 64); v("set_pow_u64", t, want);
    v("pow_u64_vartime", a.pow_u64_vartime(e), want);
    let mut t = a; t.set_pow_u64_vartime(e); v("set_pow_u64_vartime", t, want);
    let off = [0usize, 1, 3, 7, 8, 13][pick("off", 6) as usize];
    let sh = ((e as u128) << off | ((1u128 << off) - 1)).to_le_bytes();
    let mut sh = sh; // junk above the stated length must be ignored
    let top = off + n;
    if top < 128 { sh[top >> 3] |= (0xffu16 << (top & 7)) as u8; if (top >> 3) + 1 < 16 { sh[(top >> 3) + 1] = 0xff; } }
    v("pow_ext", a.pow_ext(&sh, off, n), want);
    let mut t = a; t.set_pow_ext(&sh, off, n); v("set_pow_ext", t, want);
}

// ---- C06 ---------------------------------------------------------------------------------------
fn legendre() {
    let x = gvar("x");
    let l = x.fq().legendre();
    let p = prime() as u64;
    check("legendre range", l == 0 || l == 1 || l == -1);
    if l == 0 { veq("legendre 0", x, G::c(0)) }
    veq("legendre", x.pow((p * p - 1) / 2), G::c(l as i64));
}
fn sign0(name: &str, y: G) {
    let odd = set_odd(prime());
    if test(y.0, 1) { check_in(name, y.1, odd, false) } else { check_in(name, y.0, odd, false) }
}
fn sqrt() {
    let x = gvar("x");
    let p = prime() as u64;
    let (y, r) = x.fq().sqrt();
    let y = G::of(&y);
    let mut t = x.fq(); let r2 = t.set_sqrt();
    check("same status", r == r2);
    veq("set_sqrt", G::of(&t), y);
    if boolword("sqrt word", r) {
        veq("sqrt^2", y * y, x);
        sign0("sqrt sign", y);
    } else {
        veq("sqrt zero", y, G::c(0));
        veq("sqrt nonsq", x.pow((p * p - 1) / 2), G::c(-1));
    }
}
fn fourth() {
    let x = gvar("x");
    let p = prime() as u64;
    let (y, r) = x.fq().fourth_root();
    let y = G::of(&y);
    let mut t = x.fq(); let r2 = t.set_fourth_root();
    check("same status", r == r2);
    veq("set_fourth_root", G::of(&t), y);
    if boolword("fourth word", r) {
        veq("fourth^4", y * y * (y * y), x);
        sign0("fourth sign", y);
    } else {
        veq("fourth zero", y, G::c(0));
        // not a fourth power: x != 0 and x^((p^2-1)/4) != 1
        check_nonzero("fourth x!=0", x.norm());
        check_nonzero("fourth none", (x.pow((p * p - 1) / 4) - G::c(1)).norm());
    }
}
struct NoRng;
impl rand_core::RngCore for NoRng {
    fn next_u32(&mut self) -> u32 { 0 }
    fn next_u64(&mut self) -> u64 { 0 }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { d.fill(0); Ok(()) }
}
impl rand_core::CryptoRng for NoRng {}
fn nonsquare() {
    let p = prime() as u64;
    let x = G::of(&Fp2::ZERO.rand_nonsquare(&mut NoRng));
    veq("rand_nonsquare", x.pow((p * p - 1) / 2), G::c(-1));
    let mut t = Fp2::ZERO; t.set_rand_nonsquare(&mut NoRng);
    veq("set_rand_nonsquare", G::of(&t).pow((p * p - 1) / 2), G::c(-1));
}

// ---- C07 ---------------------------------------------------------------------------------------
struct Rec(Vec<u64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for c in b { self.0.push(*c as u64 | 1 << 63) } }
    fn write_u64(&mut self, x: u64) { self.0.push(x) }
}
fn equality() {
    let (x, y) = (gvar("x"), gvar("y"));
    let (a, b) = (x.fq(), y.fq());
    let e = boolword("equals word", a.equals(&b));
    if e { veq("equal", x, y) } else { check_nonzero("different", (x - y).norm()) }
    check("==", (a == b) == e);
    check("!=", (a != b) != e);
    let z = boolword("iszero word", a.iszero());
    if z { veq("zero", x, G::c(0)) } else { check_nonzero("nonzero", x.norm()) }
    if e {
        let (mut h1, mut h2) = (Rec(vec![]), Rec(vec![]));
        a.hash(&mut h1); b.hash(&mut h2);
        check("hash length", h1.0.len() == h2.0.len());
        for (u, w) in h1.0.iter().zip(&h2.0) {
            if u >> 63 == 1 || w >> 63 == 1 { check("hash raw", u == w) } else { check_eq("hash", Fp(*u as u32), Fp(*w as u32)) }
        }
    }
}
fn encoding() {
    let x = gvar("x");
    let b = x.fq().encode();
    check("length", b.len() == Fp2::ENCODED_LENGTH && b.len() == 16);
    let (y, r) = Fp2::decode(&b);
    check("decode ok", r == ON);
    v("decode(encode)", y, x);
    // each half is the encoding of one coordinate, real part first
    let (r0, c0) = Fp::decode(&b[..8]); let (r1, c1) = Fp::decode(&b[8..]);
    check("halves", c0 == ON && c1 == ON);
    check_eq("half 0", r0, x.0); check_eq("half 1", r1, x.1);
    // non-canonical halves
    let mut bad = b;
    let which = pick("which", 3);
    if which != 1 { bad[7] = 1 } if which != 0 { bad[15] = 1 }
    let (y, r) = Fp2::decode(&bad);
    check("bad rejected", r == 0);
    v("bad is zero", y, G::c(0));
    // wrong lengths
    let mut long = b.to_vec(); long.extend_from_slice(&b); long.push(0);
    let n = [0usize, 1, 7, 8, 9, 15, 17, 24, 32, 33][pick("len", 10) as usize];
    let (y, r) = Fp2::decode(&long[..n]);
    check("length rejected", r == 0);
    v("length zero", y, G::c(0));
}
fn conds() {
    let (x, y) = (gvar("x"), gvar("y"));
    let (a, b) = (x.fq(), y.fq());
    let c = ctlword("c");
    let on = c == ON;
    v("select", Fp2::select(&a, &b, c), if on { y } else { x });
    let mut t = Fp2::ZETA; t.set_select(&a, &b, c); v("set_select", t, if on { y } else { x });
    let mut t = a; t.set_cond(&b, c); v("set_cond", t, if on { y } else { x });
    let mut t = a; t.set_condneg(c); v("set_condneg", t, if on { -x } else { x });
    let (mut s, mut t) = (a, b); Fp2::condswap(&mut s, &mut t, c);
    v("swap 0", s, if on { y } else { x }); v("swap 1", t, if on { x } else { y });
    let (p, q) = a.get_coeff(); check_eq("coeff 0", p, x.0); check_eq("coeff 1", q, x.1);
    v("new", Fp2::new(&x.0, &x.1), x);
    let mut t = Fp2::ZERO; t.set_rand(&mut NoRng); let g = G::of(&t);
    check("rand", conc(g.0).is_none() || !is_sym());
}
pub fn list() -> Vec<(&'static str, Harness)> {
    vec![("c05_ring", ring as Harness), ("c05_mul", mul), ("c05_div", div), ("c05_batch", batch), ("c05_batch_long", batch_long), ("c05_pow", pows),
         ("c06_legendre", legendre), ("c06_sqrt", sqrt), ("c06_fourth", fourth), ("c06_nonsquare", nonsquare),
         ("c07_equality", equality), ("c07_encoding", encoding), ("c07_conds", conds)]
}
