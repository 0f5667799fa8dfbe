//! Symbolic prime field.  `Fp` is a handle to a term over GF(p), p a small prime chosen at run time.
//! In symbolic mode every operation builds a (hash-consed) term and every test is a fork point of the
//! path explorer; in concrete mode (replay) a handle is simply a value.
use core::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use rand_core::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(u32),
    Var(u32),
    Add(u32, u32),
    Mul(u32, u32),
    /// affine a*x+b (a,b constants, a != 0)
    Aff(u32, u32, u32),
    /// x^-1 with 0 -> 0
    Inv(u32),
    /// square root: even root or 0
    Sqrt(u32),
    /// fourth root: even root or 0
    Frt(u32),
    Sq(u32),
    /// value table number .0 at .1
    Tab(u32, u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    /// fork or forced test "node in set": (node, set bitmask, truth)
    Dec(u32, u128, bool),
    /// assumption "node in set" == truth (no fork)
    Ass(u32, u128, bool),
    /// choice k of n (free)
    Pick(u32, u32),
}

#[derive(Clone, Debug)]
pub struct Obl {
    pub name: String,
    /// None: the path itself must be infeasible; Some((node,set,truth)): must hold
    pub lit: Option<(u32, u128, bool)>,
}

pub struct Cx {
    pub p: u32,
    /// p is prime (the harness crate `grp` also uses Z/N for composite N, without divisions)
    pub field: bool,
    pub sym: bool,
    pub nodes: Vec<Node>,
    /// value table of every node that depends on a single variable: (variable, value per variable value)
    pub uni: Vec<Option<(u32, std::sync::Arc<[u8]>)>>,
    /// values of each variable that are consistent with the single-variable events so far
    pub dom: HashMap<u32, u128>,
    pub cons: HashMap<Node, u32>,
    pub vars: Vec<(String, u32)>,
    pub ev: Vec<Ev>,
    /// indices into ev of real forks
    pub forks: Vec<usize>,
    pub prefix: Vec<u32>,
    pub pos: usize,
    pub known: HashMap<(u32, u128), bool>,
    pub obl: Vec<Obl>,
    pub picks: Vec<(String, u32)>,
    // concrete mode
    pub model: HashMap<String, u32>,
    pub reached: HashMap<String, u32>,
    /// operations on this path (a path that never ends is reported as a panic)
    pub ops: u64,
}
const OP_LIMIT: u64 = 30_000_000;

thread_local! { pub static CX: RefCell<Option<Cx>> = RefCell::new(None); }

pub struct Stop; // assumption failed (panic payload)

const CB: u32 = 0x8000_0000; // constant handle

fn with<R>(f: impl FnOnce(&mut Cx) -> R) -> R {
    CX.with(|c| {
        let mut g = c.borrow_mut();
        let cx = g.as_mut().expect("no context");
        cx.ops += 1;
        if cx.ops > OP_LIMIT { panic!("no end after {OP_LIMIT} field operations"); }
        f(cx)
    })
}

pub static TABS: std::sync::RwLock<Vec<Vec<u32>>> = std::sync::RwLock::new(vec![]);
/// table[x] (0 beyond its end)
pub fn lookup(x: Fp, table: &[u32]) -> Fp {
    if let Some(v) = conc(x) { return cst(*table.get(v as usize).unwrap_or(&0) as i64); }
    let mut g = TABS.write().unwrap();
    let id = match g.iter().position(|t| t == table) { Some(i) => i, None => { g.push(table.to_vec()); g.len() - 1 } } as u32;
    drop(g);
    with(|c| Fp(c.mk(Node::Tab(id, x.0))))
}
pub fn tab(id: u32, v: u32) -> u32 { *TABS.read().unwrap()[id as usize].get(v as usize).unwrap_or(&0) }

pub fn inv_mod(a: u32, p: u32) -> u32 {
    if a % p == 0 {
        return 0;
    }
    let (mut r, mut b, mut e) = (1u64, a as u64 % p as u64, p - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p as u64;
        }
        b = b * b % p as u64;
        e >>= 1;
    }
    r as u32
}
pub fn sqrt_mod(a: u32, p: u32) -> Option<u32> {
    (0..p).find(|&r| r % 2 == 0 && r * r % p == a)
}
pub fn frt_mod(a: u32, p: u32) -> Option<u32> {
    (0..p).find(|&r| r % 2 == 0 && r * r % p * r % p * r % p == a)
}
pub fn set_qr(p: u32) -> u128 {
    (1..p).filter(|&a| (1..p).any(|r| r * r % p == a)).fold(0, |s, a| s | 1 << a)
}
pub fn set_4th(p: u32) -> u128 {
    (0..p).filter(|&a| frt_mod(a, p).is_some()).fold(0, |s, a| s | 1 << a)
}
pub fn set_odd(p: u32) -> u128 {
    (0..p).filter(|a| a & 1 == 1).fold(0, |s, a| s | 1 << a)
}

impl Cx {
    pub fn new(p: u32, sym: bool) -> Cx {
        Cx {
            p, field: (2..p).all(|d| p % d != 0), sym, nodes: vec![], uni: vec![], dom: HashMap::new(), cons: HashMap::new(), vars: vec![], ev: vec![], forks: vec![],
            prefix: vec![], pos: 0, known: HashMap::new(), obl: vec![], picks: vec![],
            model: HashMap::new(), reached: HashMap::new(), ops: 0,
        }
    }
    fn mk(&mut self, n: Node) -> u32 {
        if let Some(&h) = self.cons.get(&n) {
            return h;
        }
        let h = self.nodes.len() as u32;
        let u = self.table(h, n);
        self.nodes.push(n);
        self.uni.push(u);
        self.cons.insert(n, h);
        h
    }
    fn table(&self, h: u32, n: Node) -> Option<(u32, std::sync::Arc<[u8]>)> {
        let p = self.p;
        let one = |x: u32, f: &dyn Fn(u32) -> u32| self.uni[x as usize].as_ref().map(|(v, t)| (*v, t.iter().map(|&i| f(i as u32) as u8).collect()));
        let two = |x: u32, y: u32, f: &dyn Fn(u32, u32) -> u32| match (self.cv(x), self.cv(y)) {
            (Some(a), _) => one(y, &|b| f(a, b)),
            (_, Some(b)) => one(x, &|a| f(a, b)),
            _ => match (&self.uni[x as usize], &self.uni[y as usize]) {
                (Some((v, t)), Some((w, u))) if v == w => Some((*v, t.iter().zip(u.iter()).map(|(&a, &b)| f(a as u32, b as u32) as u8).collect())),
                _ => None,
            },
        };
        match n {
            Node::Const(_) => None,
            Node::Var(_) => Some((h, (0..p as u8).collect())),
            Node::Add(x, y) => two(x, y, &|a, b| (a + b) % p),
            Node::Mul(x, y) => two(x, y, &|a, b| a * b % p),
            Node::Aff(a, x, b) => one(x, &|v| (a * v + b) % p),
            Node::Inv(x) => one(x, &|v| inv_mod(v, p)),
            Node::Sqrt(x) => one(x, &|v| sqrt_mod(v, p).unwrap_or(0)),
            Node::Frt(x) => one(x, &|v| frt_mod(v, p).unwrap_or(0)),
            Node::Sq(x) => one(x, &|v| v * v % p),
            Node::Tab(t, x) => { let g = TABS.read().unwrap(); let g = &g[t as usize]; one(x, &|v| *g.get(v as usize).unwrap_or(&0)) }
        }
    }
    /// (variable, its values so far, those of them that put x into set)
    fn narrowed(&self, x: u32, set: u128) -> Option<(u32, u128, u128)> {
        let (v, t) = self.uni[x as usize].as_ref()?;
        let d = *self.dom.get(v).unwrap_or(&((1u128 << self.p) - 1));
        let mut s = 0u128;
        for (i, &y) in t.iter().enumerate() { if d >> i & 1 == 1 && set >> y & 1 == 1 { s |= 1 << i; } }
        Some((*v, d, s))
    }
    fn narrow(&mut self, x: u32, set: u128, truth: bool) {
        if let Some((v, d, s)) = self.narrowed(x, set) { self.dom.insert(v, if truth { s } else { d & !s }); }
    }
    fn cv(&self, h: u32) -> Option<u32> {
        if h == CB | MINUS1 { Some(self.p - 1) } else if h & CB != 0 { Some((h & !CB) % self.p) } else { None }
    }
    fn c(&self, v: u32) -> u32 { CB | (v % self.p) }
    /// view as (a, x, b): a*x+b
    fn aff(&self, h: u32) -> (u32, u32, u32) {
        match self.nodes[h as usize] {
            Node::Aff(a, x, b) => (a, x, b),
            _ => (1, h, 0),
        }
    }
    fn mkaff(&mut self, a: u32, x: u32, b: u32) -> u32 {
        if a == 0 { return self.c(b); }
        let (a2, x2, b2) = self.aff(x);
        let p = self.p;
        let (na, nb) = (a * a2 % p, (a * b2 + b) % p);
        if na == 1 && nb == 0 { return x2; }
        self.mk(Node::Aff(na, x2, nb))
    }
    fn add(&mut self, x: u32, y: u32) -> u32 {
        let p = self.p;
        match (self.cv(x), self.cv(y)) {
            (Some(a), Some(b)) => self.c(a + b),
            (Some(a), None) => self.mkaff(1, y, a),
            (None, Some(b)) => self.mkaff(1, x, b),
            _ => {
                let (a1, x1, b1) = self.aff(x);
                let (a2, x2, b2) = self.aff(y);
                if x1 == x2 {
                    return self.mkaff((a1 + a2) % p, x1, (b1 + b2) % p);
                }
                if !self.field {
                    let (u, v) = (self.mkaff(a1, x1, 0), self.mkaff(a2, x2, 0));
                    let s = self.mk(Node::Add(u.min(v), u.max(v)));
                    return self.mkaff(1, s, (b1 + b2) % p);
                }
                // a1*x1 + a2*x2 + b = a1*(x1 + (a2/a1)*x2) + b, ordered
                let ((a1, x1), (a2, x2)) = if x1 < x2 { ((a1, x1), (a2, x2)) } else { ((a2, x2), (a1, x1)) };
                let k = a2 * inv_mod(a1, p) % p;
                let y2 = self.mkaff(k, x2, 0);
                let s = self.mk(Node::Add(x1, y2));
                self.mkaff(a1, s, (b1 + b2) % p)
            }
        }
    }
    fn mul(&mut self, x: u32, y: u32) -> u32 {
        let p = self.p;
        match (self.cv(x), self.cv(y)) {
            (Some(a), Some(b)) => self.c((a as u64 * b as u64 % p as u64) as u32),
            (Some(a), None) => self.mkaff(a, y, 0),
            (None, Some(b)) => self.mkaff(b, x, 0),
            _ => {
                if !self.field {
                    return if x == y { self.mk(Node::Sq(x)) } else { self.mk(Node::Mul(x.min(y), x.max(y))) };
                }
                // pull out scalar factors of purely linear terms
                let (mut a1, mut x1, b1) = self.aff(x);
                if b1 != 0 {
                    let t = b1 * inv_mod(a1, p) % p;
                    x1 = self.mkaff(1, x1, t);
                }
                let (mut a2, mut x2, b2) = self.aff(y);
                if b2 != 0 {
                    let t = b2 * inv_mod(a2, p) % p;
                    x2 = self.mkaff(1, x2, t);
                }
                if x1 > x2 { core::mem::swap(&mut x1, &mut x2); core::mem::swap(&mut a1, &mut a2); }
                let m = if x1 == x2 { self.mk(Node::Sq(x1)) } else { self.mk(Node::Mul(x1, x2)) };
                self.mkaff(a1 * a2 % p, m, 0)
            }
        }
    }
    fn un(&mut self, x: u32, f: impl Fn(u32, u32) -> u32, n: Node) -> u32 {
        match self.cv(x) { Some(a) => { let v = f(a, self.p); self.c(v) } None => self.mk(n) }
    }
    pub fn known_in(&self, x: u32, set: u128) -> Option<bool> {
        if let Some(a) = self.cv(x) { return Some(set >> a & 1 == 1); }
        let full = if self.p == 128 { !0 } else { (1u128 << self.p) - 1 };
        let set = set & full;
        if set == 0 { return Some(false); }
        if set == full { return Some(true); }
        if let Some(&b) = self.known.get(&(x, set)) { return Some(b); }
        if let Some(&b) = self.known.get(&(x, full & !set)) { return Some(!b); }
        if let Some((_, d, s)) = self.narrowed(x, set) {
            if s == d { return Some(true); }
            if s == 0 { return Some(false); }
            return None;
        }
        // implied by other facts about the same node
        for (&(y, s), &b) in self.known.iter() {
            if y == x {
                let s = if b { s } else { full & !s }; // x in s
                if s & !set == 0 { return Some(true); }
                if s & set == 0 { return Some(false); }
            }
        }
        None
    }
    /// rewrite "a*x+b in set" to "x in set'"
    fn root(&self, x: u32, set: u128) -> (u32, u128) {
        if x & CB != 0 { return (x, set); }
        let (a, y, b) = self.aff(x);
        if (a, b) == (1, 0) { return (x, set); }
        let mut s = 0u128;
        for v in 0..self.p { if set >> ((a * v + b) % self.p) & 1 == 1 { s |= 1 << v; } }
        (y, s)
    }
    fn decide(&mut self, x: u32, set: u128) -> bool {
        let (x, set) = self.root(x, set);
        if let Some(b) = self.known_in(x, set) { return b; }
        let b = if self.pos < self.prefix.len() { self.prefix[self.pos] == 1 } else { false };
        if self.pos >= self.prefix.len() { self.prefix.push(0); }
        self.pos += 1;
        self.forks.push(self.ev.len());
        self.ev.push(Ev::Dec(x, set, b));
        self.known.insert((x, set), b);
        self.narrow(x, set, b);
        b
    }
    fn pick(&mut self, name: &str, n: u32) -> u32 {
        let v = if self.pos < self.prefix.len() { self.prefix[self.pos] } else { self.prefix.push(0); 0 };
        self.pos += 1;
        self.forks.push(self.ev.len());
        self.ev.push(Ev::Pick(v, n));
        self.picks.push((name.to_string(), v));
        v
    }
}

// ---------------------------------------------------------------------------------------------
// harness-side API

pub fn prime() -> u32 { with(|c| c.p) }
pub fn is_sym() -> bool { with(|c| c.sym) }
pub fn var(name: &str) -> Fp {
    with(|c| {
        let i = c.vars.len() as u32;
        assert!(!c.vars.iter().any(|v| v.0 == name), "duplicate variable {name}");
        if c.sym {
            let h = c.mk(Node::Var(i));
            c.vars.push((name.to_string(), h));
            Fp(h)
        } else {
            let v = *c.model.get(name).unwrap_or(&0);
            c.vars.push((name.to_string(), v));
            Fp(c.c(v))
        }
    })
}
/// arbitrary integer in 0..n (every value is explored as its own family of paths)
pub fn pick(name: &str, n: u32) -> u32 {
    with(|c| if c.sym { c.pick(name, n) } else {
        let v = *c.model.get(&format!("#{name}")).unwrap_or(&0);
        c.picks.push((name.to_string(), v));
        v
    })
}
pub fn cst(v: i64) -> Fp { with(|c| Fp(c.c(v.rem_euclid(c.p as i64) as u32))) }
/// fork on membership of x in set
pub fn test(x: Fp, set: u128) -> bool {
    with(|c| if c.sym { c.decide(x.0, set) } else { set >> c.cv(x.0).unwrap() & 1 == 1 })
}
pub fn assume(x: Fp, set: u128, truth: bool) {
    let ok = with(|c| {
        if c.sym {
            let (y, s) = c.root(x.0, set);
            match c.known_in(y, s) {
                Some(b) => b == truth,
                None => { c.ev.push(Ev::Ass(y, s, truth)); c.known.insert((y, s), truth); c.narrow(y, s, truth); true }
            }
        } else { (set >> c.cv(x.0).unwrap() & 1 == 1) == truth }
    });
    if !ok { std::panic::panic_any(Stop) }
}
pub fn assume_zero(x: Fp) { assume(x, 1, true) }
pub fn assume_nonzero(x: Fp) { assume(x, 1, false) }
pub fn assume_eq(x: Fp, y: Fp) { assume_zero(x - y) }
pub fn assume_that(b: bool) { if !b { std::panic::panic_any(Stop) } }

pub struct ConcFail(pub String);
pub fn check_in(name: &str, x: Fp, set: u128, truth: bool) {
    let fail = with(|c| {
        if c.sym {
            let (y, s) = c.root(x.0, set);
            *c.reached.entry(name.to_string()).or_insert(0) += 1;
            match c.known_in(y, s) {
                Some(b) => { if b != truth { c.obl.push(Obl { name: name.into(), lit: None }) } }
                None => c.obl.push(Obl { name: name.into(), lit: Some((y, s, truth)) }),
            }
            false
        } else { (set >> c.cv(x.0).unwrap() & 1 == 1) != truth }
    });
    if fail { std::panic::panic_any(ConcFail(name.to_string())) }
}
pub fn check_zero(name: &str, x: Fp) { check_in(name, x, 1, true) }
pub fn check_nonzero(name: &str, x: Fp) { check_in(name, x, 1, false) }
pub fn check_eq(name: &str, x: Fp, y: Fp) { check_zero(name, x - y) }
pub fn check(name: &str, b: bool) {
    let fail = with(|c| {
        if c.sym {
            *c.reached.entry(name.to_string()).or_insert(0) += 1;
            if !b { c.obl.push(Obl { name: name.into(), lit: None }) }
            false
        } else { !b }
    });
    if fail { std::panic::panic_any(ConcFail(name.to_string())) }
}
pub fn conc(x: Fp) -> Option<u32> { with(|c| c.cv(x.0)) }

// ---------------------------------------------------------------------------------------------
// the base-field interface the repository's macros rely on

#[derive(Clone, Copy, Debug)]
pub struct Fp(pub u32);

fn mask(b: bool) -> u32 { if b { !0 } else { 0 } }
fn ctl(c: u32) -> bool {
    if c == !0 { true } else if c == 0 { false } else { panic!("control word {c:#x} is neither 0 nor all-ones") }
}

impl Fp {
    pub const ZERO: Fp = Fp(CB);
    pub const ONE: Fp = Fp(CB | 1);
    pub const TWO: Fp = Fp(CB | 2);
    pub const THREE: Fp = Fp(CB | 3);
    pub const FOUR: Fp = Fp(CB | 4);
    /// p - 1 is not known at compile time: this handle is resolved by `norm`
    pub const MINUS_ONE: Fp = Fp(CB | MINUS1);
    pub const ENCODED_LENGTH: usize = 8;
    pub const BIT_LENGTH: usize = 64;

    fn h(self) -> u32 {
        if self.0 == CB | MINUS1 { with(|c| c.c(c.p - 1)) } else { self.0 }
    }
    fn node2(self, o: Fp, f: impl FnOnce(&mut Cx, u32, u32) -> u32) -> Fp {
        let (a, b) = (self.h(), o.h());
        with(|c| Fp(f(c, a, b)))
    }
    pub fn from_i64(x: i64) -> Fp { cst(x) }
    pub fn from_i32(x: i32) -> Fp { cst(x as i64) }
    pub fn from_u32(x: u32) -> Fp { cst(x as i64) }
    pub fn from_u64(x: u64) -> Fp { with(|c| Fp(c.c((x % c.p as u64) as u32))) }
    pub fn iszero(self) -> u32 { mask(test(Fp(self.h()), 1)) }
    pub fn equals(self, o: &Fp) -> u32 { (self - *o).iszero() }
    pub fn set_neg(&mut self) { *self = -*self }
    pub fn set_square(&mut self) { *self = *self * *self }
    pub fn square(self) -> Fp { self * self }
    pub fn set_half(&mut self) { *self = self.half() }
    pub fn half(self) -> Fp { let h = with(|c| (c.p + 1) / 2); self * Fp(CB | h) }
    pub fn set_mul2(&mut self) { *self = self.mul2() }
    pub fn mul2(self) -> Fp { self.mul_small(2) }
    pub fn set_mul3(&mut self) { *self = self.mul3() }
    pub fn mul3(self) -> Fp { self.mul_small(3) }
    pub fn set_mul4(&mut self) { *self = self.mul4() }
    pub fn mul4(self) -> Fp { self.mul_small(4) }
    pub fn set_mul8(&mut self) { *self = self.mul8() }
    pub fn mul8(self) -> Fp { self.mul_small(8) }
    pub fn set_mul_small(&mut self, k: i32) { *self = self.mul_small(k) }
    pub fn mul_small(self, k: i32) -> Fp { self * cst(k as i64) }
    pub fn set_select(&mut self, a: &Fp, b: &Fp, c: u32) { *self = if ctl(c) { *b } else { *a } }
    pub fn select(a: &Fp, b: &Fp, c: u32) -> Fp { if ctl(c) { *b } else { *a } }
    pub fn set_cond(&mut self, o: &Fp, c: u32) { if ctl(c) { *self = *o } }
    pub fn set_condneg(&mut self, c: u32) { if ctl(c) { *self = -*self } }
    pub fn condswap(a: &mut Fp, b: &mut Fp, c: u32) { if ctl(c) { core::mem::swap(a, b) } }
    pub fn set_invert(&mut self) { *self = self.invert() }
    pub fn invert(self) -> Fp {
        let a = self.h();
        with(|c| Fp(c.un(a, inv_mod, Node::Inv(a))))
    }
    pub fn legendre(self) -> i32 {
        if test(Fp(self.h()), 1) { 0 } else if test(Fp(self.h()), with(|c| set_qr(c.p))) { 1 } else { -1 }
    }
    pub fn sqrt(self) -> (Fp, u32) {
        let a = self.h();
        let set = with(|c| set_qr(c.p) | 1);
        if test(Fp(a), set) {
            (with(|c| Fp(c.un(a, |v, p| sqrt_mod(v, p).unwrap_or(0), Node::Sqrt(a)))), !0)
        } else { (Fp::ZERO, 0) }
    }
    pub fn set_sqrt(&mut self) -> u32 { let (x, r) = self.sqrt(); *self = x; r }
    pub fn fourth_root(self) -> (Fp, u32) {
        let a = self.h();
        let set = with(|c| set_4th(c.p));
        if test(Fp(a), set) {
            (with(|c| Fp(c.un(a, |v, p| frt_mod(v, p).unwrap_or(0), Node::Frt(a)))), !0)
        } else { (Fp::ZERO, 0) }
    }
    pub fn set_fourth_root(&mut self) -> u32 { let (x, r) = self.fourth_root(); *self = x; r }
    pub fn set_pow_ext(&mut self, e: &[u8], eoff: usize, ebitlen: usize) { *self = self.pow_ext(e, eoff, ebitlen) }
    pub fn pow_ext(self, e: &[u8], eoff: usize, ebitlen: usize) -> Fp {
        let mut r = Fp::ONE;
        for i in (eoff..eoff + ebitlen).rev() {
            r = r * r;
            if e[i >> 3] >> (i & 7) & 1 == 1 { r = r * self; }
        }
        r
    }
    pub fn set_pow(&mut self, e: &[u8], n: usize) { *self = self.pow_ext(e, 0, n) }
    pub fn pow(self, e: &[u8], n: usize) -> Fp { self.pow_ext(e, 0, n) }
    pub fn pow_big(self, e: &num_bigint::BigUint) -> Fp { self.pow_ext(&e.to_bytes_le(), 0, e.bits() as usize) }
    pub fn sum_of_products(a1: &Fp, b1: &Fp, a2: &Fp, b2: &Fp) -> Fp { *a1 * *b1 + *a2 * *b2 }
    pub fn difference_of_products(a1: &Fp, b1: &Fp, a2: &Fp, b2: &Fp) -> Fp { *a1 * *b1 - *a2 * *b2 }
    /// byte 0 carries the true parity of the value (fork); the handle itself travels in bytes 1..5
    pub fn encode(self) -> [u8; 8] {
        let a = self.h();
        let odd = test(Fp(a), with(|c| set_odd(c.p)));
        let hb = a.to_le_bytes();
        [odd as u8, hb[0], hb[1], hb[2], hb[3], 0xA5, 0x5A, 0]
    }
    /// accepts exactly the strings produced by `encode`; byte 7 = 1 marks a non-canonical string
    pub fn decode(b: &[u8]) -> (Fp, u32) {
        if b.len() != 8 || b[5] != 0xA5 || b[6] != 0x5A || b[7] != 0 { return (Fp::ZERO, 0); }
        (Fp(u32::from_le_bytes([b[1], b[2], b[3], b[4]])), !0)
    }
    /// every string produced by `encode`, whether marked canonical or not, stands for its value
    pub fn decode_reduce(b: &[u8]) -> Fp {
        if b.len() < 7 || b[5] != 0xA5 || b[6] != 0x5A { return Fp::ZERO; }
        Fp(u32::from_le_bytes([b[1], b[2], b[3], b[4]]))
    }
    pub fn set_decode_reduce(&mut self, b: &[u8]) { *self = Fp::decode_reduce(b) }
    pub fn hashcode(self) -> u64 { self.h() as u64 }
    pub fn set_rand<T: CryptoRng + RngCore>(&mut self, _rng: &mut T) {
        // bound on the number of random draws per run (rejection loops)
        let n = with(|c| c.vars.iter().filter(|v| v.0.starts_with("rnd")).count());
        if n >= 6 { std::panic::panic_any(Stop) }
        *self = var(&format!("rnd{n}"));
    }
    pub fn rand<T: CryptoRng + RngCore>(rng: &mut T) -> Fp { let mut x = Fp::ZERO; x.set_rand(rng); x }
}
const MINUS1: u32 = 0x00ff_ffff;

macro_rules! ops { ($tr:ident,$f:ident,$ta:ident,$fa:ident,$e:expr) => {
    impl $tr<Fp> for Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { $e(self, o) } }
    impl $tr<&Fp> for Fp { type Output = Fp; fn $f(self, o: &Fp) -> Fp { $e(self, *o) } }
    impl $tr<Fp> for &Fp { type Output = Fp; fn $f(self, o: Fp) -> Fp { $e(*self, o) } }
    impl $tr<&Fp> for &Fp { type Output = Fp; fn $f(self, o: &Fp) -> Fp { $e(*self, *o) } }
    impl $ta<Fp> for Fp { fn $fa(&mut self, o: Fp) { *self = $e(*self, o) } }
    impl $ta<&Fp> for Fp { fn $fa(&mut self, o: &Fp) { *self = $e(*self, *o) } }
}}
ops!(Add, add, AddAssign, add_assign, |a: Fp, b: Fp| a.node2(b, |c, x, y| c.add(x, y)));
ops!(Sub, sub, SubAssign, sub_assign, |a: Fp, b: Fp| {
    let n = -b;
    a.node2(n, |c, x, y| c.add(x, y))
});
ops!(Mul, mul, MulAssign, mul_assign, |a: Fp, b: Fp| a.node2(b, |c, x, y| c.mul(x, y)));
ops!(Div, div, DivAssign, div_assign, |a: Fp, b: Fp| { let i = b.invert(); a.node2(i, |c, x, y| c.mul(x, y)) });
impl Neg for Fp { type Output = Fp; fn neg(self) -> Fp { let a = self.h(); with(|c| { let m = c.p - 1; let m = c.c(m); Fp(c.mul(m, a)) }) } }
impl Neg for &Fp { type Output = Fp; fn neg(self) -> Fp { -*self } }
impl std::fmt::Display for Fp { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "<{}>", self.0) } }
impl PartialEq for Fp { fn eq(&self, o: &Fp) -> bool { self.equals(o) != 0 } }
impl Eq for Fp {}
impl Fp {
    pub fn set_mul(&mut self, o: &Fp) { *self = *self * *o }
    pub fn set_add(&mut self, o: &Fp) { *self = *self + *o }
    pub fn set_sub(&mut self, o: &Fp) { *self = *self - *o }
    pub fn set_div(&mut self, o: &Fp) { *self = *self / *o }
}
impl std::hash::Hash for Fp { fn hash<H: std::hash::Hasher>(&self, s: &mut H) { s.write_u64(self.hashcode()) } }
/// variable by name, created on first use (the same value whenever it is asked for again on a path)
pub fn var_cached(name: &str) -> Fp {
    let got = with(|c| c.vars.iter().find(|v| v.0 == name).map(|v| if c.sym { Fp(v.1) } else { Fp(c.c(v.1)) }));
    match got { Some(x) => x, None => var(name) }
}
