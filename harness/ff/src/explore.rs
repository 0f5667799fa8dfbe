//! Path explorer: re-executes a harness under every feasible decision sequence; path feasibility and
//! proof obligations are decided by a SAT solver over a one-hot encoding of GF(p).
use crate::sym::*;
use std::collections::{HashMap, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const T: i32 = i32::MAX;
const F: i32 = -i32::MAX;

type Uni = [Option<(u32, std::sync::Arc<[u8]>)>];
pub struct Cnf<'a> {
    p: usize,
    nodes: &'a [Node],
    lits: HashMap<u32, Vec<i32>>,
    uni: &'a Uni,
    pub nv: i32,
    pub nc: usize,
    out: Vec<u8>,
}

impl<'a> Cnf<'a> {
    pub fn new(p: u32, cx: &'a Cx) -> Self {
        let (nodes, uni) = (&cx.nodes[..], &cx.uni[..]);
        Cnf { p: p as usize, nodes, lits: HashMap::new(), uni, nv: 0, nc: 0, out: vec![] }
    }
    fn fresh(&mut self) -> i32 { self.nv += 1; self.nv }
    fn clause(&mut self, c: &[i32]) {
        if c.iter().any(|&l| l == T) { return; }
        for &l in c { if l != F { self.out.extend_from_slice(l.to_string().as_bytes()); self.out.push(b' '); } }
        self.out.extend_from_slice(b"0\n");
        self.nc += 1;
    }
    fn or(&mut self, ls: &[i32]) -> i32 {
        let mut v: Vec<i32> = ls.iter().copied().filter(|&l| l != F).collect();
        v.sort(); v.dedup();
        if v.contains(&T) { return T; }
        if v.is_empty() { return F; }
        if v.len() == 1 { return v[0]; }
        let z = self.fresh();
        for &l in &v { self.clause(&[-l, z]); }
        v.push(-z);
        self.clause(&v);
        z
    }
    fn onehot(&mut self) -> Vec<i32> {
        let v: Vec<i32> = (0..self.p).map(|_| self.fresh()).collect();
        self.clause(&v);
        for i in 0..self.p { for j in 0..i { self.clause(&[-v[i], -v[j]]); } }
        v
    }
    fn map1(&mut self, x: u32, f: impl Fn(usize) -> usize) -> Vec<i32> {
        let lx = self.lits[&x].clone();
        let mut pre: Vec<Vec<i32>> = vec![vec![]; self.p];
        for i in 0..self.p { pre[f(i)].push(lx[i]); }
        pre.iter().map(|v| self.or(v)).collect()
    }
    fn constant(&self, x: u32) -> u32 { let v = x & 0x7fff_ffff; if v == 0x00ff_ffff { self.p as u32 - 1 } else { v % self.p as u32 } }
    /// value table of x when its cone contains exactly one variable
    fn table(&mut self, h: u32) -> Option<(u32, std::sync::Arc<[u8]>)> {
        if h & 0x8000_0000 != 0 { None } else { self.uni[h as usize].clone() }
    }
    /// encode the cone of h
    pub fn node(&mut self, h: u32) {
        let mut stack = vec![h];
        while let Some(&x) = stack.last() {
            if self.lits.contains_key(&x) { stack.pop(); continue; }
            if x & 0x8000_0000 != 0 {
                let v = if x & 0x7fff_ffff == 0x00ff_ffff { self.p - 1 } else { (x & 0x7fff_ffff) as usize % self.p };
                let l = (0..self.p).map(|i| if i == v { T } else { F }).collect();
                self.lits.insert(x, l);
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            if !matches!(n, Node::Var(_)) { if let Some((v, t)) = self.table(x) {
                if !self.lits.contains_key(&v) { let l = self.onehot(); self.lits.insert(v, l); }
                let l = self.map1(v, |i| t[i] as usize);
                self.lits.insert(x, l);
                stack.pop();
                continue;
            } }
            let deps: Vec<u32> = match n {
                Node::Add(a, b) | Node::Mul(a, b) => vec![a, b],
                Node::Aff(_, a, _) | Node::Inv(a) | Node::Sqrt(a) | Node::Frt(a) | Node::Sq(a) | Node::Tab(_, a) => vec![a],
                _ => vec![],
            };
            let mut ready = true;
            for d in deps { if !self.lits.contains_key(&d) { stack.push(d); ready = false; } }
            if !ready { continue; }
            let p = self.p;
            let pp = p as u32;
            // unit(i): i invertible modulo p; unit(p): p prime
            let prime = (2..p).all(|d| p % d != 0);
            let unit = |i: usize| if i == p { prime } else { i != 0 && { let (mut a, mut b) = (i, p); while b != 0 { (a, b) = (b, a % b); } a == 1 } };
            let l = match n {
                Node::Var(_) => self.onehot(),
                Node::Const(_) => unreachable!(),
                Node::Aff(a, y, b) => self.map1(y, |v| (a as usize * v + b as usize) % p),
                Node::Inv(y) => self.map1(y, |v| inv_mod(v as u32, pp) as usize),
                Node::Sqrt(y) => self.map1(y, |v| sqrt_mod(v as u32, pp).unwrap_or(0) as usize),
                Node::Frt(y) => self.map1(y, |v| frt_mod(v as u32, pp).unwrap_or(0) as usize),
                Node::Sq(y) => self.map1(y, |v| v * v % p),
                Node::Tab(t, y) => self.map1(y, |v| tab(t, v as u32) as usize),
                Node::Add(a, b) => {
                    let z = self.onehot();
                    let (la, lb) = (self.lits[&a].clone(), self.lits[&b].clone());
                    for i in 0..p { for j in 0..p {
                        let k = (i + j) % p;
                        self.clause(&[-la[i], -lb[j], z[k]]);
                        self.clause(&[-la[i], -z[k], lb[j]]);
                        self.clause(&[-lb[j], -z[k], la[i]]);
                    } }
                    z
                }
                Node::Mul(a, b) => {
                    let z = self.onehot();
                    let (la, lb) = (self.lits[&a].clone(), self.lits[&b].clone());
                    for i in 0..p { for j in 0..p {
                        let k = i * j % p;
                        self.clause(&[-la[i], -lb[j], z[k]]);
                        if unit(i) { self.clause(&[-la[i], -z[k], lb[j]]); }
                        if unit(j) { self.clause(&[-lb[j], -z[k], la[i]]); }
                    } }
                    if unit(p) { self.clause(&[-z[0], la[0], lb[0]]); }
                    z
                }
            };
            self.lits.insert(x, l);
            stack.pop();
        }
    }
    pub fn lit(&mut self, x: u32, set: u128, truth: bool) -> i32 {
        self.node(x);
        let l = self.lits[&x].clone();
        let yes: Vec<i32> = (0..self.p).filter(|&v| set >> v & 1 == 1).map(|v| l[v]).collect();
        let r = self.or(&yes);
        if truth { r } else { -r }
    }
    pub fn require(&mut self, l: i32) { if l != T { self.clause(&[l]); } }
    pub fn require_any(&mut self, ls: &[i32]) { self.clause(ls) }
    /// value of every variable node that is part of the encoding
    fn model(&self, a: &HashSet<i32>, vars: &[(String, u32)]) -> Vec<(String, u32)> {
        vars.iter().map(|(n, h)| {
            let v = match self.lits.get(h) {
                Some(l) => (0..self.p).find(|&i| a.contains(&l[i])).unwrap_or(0),
                None => 0,
            };
            (n.clone(), v as u32)
        }).collect()
    }
}

pub enum Res { Sat(Vec<(String, u32)>), Unsat, Unknown }

pub fn solve(c: &Cnf, cube: &[i32], vars: &[(String, u32)], limit: u64, solver: &str) -> Res {
    let mut cmd = if solver == "minisat" {
        let mut k = Command::new("minisat"); k.arg("-verb=0").arg(format!("-cpu-lim={limit}")); k.arg("/dev/stdin").arg("/dev/stdout"); k
    } else {
        let mut k = Command::new("kissat"); k.arg("-q").arg(format!("--time={limit}")); k
    };
    let mut ch = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
    let mut buf = format!("p cnf {} {}\n", c.nv, c.nc + cube.len()).into_bytes();
    buf.extend_from_slice(&c.out);
    for l in cube { buf.extend_from_slice(format!("{l} 0\n").as_bytes()); }
    let mut si = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || { let _ = si.write_all(&buf); });
    let o = ch.wait_with_output().unwrap();
    let _ = w.join();
    let txt = String::from_utf8_lossy(&o.stdout);
    if txt.contains("UNSAT") { return Res::Unsat; }
    if !(txt.contains("s SATISFIABLE") || txt.contains("SAT\n")) { return Res::Unknown; }
    let mut a = HashSet::new();
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix("v ") { for t in r.split_whitespace() { if let Ok(v) = t.parse::<i32>() { if v > 0 { a.insert(v); } } } }
    }
    Res::Sat(c.model(&a, vars))
}

#[derive(Default)]
pub struct Stats {
    pub paths: usize, pub infeasible: usize, pub stopped: usize, pub queries: usize, pub solver_ms: u128,
    pub max_vars: i32, pub max_clauses: usize, pub max_nodes: usize, pub obligations: usize, pub trivial: usize,
    pub checks: HashMap<String, (usize, bool)>,
    pub violations: Vec<(String, Vec<(String, u32)>)>,
    pub errors: Vec<String>,
    pub crosschecked: usize,
    pub cross_bad: usize,
    /// satisfying assignments of whole paths, re-run natively: (held, outside the assumptions = encoding error)
    pub replayed: usize,
    pub sample: Option<Vec<(String, u32)>>,
}

pub type Harness = fn();

pub enum End { Done, Stop, Panic(String), Fail(String) }

pub fn run_once(h: Harness, cx: Cx) -> (End, Cx) {
    CX.with(|c| *c.borrow_mut() = Some(cx));
    let r = std::panic::catch_unwind(|| h());
    let cx = CX.with(|c| c.borrow_mut().take().unwrap());
    let e = match r {
        Ok(()) => End::Done,
        Err(e) => if e.is::<Stop>() { End::Stop }
            else if let Some(f) = e.downcast_ref::<ConcFail>() { End::Fail(f.0.clone()) }
            else if let Some(s) = e.downcast_ref::<String>() { End::Panic(s.clone()) }
            else if let Some(s) = e.downcast_ref::<&str>() { End::Panic(s.to_string()) }
            else { End::Panic("panic".into()) },
    };
    (e, cx)
}

fn constrain(cnf: &mut Cnf, ev: &[Ev]) {
    for e in ev { match *e {
        Ev::Dec(x, s, t) | Ev::Ass(x, s, t) => { let l = cnf.lit(x, s, t); cnf.require(l); }
        Ev::Pick(..) => {}
    } }
}

struct Shared { q: Mutex<(Vec<Vec<u32>>, usize)>, cv: Condvar, st: Mutex<Stats>, deadline: Instant }

/// explore harness h over GF(p)
pub fn explore(h: Harness, p: u32, threads: usize, qlimit: u64, deadline: Instant, maxpaths: usize, cross: usize) -> Stats {
    let sh = Arc::new(Shared { q: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), st: Mutex::new(Stats::default()), deadline });
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let sh = sh.clone();
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || worker(h, p, qlimit, deadline, maxpaths, cross, &sh)).unwrap();
        }
    });
    Arc::try_unwrap(sh).ok().unwrap().st.into_inner().unwrap()
}

fn worker(h: Harness, p: u32, qlimit: u64, deadline: Instant, maxpaths: usize, cross: usize, sh: &Shared) {
    loop {
        let pre = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if let Some(x) = g.0.pop() { g.1 += 1; break x; }
                if g.1 == 0 { sh.cv.notify_all(); return; }
                g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
            }
        };
        let skip = {
            let mut st = sh.st.lock().unwrap();
            if Instant::now() > deadline || st.paths > maxpaths {
                let over = st.paths > maxpaths;
                if st.errors.len() < 5 { st.errors.push(if over { "path limit".into() } else { "time limit".into() }); }
                true
            } else { st.violations.len() >= 3 || !st.errors.is_empty() }
        };
        if !skip {
            let new = one(h, p, pre, qlimit, cross, sh);
            let mut g = sh.q.lock().unwrap();
            g.0.extend(new);
        }
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        if skip { g.0.clear(); }
        sh.cv.notify_all();
    }
}

static PERMITS: Mutex<usize> = Mutex::new(8);
static PCV: Condvar = Condvar::new();
fn permit<R>(f: impl FnOnce() -> R) -> R {
    { let mut g = PERMITS.lock().unwrap(); while *g == 0 { g = PCV.wait(g).unwrap(); } *g -= 1; }
    let r = f();
    *PERMITS.lock().unwrap() += 1;
    PCV.notify_one();
    r
}

fn solve1(sh: &Shared, cnf: &Cnf, cube: &[i32], vars: &[(String, u32)], limit: u64, cross: usize) -> Res {
    let (r, dt) = permit(|| { let t = Instant::now(); let r = solve(cnf, cube, vars, limit, "kissat"); (r, t.elapsed()) });
    let mut xc = None;
    let n = { let st = sh.st.lock().unwrap(); st.queries };
    if cross > 0 && n % cross == 0 && dt.as_millis() < 3000 {
        xc = match (&r, permit(|| solve(cnf, cube, vars, 60, "minisat"))) {
            (Res::Unsat, Res::Sat(_)) | (Res::Sat(_), Res::Unsat) => Some(false),
            (_, Res::Unknown) | (Res::Unknown, _) => None,
            _ => Some(true),
        };
    }
    let mut st = sh.st.lock().unwrap();
    st.queries += 1;
    st.solver_ms += dt.as_millis();
    st.max_vars = st.max_vars.max(cnf.nv);
    st.max_clauses = st.max_clauses.max(cnf.nc);
    if let Some(b) = xc { st.crosschecked += 1; if !b { st.cross_bad += 1; st.errors.push("solvers disagree".into()); } }
    r
}

/// decide one query; when the solver does not finish quickly, split on the values of the input variables
/// (cube and conquer: the cubes cover the whole space, one solver call per cube)
fn query(sh: &Shared, cnf: &Cnf, vars: &[(String, u32)], qlimit: u64, cross: usize) -> Res {
    let split: Vec<&Vec<i32>> = vars.iter().filter_map(|(_, h)| cnf.lits.get(h)).filter(|l| l.iter().all(|&x| x != T && x != F)).collect();
    let first = if split.is_empty() { qlimit } else { qlimit.min(4) };
    match solve1(sh, cnf, &[], vars, first, cross) {
        Res::Unknown if !split.is_empty() => cubes(sh, cnf, vars, &split, &[], qlimit, cross),
        r => r,
    }
}
fn cubes(sh: &Shared, cnf: &Cnf, vars: &[(String, u32)], split: &[&Vec<i32>], pre: &[i32], qlimit: u64, cross: usize) -> Res {
    let last = split.len() == 1;
    let done = std::sync::atomic::AtomicBool::new(false);
    let res: Vec<Res> = std::thread::scope(|sc| {
        let hs: Vec<_> = split[0].iter().map(|&l| {
            let mut cube = pre.to_vec();
            cube.push(l);
            let done = &done;
            sc.spawn(move || {
                if done.load(std::sync::atomic::Ordering::Relaxed) || Instant::now() > sh.deadline { return Res::Unknown; }
                let r = match solve1(sh, cnf, &cube, vars, if last { qlimit } else { qlimit.min(10) }, cross) {
                    Res::Unknown if !last && Instant::now() < sh.deadline => cubes(sh, cnf, vars, &split[1..], &cube, qlimit, cross),
                    r => r,
                };
                if !matches!(r, Res::Unsat) { done.store(true, std::sync::atomic::Ordering::Relaxed); }
                r
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut unk = false;
    for r in res { match r { Res::Sat(m) => return Res::Sat(m), Res::Unknown => unk = true, Res::Unsat => {} } }
    if unk { Res::Unknown } else { Res::Unsat }
}

fn one(h: Harness, p: u32, pre: Vec<u32>, qlimit: u64, cross: usize, sh: &Shared) -> Vec<Vec<u32>> {
    let plen = pre.len();
    let mut cx = Cx::new(p, true);
    cx.prefix = pre;
    let (end, cx) = run_once(h, cx);
    let mut new = vec![];
    // alternatives of the forks beyond the prefix
    for (k, &ei) in cx.forks.iter().enumerate() {
        if k < plen { continue; }
        match cx.ev[ei] {
            Ev::Pick(v, n) => for w in 0..n { if w != v { let mut q = cx.prefix[..k].to_vec(); q.push(w); new.push(q); } },
            Ev::Dec(x, s, b) => {
                let mut cnf = Cnf::new(p, &cx);
                constrain(&mut cnf, &cx.ev[..ei]);
                let l = cnf.lit(x, s, !b);
                cnf.require(l);
                match query(sh, &cnf, &cx.vars, qlimit, cross) {
                    Res::Unsat => { sh.st.lock().unwrap().infeasible += 1; }
                    Res::Unknown => { sh.st.lock().unwrap().errors.push("solver limit (feasibility)".into()); }
                    Res::Sat(_) => { let mut q = cx.prefix[..k].to_vec(); q.push((!b) as u32); new.push(q); }
                }
            }
            _ => unreachable!(),
        }
    }
    let mut cnf = Cnf::new(p, &cx);
    constrain(&mut cnf, &cx.ev);
    let mut bad: Vec<(i32, String)> = vec![];
    let mut triv = 0;
    for o in &cx.obl {
        match o.lit {
            None => bad.push((T, o.name.clone())),
            Some((x, s, t)) => { let l = cnf.lit(x, s, !t); if l == F { triv += 1 } else { bad.push((l, o.name.clone())) } }
        }
    }
    if let End::Panic(m) = &end { if m.starts_with("UNSUPPORTED") {
        let mut st = sh.st.lock().unwrap();
        let e = format!("outside the model: {m}");
        if !st.errors.contains(&e) { st.errors.push(e) }
    } else { bad.push((T, format!("panic: {m}"))); } }
    {
        let mut st = sh.st.lock().unwrap();
        st.paths += 1;
        st.max_nodes = st.max_nodes.max(cx.nodes.len());
        st.obligations += cx.obl.len();
        st.trivial += triv;
        if let End::Stop = end { st.stopped += 1; }
    }
    if !bad.is_empty() {
        let ls: Vec<i32> = bad.iter().map(|b| b.0).collect();
        cnf.require_any(&ls);
        match query(sh, &cnf, &cx.vars, qlimit, cross) {
            Res::Unsat => {}
            Res::Unknown => { sh.st.lock().unwrap().errors.push("solver limit (obligation)".into()); }
            Res::Sat(mut m) => {
                for (n, v) in &cx.picks { m.push((format!("#{n}"), *v)); }
                // replay natively
                let mut c2 = Cx::new(p, false);
                c2.model = m.iter().cloned().collect();
                let (e2, _) = run_once(h, c2);
                let mut st = sh.st.lock().unwrap();
                match e2 {
                    End::Fail(n) => st.violations.push((n, m)),
                    End::Panic(n) => st.violations.push((format!("panic: {n}"), m)),
                    _ => st.errors.push(format!("counterexample did not reproduce: {:?} {:?}", bad.iter().map(|b| &b.1).collect::<Vec<_>>(), m)),
                }
            }
        }
    }
    // vacuity: at least one satisfiable path per named check
    let need: Vec<String> = {
        let mut st = sh.st.lock().unwrap();
        let mut need = vec![];
        for (n, k) in &cx.reached {
            let e = st.checks.entry(n.clone()).or_insert((0, false));
            e.0 += *k as usize;
            if !e.1 { need.push(n.clone()); }
        }
        need
    };
    if !need.is_empty() {
        let mut cnf = Cnf::new(p, &cx);
        constrain(&mut cnf, &cx.ev);
        if let Res::Sat(m) = query(sh, &cnf, &cx.vars, qlimit, cross) {
            let mut st = sh.st.lock().unwrap();
            for n in need { st.checks.get_mut(&n).unwrap().1 = true; }
            let mut m = m;
            for (n, v) in &cx.picks { m.push((format!("#{n}"), *v)); }
            drop(st);
            let mut c2 = Cx::new(p, false);
            c2.model = m.iter().cloned().collect();
            let (e2, c2) = run_once(h, c2);
            let mut st = sh.st.lock().unwrap();
            st.replayed += 1;
            let same = match (&e2, &end) { (End::Stop, End::Stop) | (End::Done, _) | (End::Panic(_), End::Panic(_)) => true, (End::Fail(_), _) => true, _ => false };
            if !same && st.errors.len() < 5 { st.errors.push(format!("witness did not reproduce: {m:?}")); }
            st.sample = Some(m);
        }
    }
    new
}
