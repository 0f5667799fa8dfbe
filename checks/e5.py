"""C22: powers and root extraction of the base field at its real size.

The LLVM IR of Fp::sqrt, Fp::fourth_root, Fp::pow and Fp::pow_ext is executed symbolically with field elements abstracted to
powers of the input x: set_mul, set_square, equals, encode, set_condneg, set_neg and set_cond are replaced by their contracts
(established by C01, C02 and C03); loops, windows, table look-ups, bit extraction and masks are the real code.  Exponents are
polynomials in the exponent's bits.  z3 decides the obligations for every x = g^k (k an integer unknown, g a generator of the
multiplicative group, whose order p - 1 comes from the primality of p, C19) and every exponent bit pattern."""
import ctypes, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from e1run import *

BAD = "contract called on a value that is not a power of the input"


class Powers:
    """field elements as +- x^e"""

    def __init__(self, w, p):
        self.w, self.p, self.ids, self.keys = w, p, {}, {}

    def atoms(self, key):
        if key not in self.ids:
            a = [self.w.atom("pow", 0, MASK, name=(key, i)) for i in range(N)]
            self.ids[key] = a
            self.keys[tuple(x.id for x in a)] = key
        return self.ids[key]

    def store(self, m, ptr, key):
        ptr = m.deref(ptr)
        for i in range(N):
            a = self.const(key, i)
            if a is None:
                x = self.atoms(key)[i]
                a = V({(x.id,): 1}, x.lo, x.hi)
            m.store(Ptr(ptr.obj, ptr.off + 8 * i), 8, a)

    def const(self, key, i):
        if key == 0:
            return 0
        if key == (1, ()):
            return (R % self.p >> (64 * i)) & MASK
        return None

    def load(self, m, ptr):
        ptr = m.deref(ptr)
        ws = [m.load(Ptr(ptr.obj, ptr.off + 8 * i), 8) for i in range(N)]
        if all(isinstance(x, int) for x in ws):
            v = sum(x << (64 * i) for i, x in enumerate(ws))
            if v == 0:
                return 0
            if v == R % self.p:
                return (1, ())
            raise Unsupported(BAD)
        ids = []
        for x in ws:
            if not isinstance(x, V) or len(x.p) != 1 or list(x.p.values()) != [1] or len(next(iter(x.p))) != 1:
                raise Unsupported(BAD)
            ids.append(next(iter(x.p))[0])
        if tuple(ids) not in self.keys:
            raise Unsupported(BAD)
        return self.keys[tuple(ids)]


def key(sign, e):
    return (sign, tuple(sorted((m, c) for m, c in e.items() if c)))


def contracts(pw):
    pat = re.compile(r"7FpFESTANtB\w*_2Fp(?:\d+)(set_mul|set_square|equals|encode|set_condneg|set_neg|set_cond)$|FpFESTA.*2Fp.*?\d(set_mul|set_square|equals|encode|set_condneg|set_neg|set_cond)17h")

    def f(m, name, args):
        k = pat.search(name)
        if not k or "FpFESTAExt" in name:
            return None
        op = k[1] or k[2]
        w = m.w
        if op in ("set_mul", "set_square"):
            a = pw.load(m, args[0])
            b = pw.load(m, args[1]) if op == "set_mul" else a
            pw.store(m, args[0], 0 if 0 in (a, b) else key(a[0] * b[0], padd(dict(a[1]), dict(b[1]))))
            return (None,)
        if op == "equals":
            a, b = pw.load(m, args[0]), pw.load(m, args[1])
            if a == b or 0 in (a, b):
                return (0xFFFFFFFF if a == b else 0,)
            d = padd(dict(a[1]), dict(b[1]), -1)
            q = ("eq", a[0] * b[0], key(1, d)[1])
            if q not in w.decisions:
                raise Fork(q, "equality")
            return (0xFFFFFFFF if w.decisions[q] else 0,)
        if op == "encode":
            o, a = m.deref(args[0]), pw.load(m, args[1])
            if a == 0:
                for i in range(162):
                    m.store(Ptr(o.obj, o.off + i), 1, 0)
                return (None,)
            q = ("odd", a[1])
            if q not in w.decisions:
                raise Fork(q, "parity")
            b = w.decisions[q] ^ (a[0] < 0)
            for i in range(162):
                x = w.atom("enc", 0, 255 if i else 127, name=(a, i))
                m.store(Ptr(o.obj, o.off + i), 1, V({(x.id,): 1}, 0, 255) if i else w.mk(padd(const(b), {(x.id,): 2})))
            return (None,)
        a = pw.load(m, args[0])
        if op == "set_neg":
            pw.store(m, args[0], a and (-a[0], a[1]))
            return (None,)
        ctl = args[-1]
        if op == "set_condneg":
            if not isinstance(ctl, int):
                w.fork_on(ctl)
            if not isinstance(ctl, int) or ctl not in (0, 0xFFFFFFFF):
                raise Unsupported("control word")
            pw.store(m, args[0], (-a[0], a[1]) if a and ctl else a)
            return (None,)
        b = pw.load(m, args[1])
        if isinstance(ctl, int):
            if ctl not in (0, 0xFFFFFFFF):
                raise Unsupported("control word")
            pw.store(m, args[0], b if ctl else a)
            return (None,)
        if a == b:
            return (None,)
        if 0 in (a, b) or a[0] != b[0] or any(c % 0xFFFFFFFF for c in ctl.p.values()):
            w.fork_on(ctl)
            raise Unsupported("control word")
        bit = {t: c // 0xFFFFFFFF for t, c in ctl.p.items()}
        if set(bit.values()) != {1} or len(bit) != 1 or not all(w.isbit(i) for t in bit for i in t):
            raise Unsupported("control word")
        pw.store(m, args[0], key(a[0], padd(dict(a[1]), pmul(bit, padd(dict(b[1]), dict(a[1]), -1)))))
        return (None,)
    return f


class Z:
    """z3 over integers: one query = a set of assertions"""

    def __init__(self):
        self.n = self.ms = 0

    def unsat(self, decl, asserts, timeout=60):
        s = "(set-logic ALL)\n" + "".join("(declare-const %s Int)\n" % d for d in decl) + "".join("(assert %s)\n" % a for a in asserts) + "(check-sat)\n"
        t = time.time()
        r = subprocess.run(["z3", "-in", "-T:%d" % timeout], input=s, capture_output=True, text=True)
        self.n += 1
        self.ms += int(1000 * (time.time() - t))
        return r.stdout.split()[:1] == ["unsat"]


def i(x):
    return str(x) if x >= 0 else "(- %d)" % -x


def poly(p, name):
    return "(+ 0 %s)" % " ".join("(* %s %s)" % (i(c), " ".join(name(a) for a in t)) if t else i(c) for t, c in p.items())


class Job:
    """fn: entry; deg: 2 / 4 for roots; (n, off, len) for powers"""

    def __init__(self, fn, deg=0, n=0, off=0, ln=0):
        self.fn, self.deg, self.n, self.off, self.ln = fn, deg, n, off, ln

    def label(self):
        return self.fn + ("" if self.deg else "[%d bytes, offset %d, length %d]" % (self.n, self.off, self.ln))

    def native(self, lib, p, x, e):
        out = (ctypes.c_uint8 * 168)()
        a = (ctypes.c_uint8 * 168).from_buffer_copy(x.to_bytes(168, "little"))
        f = getattr(lib, self.fn)
        val = lambda: int.from_bytes(bytes(out), "little")
        Ri = pow(R, -1, p)
        xv = x * Ri % p
        if self.deg:
            f.restype = ctypes.c_uint32
            r = f(ctypes.byref(out), ctypes.byref(a))
            s = pow(xv, (p + 1) // (2 * self.deg), p)
            ok = pow(s, self.deg, p) == xv
            s = (s if s % 2 == 0 else p - s) if ok else 0
            return (val(), r), (s * R % p, 0xFFFFFFFF if ok else 0)
        f.restype = None
        b = (ctypes.c_uint8 * max(1, self.n)).from_buffer_copy(e.to_bytes(self.n, "little") or b"\0")
        f(ctypes.byref(out), ctypes.byref(a), b, ctypes.c_size_t(self.n), ctypes.c_size_t(self.off), ctypes.c_size_t(self.ln))
        return val(), pow(xv, (e >> self.off) & ((1 << self.ln) - 1), p) * R % p


def windows(th):
    w = [(1, 0, 0), (1, 0, 1), (1, 0, 8), (1, 3, 5), (1, 7, 1), (2, 0, 16), (2, 5, 7), (2, 8, 8), (2, 4, 0), (3, 1, 22), (4, 9, 17), (4, 0, 32), (9, 3, 66), (12, 31, 65),
         (4, 1, 31), (4, 2, 9), (4, 3, 14), (4, 6, 18), (4, 8, 24), (4, 11, 3), (4, 15, 17), (4, 16, 16), (4, 23, 1), (4, 24, 8), (5, 33, 7), (8, 0, 64), (8, 1, 63), (21, 0, 168), (21, 9, 140), (41, 0, 328)]
    if th:
        w += [(4, o, l) for o in range(0, 32, 3) for l in range(0, 33 - o, 5)] + [(41, 0, 328), (80, 13, 620), (162, 0, 1293), (162, 1, 1292)]
    return w


def jobs(th):
    return [Job("k_sqrt", deg=2), Job("k_fourth_root", deg=4)] + [Job("k_pow", n=n, off=o, ln=l) for n, o, l in windows(th)] \
        + [Job("k_pow_plain", n=n, off=0, ln=l) for n, o, l in windows(th) if o == 0]


def execute(mod, j, p, zero, decisions):
    w = World(dict(decisions))
    w.sums, w.p = [], p
    pw = Powers(w, p)
    m = Machine(mod, w, [contracts(pw)])
    m.pre, m.p = [], p
    out, x = Ptr(Obj(8 * N, "out"), 0), Ptr(Obj(8 * N, "x"), 0)
    for k in range(N):
        out.obj.cells[8 * k] = (8, 0)
    pw.store(m, x, 0 if zero else (1, (((), 1),)))
    args, bits = [out, x], []
    if not j.deg:
        o = Obj(max(1, j.n), "e")
        for k in range(j.n):
            v = {}
            for t in range(8):
                b = next(iter(w.inp("e%d_%d" % (k, t), 0, 1).p))[0]
                bits.append(b)
                v = padd(v, {(b,): 1} if ("atom", b) not in decisions else const(decisions["atom", b]), 1 << t)
            o.cells[k] = (1, w.mk(v))
        args += [Ptr(o, 0), j.n, j.off, j.ln]
    r = m.call("@" + j.fn, args)
    return w, m, pw.load(m, out), r, bits


def check_root(z, j, p, zero, w, res, r):
    """-> reason or None"""
    eqs = [(k, b) for k, b in w.decisions.items() if k[0] == "eq"]
    if not isinstance(r, int):
        return "status is not decided"
    if zero:
        return None if res == 0 and r == 0xFFFFFFFF else "zero is its own root"
    if len(eqs) != 1 or eqs[0][0][1] != 1:
        return "no single equality test decides success"
    D = eqs[0][0][2]
    if [t for t, _ in D] not in ([()], []):
        return "exponent is not constant"
    D = D[0][1] if D else 0
    # x = g^k: x^D = 1 exactly for the k with a root (k even: p = 3 mod 4, so the squares are the fourth powers)
    for a in (["(= (* k %s) (* m %s))" % (i(D), i(p - 1)), "(= k (+ 1 (* 2 j)))"],
              ["(= (- (* 2 j %s) (* m %s)) r)" % (i(D), i(p - 1)), "(< 0 r)", "(< r %s)" % i(p - 1)]):
        if not z.unsat(["k", "m", "j", "r"], a):
            return "the success test is not the existence of a root"
    if not eqs[0][1]:
        return None if res == 0 and r == 0 else "failure has to give zero and report it"
    if r != 0xFFFFFFFF or res == 0:
        return "success has to give a root and report it"
    e = dict(res[1])
    if set(e) - {()}:
        return "exponent is not constant"
    e = e.get((), 0)
    # x = g^(2 j): (x^e)^deg = x
    if not z.unsat(["m", "j", "r"], ["(= (- (* 2 j %s) (* m %s)) r)" % (i(j.deg * e - 1), i(p - 1)), "(< 0 r)", "(< r %s)" % i(p - 1)]):
        return "the result is not a root"
    par = [(k, b) for k, b in w.decisions.items() if k[0] == "odd"]
    if [k[1] for k, b in par] != [res[1]]:
        return "the parity of the result is not decided"
    return None if res[0] == (-1 if par[0][1] else 1) else "the result is the root with the odd representative"


def check_pow(z, j, p, zero, w, res, bits):
    nm = lambda a: "b%d" % a
    target = {}
    for k in range(j.ln):
        target = padd(target, {(bits[j.off + k],): 1}, 1 << k)
    dec = ["(= %s %d)" % (nm(k[1]), b) for k, b in w.decisions.items() if k[0] == "atom"]
    rng_ = ["(<= 0 %s 1)" % nm(b) for b in bits]
    t = poly(target, nm)
    if zero:
        # 0^e: one exactly for e = 0
        if res not in (0, (1, ())):
            return "power of zero is neither zero nor one"
        return None if z.unsat([nm(b) for b in bits], rng_ + dec + ["(%s %s 0)" % ("=" if res == 0 else "distinct", t)]) else "wrong power of zero"
    if res == 0 or res[0] != 1:
        return "the result is not a power of the input"
    d = padd(dict(res[1]), target, -1)
    # exponents agree as integers, or at least modulo p - 1
    if z.unsat([nm(b) for b in bits], rng_ + dec + ["(distinct %s 0)" % poly(d, nm)]):
        return None
    return None if z.unsat([nm(b) for b in bits], rng_ + dec + ["(distinct (mod %s %d) 0)" % (poly(d, nm), p - 1)]) else "the exponent differs from the encoded one"


def vectors(j, p, rng):
    x = rng.choice([0, R % p, p - R % p, rng.randrange(p), rng.randrange(p), pow(rng.randrange(p), 2, p) * pow(R, -1, p) % p, rng.randrange(1, 50) * R % p])
    e = rng.choice([0, (1 << 8 * j.n) - 1, rng.randrange(1 << 8 * j.n), 1 << rng.randrange(max(1, 8 * j.n)), rng.randrange(1 << 8 * j.n)]) % (1 << 8 * j.n)
    return x, e


def decide(job):
    j, p, budget, seed = job
    t0 = time.time()
    sys.setrecursionlimit(20000)
    res = dict(fn=j.label(), paths=0, infeasible=0, proven=[], open=[], queries=0, solver_ms=0, replayed=0, fail=None, called=[], seconds=0)
    z, rng = Z(), random.Random(seed)
    lib = Native().lib
    try:
        mod = Module(os.path.join(TARGET, "debug", "deps", "fpk.ll"))
        for zero in (True, False):
            if zero and not j.deg and j.ln > 6:
                continue  # one path per exponent: short windows only (see bounds)
            todo = [{}]
            while todo:
                if time.time() - t0 > budget or res["paths"] > 300:
                    res["open"].append("path or time limit")
                    break
                d = todo.pop()
                try:
                    w, m, v, r, bits = execute(mod, j, p, zero, d)
                except Fork as f:
                    todo += [{**d, f.key: 1}, {**d, f.key: 0}]
                    continue
                except Panic as x:
                    res["open"].append("a path reaches a panic: %s" % str(x)[:80])
                    continue
                res["called"] = sorted(set(res["called"]) | m.called)
                res["paths"] += 1
                why = check_root(z, j, p, zero, w, v, r) if j.deg else check_pow(z, j, p, zero, w, v, bits)
                (res["open"] if why else res["proven"]).append(why or ("x = 0" if zero else "x = g^k") + " " + ", ".join("%s=%d" % (k[0], b) for k, b in w.decisions.items())[:60])
    except Unsupported as x:
        res["open"].append("outside the executor: %s" % str(x)[:120])
    except Exception as x:
        res["open"].append("encoding failed: %s %s" % (type(x).__name__, str(x)[:120]))
    t1, n = time.time(), 0
    while n < 12 or (res["open"] and time.time() - t1 < 20):
        x, e = vectors(j, p, rng)
        n += 1
        got, want = j.native(lib, p, x, e)
        res["replayed"] += 1
        if got != want:
            res["fail"] = ((x, e), "got %r, the specification says %r" % (got, want))
            break
    res["queries"], res["solver_ms"], res["seconds"] = z.n, z.ms, round(time.time() - t0, 1)
    return res


def work(job):
    try:
        return decide(job)
    except BaseException as x:
        return "%s %s" % (type(x).__name__, str(x)[:200])


def run(ck):
    ck.source("src/finitefield/fp_gen.rs", "src/fields.rs")
    ok, log = build()
    if not ok:
        ck.nobuild.append("E5: the base field does not build with the harness: " + " / ".join(l for l in log.splitlines() if l.startswith("error"))[:300])
        return
    p = modulus()
    th = ck.tier != "quick"
    js = jobs(th)
    with multiprocessing.get_context("fork").Pool(8) as pool:
        got = [pool.apply_async(work, ((j, p, 40 if not th else 1500, SEED + k),)) for k, j in enumerate(js)]
        for k, (j, g) in enumerate(zip(js, got)):
            try:
                r = g.get(max(5, ck.left() - 30))
            except multiprocessing.TimeoutError:
                r = "no answer in time"
            if isinstance(r, str):
                ck.incomplete.append("E5 %s: %s" % (j.label(), r))
                continue
            ck.functions += [f for f in r["called"] if f not in ck.functions]
            ck.parts.append({k: (v if k not in ("open", "proven") else v[:8]) for k, v in r.items() if k not in ("fail", "called")})
            ck.queries += r["queries"]
            ck.solver_ms += r["solver_ms"]
            ck.replayed += r["replayed"]
            if r["fail"]:
                (x, e), what = r["fail"]
                ck.violation("E5", r["fn"], "input words %s, exponent bytes %s: %s" % (hex(x), hex(e), what[:300]),
                             "cd %s/checks && exec python3 e5.py replay %d %d %d %d" % (VERIF, int(th), k, x, e))
                break
            elif r["open"]:
                ck.incomplete.append("E5 %s: %s" % (r["fn"], "; ".join(r["open"])[:300]))
            else:
                ck.states += r["paths"]
                ck.transitions += r["paths"] + len(r["proven"])
    ck.bounds += ["roots: every field element (zero, and g^k for every integer k)", "powers: every bit pattern of the exponent for the windows (bytes, offset, length) %s; every non-zero base; base zero for lengths up to 6" % windows(th)]
    ck.outside += ["pow_big beyond 64-bit exponents (num-bigint is outside the compiled IR)", "other exponent lengths", "the contracts of multiplication, squaring, comparison, encoding, conditional copy and negation (C01, C02, C03) and the primality of p (C19)"]
    ck.samples += [dict(entry=x["fn"], proven=x["proven"][:3]) for x in ck.parts if "fn" in x][:4]


if __name__ == "__main__":
    if not build()[0]:
        sys.exit(2)
    th, k, x, e = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
    got, want = jobs(th)[k].native(Native().lib, modulus(), x, e)
    print("got ", got, "\nwant", want)
    sys.exit(1 if got != want else 0)
