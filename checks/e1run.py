"""Engine E1: the word-level base field at its real size (21 words, 1293-bit modulus).

The LLVM IR rustc generates from /repo/src/finitefield/fp_gen.rs + fields.rs is executed symbolically over 64-bit input
words (checks/ir.py keeps every word as an exact integer polynomial over inputs, quotients and remainders); the
congruence with the integer formula is decided by exact elimination modulo p, the carries it leaves open and all ranges by
z3 (checks/e1.py).  The encoding is compared with the compiled code on concrete vectors in every run."""
import ctypes, multiprocessing, os, random, re, subprocess, sys, time
from common import *
from e1 import *

TARGET = os.path.join(BUILD, "fpk")
N, TOP = 21, 13
R = 1 << (64 * N)
MASK = (1 << 64) - 1


def modulus():
    src = open(os.path.join(REPO, "src/fields.rs")).read()
    i = src.index("const MODULUS")
    nums = re.findall(r"0x[0-9A-Fa-f_]+", src[i:src.index(";", src.index("= [", i))])
    return sum(int(x.replace("_", ""), 16) << (64 * k) for k, x in enumerate(nums))


def build():
    flags = "--emit=llvm-ir -C opt-level=3 -C no-prepopulate-passes -C codegen-units=1 -C debug-assertions=off -C overflow-checks=off -C debuginfo=0"
    r = subprocess.run(["cargo", "rustc", "-q", "--lib", "--"] + flags.split(), cwd=os.path.join(VERIF, "harness", "fpk"),
                       env=env(TARGET), capture_output=True, text=True, timeout=600)
    return r.returncode == 0, r.stdout + r.stderr


# ---------------------------------------------------------------- entry points
# kind of inputs: F field element, ("int", bits, signed), ("bytes", n), C control word 0 / all-ones
class Entry:
    def __init__(self, fn, ins, conc, obl, out="F", ret=False, prods=False, summ=False):
        self.fn, self.ins, self.conc, self.obl, self.out, self.ret, self.prods, self.summ = fn, ins, conc, obl, out, ret, prods, summ


def lin(*cs):
    """result congruent to sum cs_i x_i"""
    def f(p, X, O, ret):
        d = O
        for c, x in zip(cs, X):
            d = padd(d, x, -c)
        return [("cong", d), ("range", O, p - 1)]
    return f


def mont(*prods):
    def f(p, X, O, ret):
        d = pscale(O, R)
        for s, i, j in prods:
            d = padd(d, pmul(X[i], X[j]), -s)
        return [("cong", d), ("range", O, p - 1)]
    return f


def half(p, X, O, ret):
    return [("cong", padd(pscale(O, 2), X[0], -1)), ("range", O, p - 1)]


def conv(p, X, O, ret):
    return [("cong", padd(O, X[0], -R)), ("range", O, p - 1)]


def small(p, X, O, ret):
    return [("cong", padd(O, pmul(X[0], X[1]), -1)), ("range", O, p - 1)]


def enc(p, X, O, ret):
    return [("cong", padd(pscale(O, R), X[0], -1)), ("range", O, p - 1)]


def dec(p, X, O, ret):
    if ret == 0xFFFFFFFF:
        return [("cong", padd(O, X[0], -R)), ("range", O, p - 1), ("range", X[0], p - 1)]
    if ret == 0:
        return [("zero", O), ("atleast", X[0], p)]
    return [("bad", "return value %r" % (ret,))]


def dec_bad(p, X, O, ret):
    return [("zero", O)] if ret == 0 else [("bad", "string of a wrong length accepted")]


Fp1, Fp2, Fp4 = ["F"], ["F", "F"], ["F"] * 4
inv = lambda p: pow(R, -1, p)
ENTRIES = {
    "C02": [
        Entry("k_condneg_no", Fp1, lambda p, a: a, lambda p, X, O, ret: [("same", padd(O, X[0], -1))]),
        Entry("k_condneg_yes", Fp1, lambda p, a: -a % p, lin(-1)),
    ],
    "C01": [
        Entry("k_mul8", Fp1, lambda p, a: 8 * a % p, lin(8)),
        Entry("k_mul_small", ["F", ("int", 32, True)], lambda p, a, k: a * k % p, small, prods=True),
        Entry("k_difference_products", Fp4, lambda p, a, b, c, d: (a * b - c * d) * inv(p) % p, mont((1, 0, 1), (-1, 2, 3))),
        Entry("k_sum_products", Fp4, lambda p, a, b, c, d: (a * b + c * d) * inv(p) % p, mont((1, 0, 1), (1, 2, 3))),
        Entry("k_mul4", Fp1, lambda p, a: 4 * a % p, lin(4)),
        Entry("k_mul3", Fp1, lambda p, a: 3 * a % p, lin(3)),
        Entry("k_mul", Fp2, lambda p, a, b: a * b * inv(p) % p, mont((1, 0, 1))),
        Entry("k_mul_assign", Fp2, lambda p, a, b: a * b * inv(p) % p, mont((1, 0, 1))),
        Entry("k_square", Fp1, lambda p, a: a * a * inv(p) % p, mont((1, 0, 0))),
        Entry("k_add", Fp2, lambda p, a, b: (a + b) % p, lin(1, 1)),
        Entry("k_add_assign", Fp2, lambda p, a, b: (a + b) % p, lin(1, 1)),
        Entry("k_sub", Fp2, lambda p, a, b: (a - b) % p, lin(1, -1)),
        Entry("k_sub_assign", Fp2, lambda p, a, b: (a - b) % p, lin(1, -1)),
        Entry("k_neg", Fp1, lambda p, a: -a % p, lin(-1)),
        Entry("k_set_neg", Fp1, lambda p, a: -a % p, lin(-1)),
        Entry("k_half", Fp1, lambda p, a: a * ((p + 1) // 2) % p, half),
        Entry("k_mul2", Fp1, lambda p, a: 2 * a % p, lin(2)),
    ],
    "C03": [
        Entry("k_from_u64", [("int", 64, False)], lambda p, x: x * R % p, conv),
        Entry("k_from_u32", [("int", 32, False)], lambda p, x: x * R % p, conv),
        Entry("k_from_i64", [("int", 64, True)], lambda p, x: x * R % p, conv),
        Entry("k_from_i32", [("int", 32, True)], lambda p, x: x * R % p, conv),
        Entry("k_encode", Fp1, lambda p, a: a * inv(p) % p, enc, out=("bytes", 162)),
        Entry("k_decode", [("bytes", 162)], lambda p, v: (v * R % p, 0xFFFFFFFF) if v < p else (0, 0), dec, ret=True),
        Entry("k_mul", Fp2, lambda p, a, b: a * b * inv(p) % p, mont((1, 0, 1))),
        Entry("k_add", Fp2, lambda p, a, b: (a + b) % p, lin(1, 1)),
    ] + [Entry("k_decode", [("bytes", n)], lambda p, v: (0, 0), dec_bad, ret=True) for n in (0, 1, 80, 161, 163, 324)]
      + [Entry("k_decode_reduce", [("bytes", n)], lambda p, v: v * R % p, conv, summ=n > 160) for n in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 80, 96, 127, 128, 129, 152, 153, 158, 159, 160, 161, 162, 163, 168, 170, 178, 200, 319, 320, 321, 322, 480, 481, 500)],
}
THOROUGH = {"C03": [Entry("k_decode", [("bytes", n)], lambda p, v: (0, 0), dec_bad, ret=True) for n in range(2, 330) if n != 162]
            + [Entry("k_decode_reduce", [("bytes", n)], lambda p, v: v * R % p, conv, summ=n > 160) for n in range(2, 700, 3)]}


def label(e):
    return e.fn + "".join("[%d]" % k[1] for k in e.ins if isinstance(k, tuple) and k[0] == "bytes")


# ---------------------------------------------------------------- native code
class Native:
    def __init__(self):
        self.lib = ctypes.CDLL(os.path.join(TARGET, "debug", "libfpk.so"))

    def run(self, e, vals):
        args = []
        n = e.out[1] if isinstance(e.out, tuple) else 8 * N
        out = (ctypes.c_uint8 * n)()
        args.append(ctypes.byref(out))
        for k, v in zip(e.ins, vals):
            if k == "F":
                args.append(ctypes.byref((ctypes.c_uint8 * (8 * N)).from_buffer_copy(v.to_bytes(8 * N, "little"))))
            elif k[0] == "int":
                t = {(32, True): ctypes.c_int32, (32, False): ctypes.c_uint32, (64, True): ctypes.c_int64, (64, False): ctypes.c_uint64}[k[1:]]
                args.append(t(v))
            else:
                b = v.to_bytes(k[1], "little") if k[1] else b""
                args += [(ctypes.c_uint8 * max(1, k[1])).from_buffer_copy(b or b"\0"), ctypes.c_size_t(k[1])]
        f = getattr(self.lib, e.fn)
        f.restype = ctypes.c_uint32
        r = f(*args)
        o = int.from_bytes(bytes(out), "little")
        return (o, r) if e.ret else o


def candidates(e, p, rng, count):
    """boundary and random concrete inputs"""
    fe = [0, 1, 2, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, R % p, R * R % p, p - R % p, (1 << 1292) - 1, 1 << 1292, MASK, p >> 1, p // 3, p // 4, p // 8, 3 * (p // 4) + 1]
    fe += [MASK << (64 * k) for k in (0, 1, 9, 10, 18, 19)] + [(1 << (64 * k)) - 1 for k in (1, 5, 10, 20)] + [p - (1 << (64 * k)) for k in (1, 9, 10, 15, 20)]
    fe = [x for x in fe if 0 <= x < p]

    def one(k):
        if k == "F":
            return rng.choice(fe) if rng.random() < .6 else rng.randrange(p)
        if k[0] == "int":
            b = k[1]
            c = [0, 1, 2, 3, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << (b - 1)) + 1, 0xAAAAAAAA, 0xFFFF]
            x = rng.choice(c) if rng.random() < .6 else rng.randrange(1 << b)
            x &= (1 << b) - 1
            return x - (1 << b) if k[2] and x >> (b - 1) else x
        lim = 1 << (8 * k[1])
        c = [0, 1, p - 1, p, p + 1, 2 * p - 1, 2 * p, lim - 1, (1 << 1293) - 1, (1 << 1293), p + (1 << 64), p - (1 << 640), MASK]
        return (rng.choice(c) if rng.random() < .6 else rng.randrange(lim)) % lim
    seen = []
    if len(e.ins) == 1 and e.ins[0] == "F":
        seen += [(x,) for x in fe]
    for _ in range(count):
        seen.append(tuple(one(k) for k in e.ins))
    return seen


def structured(e, p, rng):
    """operands built from special words (search for a concrete counterexample once a verdict is missing)"""
    pw = [(p >> (64 * k)) & MASK for k in range(N)]

    def one(k):
        if k == "F":
            mode = rng.randrange(4)
            if mode == 0:
                return rng.choice([rng.randrange(p), rng.randrange(1 << rng.randrange(1, 1290)), p - 1 - rng.randrange(1 << rng.randrange(1, 1290))])
            if mode == 1:       # close to a fraction of p
                d = rng.randrange(1, 1 << 12)
                return max(0, min(p - 1, rng.randrange(d) * p // d + rng.randrange(-3, 4)))
            if mode == 2:
                d = rng.randrange(1, 1 << 31)
                return max(0, min(p - 1, rng.randrange(1, d + 1) * p // d - rng.randrange(1 << rng.randrange(1, 1285))))
            v = 0
            for i in range(N):
                v |= rng.choice([0, MASK, pw[i], rng.getrandbits(64), 1, MASK - 1, 1 << 63, (pw[i] + rng.randrange(-2, 3)) & MASK]) << (64 * i)
            return v % p if rng.random() < .5 else v & ((1 << 1292) - 1)
        if k[0] == "int":
            b = k[1]
            x = rng.choice([rng.getrandbits(b), rng.getrandbits(rng.randrange(1, b + 1)), (1 << b) - 1 - rng.getrandbits(rng.randrange(1, b + 1)), 1 << (b - 1)])
            return x - (1 << b) if k[2] and x >> (b - 1) else x
        lim = 1 << (8 * k[1])
        x = rng.choice([rng.randrange(lim), p + rng.randrange(-2000, 2000), p * rng.randrange(1, 9) + rng.randrange(-3, 4), sum(rng.choice([0, MASK, pw[i], pw[i] + 1]) << (64 * i) for i in range(N)),
                        p ^ (1 << rng.randrange(1296)), p + (1 << rng.randrange(1296)), p - (1 << rng.randrange(1290))])
        return x % lim
    vals = [one(k) for k in e.ins]
    fs = [i for i, k in enumerate(e.ins) if k == "F"]
    if len(fs) > 1 and rng.random() < .2:
        i, j = rng.sample(fs, 2)
        vals[i] = rng.choice([vals[j], (p - vals[j]) % p])
    if len(fs) and len(e.ins) == 2 and e.ins[1] != "F" and e.ins[1][0] == "int" and vals[1] and rng.random() < .5:
        # the product lands next to a multiple of p
        m = abs(vals[1])
        vals[0] = max(0, min(p - 1, rng.randrange(1, m + 1) * p // m + rng.choice([0, 1, -1, -2, -rng.randrange(1 << 1240)])))
    return tuple(vals)


# ---------------------------------------------------------------- symbolic side
def word(o, k):
    return padd({}, {}) if o is None else o


def summary(m, name, args):
    """set_mul / set_add on reduced operands (what k_mul and k_add establish in the same run): a fresh reduced value"""
    k = re.search(r"2Fp7set_(mul|add)$|[^0-9]Fp.*7set_(mul|add)17h", name)
    if not k:
        return None
    op = k[1] or k[2]
    w = m.w
    vals = []
    for a in args[:2]:
        a = m.deref(a)
        v = {}
        for i in range(N):
            v = padd(v, pscale(P(m.load(Ptr(a.obj, a.off + 8 * i), 8)), 1 << (64 * i)))
        m.pre.append(v)
        vals.append(v)
    ids = []
    o = m.deref(args[0])
    for i in range(N):
        x = w.atom("sum", 0, MASK if i < N - 1 else (1 << TOP) - 1, name=(op, vals[0], vals[1], i))
        ids.append(x.id)
        m.store(Ptr(o.obj, o.off + 8 * i), 8, V({(x.id,): 1}, x.lo, x.hi))
    w.sums.append((tuple(ids), op, vals[0], vals[1]))
    return (None,)


def expand(w, d, p):
    """replace the results of summarised calls by what they are congruent to"""
    d = elim(w, d, p)
    for ids, op, A, B in reversed(w.sums):
        c = d.get((ids[0],), 0)
        if not all(d.get((i,), 0) == c * (1 << (64 * k)) % p for k, i in enumerate(ids)):
            return d
        if not c:
            continue
        d = {m: x for m, x in d.items() if not (len(m) == 1 and m[0] in ids)}
        v = pscale(pmul(A, B), pow(R, -1, p)) if op == "mul" else padd(A, B)
        d = elim(w, padd(d, v, c), p)
    return d


def symbolic(mod, e, decisions, p):
    w = World(dict(decisions))
    w.sums, w.p = [], p
    if e.prods:
        w.prods = []
    m = Machine(mod, w, [summary] if e.summ else None)
    m.pre, m.p = [], p
    out = Ptr(Obj(e.out[1] if isinstance(e.out, tuple) else 8 * N, "out"), 0)
    if not isinstance(e.out, tuple):
        for i in range(N):
            out.obj.cells[8 * i] = (8, 0)
    args, X, vec, inputs = [out], [], [], []
    for j, k in enumerate(e.ins):
        if k == "F":
            o = Obj(8 * N, "x%d" % j)
            ids = []
            for i in range(N):
                x = w.inp("x%d_%d" % (j, i), 0, MASK if i < N - 1 else (1 << TOP) - 1)
                o.cells[8 * i] = (8, x)
                ids.append(next(iter(x.p))[0])
            args.append(Ptr(o, 0))
            vec.append((tuple(ids), p - 1))
            X.append({(i,): 1 << (64 * t) for t, i in enumerate(ids)})
            inputs.append(("F", ids))
        elif k[0] == "int":
            bits, signed = k[1:]
            if signed:      # one path per sign: k = low - 2^(b-1) s
                s = ("sign", j)
                if s not in w.decisions:
                    raise Fork(s, "sign")
                s = w.decisions[s]
                lo = w.inp("lo%d" % j, 0, (1 << (bits - 1)) - 1)
                v = w.mk(padd(lo.p, const(s << (bits - 1))))
                X.append(padd(lo.p, const(-(s << (bits - 1)))))
                inputs.append(("si", next(iter(lo.p))[0], bits, s))
            else:
                v = w.inp("x%d" % j, 0, (1 << bits) - 1)
                X.append(v.p)
                inputs.append(("u", [next(iter(v.p))[0]]))
            args.append(v)
        else:
            o = Obj(max(1, k[1]), "buf")
            ids = []
            for i in range(k[1]):
                x = w.inp("b%d" % i, 0, 255)
                o.cells[i] = (1, x)
                ids.append(next(iter(x.p))[0])
            args += [Ptr(o, 0), k[1]]
            X.append({(i,): 1 << (8 * t) for t, i in enumerate(ids)})
            inputs.append(("b", ids))
    r = m.call("@" + e.fn, args)
    if e.ret and not isinstance(r, int):
        w.fork_on(r)
        raise Unsupported("return value")
    if e.prods and len(w.prods) == N:
        # word products a_i * k of one factor k: sum a_i k 2^64i <= (p - 1) k
        ps = [w.atoms[i] for i in w.prods]
        com = set.intersection(*(set(m) for a in ps for m in a.B))
        if com and all(len(a.B) == 1 and list(a.B.values()) == [1] for a in ps):
            for k in sorted(com):
                rest = [tuple(x for x in next(iter(a.B)) if x != k) for a in ps]
                if rest == [(x,) for x in vec[0][0]]:
                    vec.append((tuple(w.prods), (p - 1) * w.atoms[k].hi))
    O = {}
    if isinstance(e.out, tuple):
        for i in range(e.out[1]):
            O = padd(O, pscale(P(m.load(Ptr(out.obj, i), 1)), 1 << (8 * i)))
    else:
        for i in range(N):
            O = padd(O, pscale(P(m.load(Ptr(out.obj, 8 * i), 8)), 1 << (64 * i)))
    return w, m, X, vec, inputs, O, r


def assign(inputs, vals):
    """atom values for concrete inputs"""
    d = {}
    for i, v in zip(inputs, vals):
        if i[0] == "F":
            d.update({a: (v >> (64 * k)) & MASK for k, a in enumerate(i[1])})
        elif i[0] == "b":
            d.update({a: (v >> (8 * k)) & 255 for k, a in enumerate(i[1])})
        elif i[0] == "u":
            d[i[1][0]] = v
        else:
            b = i[2]
            d[i[1]] = v & ((1 << (b - 1)) - 1)
            if (v >> (b - 1)) & 1 != i[3]:
                return None
    return d


def read_model(inputs, vals):
    out = []
    for i in inputs:
        if i[0] == "F":
            out.append(sum(vals.get(a, 0) << (64 * k) for k, a in enumerate(i[1])))
        elif i[0] == "b":
            out.append(sum(vals.get(a, 0) << (8 * k) for k, a in enumerate(i[1])))
        elif i[0] == "u":
            out.append(vals.get(i[1][0], 0))
        else:
            out.append(vals.get(i[1], 0) - (i[3] << (i[2] - 1)))
    return tuple(out)


def on_path(w, v, ev):
    return all(k[0] != "atom" or v[k[1]] == b for k, b in w.decisions.items())


def decide(args):
    """all paths of one entry point; runs in a worker process"""
    e, p, budget, seed = args[0], args[1], args[2], args[3]
    prop, idx, thorough = e
    e = (ENTRIES[prop] + (THOROUGH.get(prop, []) if thorough else []))[idx]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    res = dict(fn=label(e), paths=0, infeasible=0, proven=[], open=[], queries=0, solver_ms=0, replayed=0, fail=None, called=[], seconds=0)
    S = Solver()
    nat = Native()
    rng = random.Random(seed)

    def native_bad(vals):
        res["replayed"] += 1
        got, want = nat.run(e, vals), e.conc(p, *vals)
        if got != want:
            res["fail"] = (vals, "got %x, the specification says %x" % ((got if not e.ret else got[0]), (want if not e.ret else want[0]))
                           + (" (status %x, expected %x)" % (got[1], want[1]) if e.ret else ""))
            return True
        return False
    cands = candidates(e, p, rng, 120)
    done_paths = []
    try:
        mod = Module(os.path.join(TARGET, "debug", "deps", "fpk.ll"))
        todo = [{}]
        while todo:
            if time.time() - t0 > budget or len(done_paths) > 64:
                res["open"].append("path limit or time limit reached with %d paths open" % len(todo))
                break
            d = todo.pop()
            try:
                w, m, X, vec, inputs, O, r = symbolic(mod, e, d, p)
            except Fork as f:
                todo += [{**d, f.key: 1}, {**d, f.key: 0}]
                continue
            except Panic as x:
                res["open"].append("a path reaches a panic: %s" % str(x)[:80])
                continue
            res["called"] = sorted(set(res["called"]) | m.called)
            D = Decide(w, S, p, vec)
            try:
                feas = D.feasible(60)
            except Unsupported:
                feas = True
            if not feas:
                res["infeasible"] += 1
                continue
            res["paths"] += 1
            done_paths.append((w, inputs, O, r))
            if e.prods:
                D.division_lemmas()
            D.bounds_of(O)
            for ids, *_ in w.sums:
                vec.append((ids, p - 1))
                D.vecof.update({i: (ids, p - 1, k) for k, i in enumerate(ids)})
            obs = e.obl(p, X, O, r)
            obs += [("range", v, p - 1) for v in m.pre]
            for ob in obs:
                models = None
                if w.sums and ob[0] == "cong":
                    ob = ("cong", expand(w, ob[1], p))
                if ob[0] == "same":
                    (res["open"] if elim(w, ob[1]) else res["proven"]).append("equality")
                elif ob[0] == "cong":
                    ok, why = D.congruent(ob[1])
                    if ok:
                        res["proven"].append("congruence (%s)" % why)
                    else:
                        why, models = why[0], why[1]
                        res["open"].append("congruence: " + why)
                elif ob[0] == "range":
                    if not ob[1]:
                        res["proven"].append("range (constant 0)")
                        continue
                    ok, models = D.in_range(ob[1], ob[2], timeout=max(20, min(250, budget - (time.time() - t0))))
                    (res["proven"] if ok else res["open"]).append("range")
                elif ob[0] == "atleast":
                    rr, models = D.lia([(padd(ob[1], const(-(ob[2] - 1))), "<=")], timeout=60, model=True)
                    (res["proven"] if rr == "unsat" else res["open"]).append("lower bound")
                elif ob[0] == "zero":
                    if not ob[1]:
                        res["proven"].append("zero (constant)")
                    else:
                        rr, models = D.lia([(padd(ob[1], const(-1)), ">=")], timeout=60, model=True)
                        (res["proven"] if rr == "unsat" else res["open"]).append("zero")
                else:
                    res["open"].append(ob[1])
                if models:
                    cands.insert(0, read_model(inputs, models))
    except Unsupported as x:
        res["open"].append("outside the executor: %s" % str(x)[:120])
    except Exception as x:
        res["open"].append("encoding failed: %s %s" % (type(x).__name__, str(x)[:120]))
    # the encoding against the compiled code
    for vals in cands[:40]:
        for w, inputs, O, r in done_paths:
            try:
                env_ = assign(inputs, vals)
                if env_ is None:
                    continue
                v, ev = evaluate(w, env_)
            except Unsupported:
                break
            if v is None or not on_path(w, v, ev):
                continue
            got = nat.run(e, vals)
            res["replayed"] += 1
            if (ev(O) if not e.ret else (ev(O), r)) != got:
                res["open"].append("the encoding disagrees with the compiled code on %r" % (vals,))
            break
        else:
            if done_paths and not res["open"]:
                res["open"].append("no path covers %r" % (vals,))
    for vals in cands:
        if native_bad(vals):
            break
    if res["open"] and not res["fail"]:
        # no verdict: look for a concrete counterexample
        t1 = time.time()
        while time.time() - t1 < 25:
            if native_bad(structured(e, p, rng)):
                break
    res["queries"], res["solver_ms"], res["seconds"] = S.queries, S.ms, round(time.time() - t0, 1)
    return res


def worker(job, conn):
    os.setsid()
    try:
        conn.send(decide(job))
    except BaseException as x:
        conn.send("%s %s" % (type(x).__name__, str(x)[:200]))
    conn.close()


def run(ck):
    ck.source("src/finitefield/fp_gen.rs", "src/fields.rs")
    ok, log = build()
    if not ok:
        ck.nobuild.append("E1: the base field does not build with the harness: " + " / ".join(l for l in log.splitlines() if l.startswith("error"))[:300])
        return
    p = modulus()
    th = ck.tier != "quick"
    es = ENTRIES[ck.prop] + (THOROUGH.get(ck.prop, []) if th else [])
    budget = (300 if ck.tier == "quick" else 2400)
    ck.bounds += ["all reduced operands of 21 words (below the 1293-bit modulus); all integer arguments of the stated width; byte strings: every content of the lengths "
                  + ",".join(sorted({str(k[1]) for e in es for k in e.ins if isinstance(k, tuple) and k[0] == "bytes"}, key=int) or ["-"])]
    ck.outside += ["operands that are not reduced", "byte strings of other lengths", "what rustc's back end does after LLVM IR"]
    jobs = [((ck.prop, i, th), p, budget, SEED + i) for i in range(len(es))]
    ctx = multiprocessing.get_context("fork")
    waiting, live, results = list(enumerate(jobs)), {}, {}
    while waiting or live:
        while waiting and len(live) < (os.cpu_count() or 4):
            i, j = waiting.pop(0)
            a, b = ctx.Pipe(False)
            pr = ctx.Process(target=worker, args=(j, b), daemon=True)
            pr.start()
            b.close()
            live[i] = (pr, a)
        late = ck.left() < 40
        for i, (pr, a) in list(live.items()):
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = "the worker ended"
            elif not late:
                continue
            try:
                os.killpg(pr.pid, 9)
            except OSError:
                pr.kill()
            pr.join()
            del live[i]
        if late:
            break
    for i, e in enumerate(es):
        r = results.get(i, "no answer in time")
        if isinstance(r, str):
            ck.incomplete.append("E1 %s: %s" % (label(e), r))
            continue
        ck.functions += [f for f in r["called"] if f not in ck.functions]
        ck.parts.append({k: (v if k not in ("open", "proven") else v[:12]) for k, v in r.items() if k not in ("fail", "called")})
        ck.queries += r["queries"]
        ck.solver_ms += r["solver_ms"]
        ck.replayed += r["replayed"]
        if r["fail"]:
            vals, what = r["fail"]
            ck.violation("E1", r["fn"], "inputs %s: %s" % (", ".join(hex(v) for v in vals), what), replay_script(ck.prop, i, th, vals))
            continue
        if r["open"]:
            ck.incomplete.append("E1 %s: %s" % (r["fn"], "; ".join(r["open"])[:300]))
        else:
            ck.states += r["paths"]
            ck.transitions += r["paths"] + r["infeasible"] + len(r["proven"])
    ck.samples += [dict(entry=x["fn"], proven=x["proven"][:3]) for x in ck.parts if "fn" in x][:6]


def replay_script(prop, idx, th, vals):
    return "cd %s/checks && exec python3 e1run.py replay %s %d %d %s" % (VERIF, prop, idx, int(th), " ".join(str(v) for v in vals))


def kani_replay(name, v):
    """native run of a Kani counterexample: words of the operands, then the control"""
    lib = Native().lib
    ops = [sum(x << (64 * k) for k, x in enumerate(v[21 * i:21 * i + 21])) for i in range(len(v) // 21)]
    c = 0xFFFFFFFF if len(v) % 21 and v[-1] else 0
    buf = [(ctypes.c_uint8 * 168).from_buffer_copy(x.to_bytes(168, "little")) for x in ops]
    val = lambda b: int.from_bytes(bytes(b), "little")
    ref, out = [ctypes.byref(b) for b in buf], (ctypes.c_uint8 * 168)()
    u = ctypes.c_uint32
    if name.startswith("pow_big"):
        p, e = modulus(), v[0]
        x = 3 * R % p
        b = (ctypes.c_uint8 * 168).from_buffer_copy(x.to_bytes(168, "little"))
        lib.k_pow_big(ctypes.byref(out), ctypes.byref(b), ctypes.c_uint64(e), ctypes.c_uint64(0))
        got, want = val(out), pow(3, e, p) * R % p
        print(name, "base 3, exponent", e, "got", hex(got), "want", hex(want))
        return got != want
    if name == "iszero":
        lib.k_iszero.restype = u
        got, want = lib.k_iszero(ref[0]), 0xFFFFFFFF if ops[0] == 0 else 0
    elif name == "equals":
        lib.k_equals.restype = u
        got, want = lib.k_equals(*ref[:2]), 0xFFFFFFFF if ops[0] == ops[1] else 0
    elif name == "select":
        lib.k_select(ctypes.byref(out), ref[0], ref[1], u(c))
        got, want = val(out), ops[1] if c else ops[0]
    elif name == "set_cond":
        lib.k_set_cond(ref[0], ref[1], u(c))
        got, want = val(buf[0]), ops[1] if c else ops[0]
    else:
        lib.k_condswap(ref[0], ref[1], u(c))
        got, want = (val(buf[0]), val(buf[1])), (ops[1], ops[0]) if c else (ops[0], ops[1])
    print(name, "operands", [hex(x) for x in ops], "control", hex(c), "got", got, "want", want)
    return got != want


if __name__ == "__main__":
    if sys.argv[1] == "kani":
        if not build()[0]:
            sys.exit(2)
        sys.exit(1 if kani_replay(sys.argv[2], [int(x) for x in sys.argv[3:]]) else 0)
    if sys.argv[1] == "replay":
        ok, log = build()
        if not ok:
            print(log)
            sys.exit(2)
        prop, idx, th = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        e = (ENTRIES[prop] + (THOROUGH.get(prop, []) if th else []))[idx]
        vals = tuple(int(x) for x in sys.argv[5:])
        p = modulus()
        got, want = Native().run(e, vals), e.conc(p, *vals)
        print("got ", got, "\nwant", want)
        sys.exit(1 if got != want else 0)
