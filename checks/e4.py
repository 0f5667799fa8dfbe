"""C19: the constants of the crate, as rustc evaluates them from the current sources, against their defining relations.
Every relation becomes a z3 formula over integer terms; the negation has to be unsatisfiable.  Quantified relations (divisors of the
listed factors, dividends of the reciprocal division) range over all values; the others are ground.
Usable from the command line: e4.py GROUP re-evaluates one group with Python integers only (the replay)."""
import json, os, subprocess, sys, time
from math import gcd, prod
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import VERIF, REPO, BUILD, env

TARGET = os.path.join(BUILD, "cst")
CURVE_A = 6  # starting curve y^2 = x^3 + 6 x^2 + x


def build():
    r = subprocess.run(["cargo", "build", "-q", "--offline"], cwd=os.path.join(VERIF, "harness", "cst"), env=env(TARGET), capture_output=True, text=True, timeout=600)
    return r.returncode == 0, r.stdout + r.stderr


def constants():
    return json.loads(subprocess.run([os.path.join(TARGET, "debug", "cst")], capture_output=True, text=True, check=True).stdout)


def w64(v):
    return sum(x << (64 * k) for k, x in enumerate(v))


def w32(v):
    return sum(x << (32 * k) for k, x in enumerate(v))


# A relation is (name, lhs, op, rhs) over Python integers or closures building z3 terms; steps of certificates are ground products.
def gmul(a, b, m):
    return ((a[0] * b[0] - a[1] * b[1]) % m, (a[0] * b[1] + a[1] * b[0]) % m)


def gpow(z, e, m, steps):
    """power in Z/m[i] with the list of steps (x, y, quotients, result) taken"""
    r = (1, 0)
    for b in bin(e)[2:]:
        for (x, y) in ((r, r),) + (((None, z),) if b == "1" else ()):
            x = r
            n = gmul(x, y, m)
            steps.append((x, y, n))
            r = n
    return r


def relations(c):
    """-> {group: [(name, kind, data)]}"""
    G = {}
    p, n, bl = w64(c["MODULUS"]), c["N"], c["BITLEN"]
    R = 1 << (64 * n)
    e = lambda g, name, a, b: G.setdefault(g, []).append((name, "eq", a, b))
    cg = lambda g, name, a, b, m: G.setdefault(g, []).append((name, "cong", a, b, m))
    lt = lambda g, name, a, b: G.setdefault(g, []).append((name, "lt", a, b))
    g = "field"
    lt(g, "2^(BITLEN-1) < MODULUS", 1 << (bl - 1), p)
    lt(g, "MODULUS < 2^BITLEN", p, 1 << bl)
    e(g, "N = ceil(BITLEN/64)", n, (bl + 63) // 64)
    cg(g, "MODULUS = 3 mod 4", p, 3, 4)
    e(g, "2*HALF_MODULUS = MODULUS + 1", 2 * w64(c["HALF_MODULUS"]), p + 1)
    for k, v in (("R_VAL", R), ("DR_VAL", 2 * R), ("TR_VAL", 3 * R), ("QR_VAL", 4 * R), ("R2_VAL", R * R), ("MINUS_R_VAL", -R), ("TDEC_VAL", 1 << (64 * (2 * n - 1))),
                 ("ONE", R), ("TWO", 2 * R), ("THREE", 3 * R), ("FOUR", 4 * R), ("MINUS_ONE", -R), ("ZERO", 0)):
        cg(g, k + " congruent to its definition", w64(c[k]), v, p)
        lt(g, k + " reduced", w64(c[k]), p)
    n1 = (2 * bl - 34) // 31
    n2 = 2 * bl - 31 * n1 - 2
    cg(g, "TFIXDIV_VAL = 2^(33 n1 + 64 - n2 + 128 N)", w64(c["TFIXDIV_VAL"]), 1 << (33 * n1 + 64 - n2 + 128 * n), p)
    lt(g, "TFIXDIV_VAL reduced", w64(c["TFIXDIV_VAL"]), p)
    cg(g, "P0I * MODULUS = -1 mod 2^64", c["P0I"] * p, -1, 1 << 64)
    e(g, "P1 = top 32 bits", c["P1"], p >> (bl - 32))
    e(g, "P1DIV_M", c["P1DIV_M"], 1 + (((1 << 32) - c["P1"]) << 64) // c["P1"])
    e(g, "ENCODED_LENGTH", c["ENCODED_LENGTH"], (bl + 7) // 8)
    e(g, "BIT_LENGTH", c["BIT_LENGTH"], bl)
    G[g].append(("reciprocal division is exact for every 64-bit dividend", "recip", c["P1"], c["P1DIV_M"]))
    for k, d in (("SQRT", 4), ("FOURTH_ROOT", 8)):
        eh = c[k + "_EH"]
        for i, x in enumerate(eh):
            lt(g, "%s_EH[%d] is a window digit" % (k, i), x, 1 << c["WIN_LEN"])
        e(g, k + " exponent = (p+1)/%d" % d, d * (sum(x << (c["WIN_LEN"] * i) for i, x in enumerate(eh)) << (c["WIN_LEN"] * c[k + "_EL"])), p + 1)
    # non-residue i + NQR_RE: norm is a non-square of F_p (Euler)
    g = "nonresidue"
    nq = w64(c["NQR_RE"])
    lt(g, "NQR_RE reduced", nq, p)
    nm = (nq * nq + R * R) % p  # Montgomery representation scales the norm by the square R^2
    st = []
    r = gpow((nm, 0), (p - 1) // 2, p, st)
    G[g].append(("steps of norm^((p-1)/2)", "steps", st, p))
    cg(g, "norm of i + NQR_RE is a non-square", r[0], -1, p)
    # primality of the modulus: norm-1 element of Z/p[i] whose order is divisible by F | p+1, F > sqrt(p) + 1
    g = "prime"
    for q, ex in ((2, c["L_POWER"]), (3, 6), (19, 2)):
        cg(g, "%d^%d divides p+1" % (q, ex), p + 1, 0, q ** ex)
        for u in range(2, 60):
            if gcd(u * u + 1, p) != 1:
                continue
            iv = pow(u * u + 1, -1, p)
            z = ((u * u - 1) * iv % p, 2 * u * iv % p)
            st = []
            t = gpow(z, (p + 1) // q, p, st)
            d = ((t[0] - 1) ** 2 + t[1] ** 2) % p
            if gcd(d, p) == 1:
                break
        st2 = []
        f = gpow(z, p + 1, p, st2)
        cg(g, "norm of the witness for %d is 1" % q, z[0] * z[0] + z[1] * z[1], 1, p)
        G[g].append(("steps of the certificate for %d" % q, "steps", st + st2, p))
        cg(g, "witness^(p+1) = 1 (real part, %d)" % q, f[0], 1, p)
        cg(g, "witness^(p+1) = 1 (imaginary part, %d)" % q, f[1], 0, p)
        cg(g, "witness^((p+1)/%d) - 1 is a unit" % q, d * (pow(d, -1, p) if gcd(d, p) == 1 else 0), 1, p)
    F = 2 ** c["L_POWER"] * 3 ** 6 * 19 ** 2
    lt(g, "(F-1)^2 > p", p, (F - 1) ** 2)
    # torsion
    g = "torsion"
    D = {k: w32(c[k]) for k in ("D1", "D2", "DA", "DA1", "DA2", "M1", "M2", "BASIS_ORDER", "BIGUINT_MODULUS")}
    e(g, "BASIS_ORDER = p + 1", D["BASIS_ORDER"], p + 1)
    e(g, "BIGUINT_MODULUS = p", D["BIGUINT_MODULUS"], p)
    for k in ("D1", "D2", "DA"):
        e(g, k + " = product of its factors", D[k], prod(a ** b for a, b in c[k + "_FACTORED"]))
    for k in ("DA1", "DA2"):  # stored lists are those of one of the two equal-degree steps
        q = prod(a ** b for a, b in c[k + "_FACTORED"])
        e(g, k + " = square of the product of its factors", D[k], q * q)
        cg(g, "product of %s_FACTORED divides p+1" % k, p + 1, 0, q)
    e(g, "DA = DA1 * DA2", D["DA"], D["DA1"] * D["DA2"])
    for k in ("D1", "D2"):
        cg(g, k + " divides p+1", p + 1, 0, D[k])
    L, T = c["L_POWER"], c["THETA_ISOGENY_LENGTH"]
    cg(g, "2^L_POWER divides p+1", p + 1, 0, 1 << L)
    e(g, "L_POWER = THETA_ISOGENY_LENGTH + 2", L, T + 2)
    names = ("D1", "D2", "DA1", "DA2")
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            e(g, "gcd(%s, %s) = 1" % (a, b), gcd(D[a], D[b]), 1)
        e(g, "%s odd" % a, D[a] % 2, 1)
    seen = set()
    for k in ("D1", "D2", "DA1", "DA2", "DA"):
        for a, b in c[k + "_FACTORED"]:
            lt(g, "%s exponent of %d positive" % (k, a), 0, b)
            lt(g, "%s factor %d above 1" % (k, a), 1, a)
        e(g, k + "_FACTORED lists each prime once", len({a for a, b in c[k + "_FACTORED"]}), len(c[k + "_FACTORED"]))
        seen |= {a for a, b in c[k + "_FACTORED"]}
    for a in sorted(seen):
        G[g].append(("factor %d is prime" % a, "prime", a))
    e(g, "norm equation M1^2 D1 DA1 + M2^2 D2 DA2 = 2^THETA_ISOGENY_LENGTH", D["M1"] ** 2 * D["D1"] * D["DA1"] + D["M2"] ** 2 * D["D2"] * D["DA2"], 1 << T)
    # starting points
    g = "basis"
    Ri = pow(R, -1, p)
    for k in "PQ":
        x, y = w64(c[k + "0x"]), w64(c[k + "0y"])
        lt(g, k + "0x reduced", x, p)
        lt(g, k + "0y reduced", y, p)
        x, y = x * Ri % p, y * Ri % p
        cg(g, k + "0, as a point over the field, lies on the starting curve", y * y, x ** 3 + CURVE_A * x * x + x, p)
    # strategy: the bookkeeping of the isogeny chain, unrolled
    g = "strategy"
    S, N = c["THETA_STRATEGY"], T
    e(g, "number of entries", len(S), N - 1)
    level, idx = [0], 0
    for k in range(N):
        prev, goal = sum(level), N - 1 - k
        while prev != goal and idx < len(S) and prev < goal:
            lt(g, "step %d: entry %d positive" % (k, idx), 0, S[idx])
            level.append(S[idx])
            prev += S[idx]
            idx += 1
            if S[idx - 1] <= 0:
                break
        e(g, "step %d: doublings reach the kernel of order two exactly" % k, prev, goal)
        if not level:
            e(g, "step %d: a kernel point is left" % k, 0, 1)
            break
        level.pop()
        if prev != goal:
            break
    e(g, "every entry is used", idx, len(S))
    return G


def python_holds(r):
    k = r[1]
    if k == "eq":
        return r[2] == r[3]
    if k == "lt":
        return r[2] < r[3]
    if k == "cong":
        return (r[2] - r[3]) % r[4] == 0
    if k == "steps":
        return all(gmul(x, y, r[3]) == z for x, y, z in r[2])
    if k == "prime":
        return r[2] > 1 and all(r[2] % d for d in range(2, int(r[2] ** .5) + 1))
    if k == "recip":
        import random
        rnd = random.Random(1)
        xs = [0, 1, 2 ** 64 - 1] + [q * r[2] + d for q in [rnd.randrange(0, 2 ** 32) for _ in range(2000)] + [2 ** 64 // r[2]] for d in (-1, 0, 1)]
        f = lambda x: (lambda t: ((((x - t) % 2 ** 64) >> 1) + t) % 2 ** 64 >> 31)((x * r[3]) >> 64)
        return all(f(x) == x // r[2] for x in xs if 0 <= x < 2 ** 64)


def z3_holds(r):
    """-> (holds, model or None): unsatisfiability of the negation"""
    import z3
    I = z3.IntVal
    s = z3.Solver()
    s.set("timeout", 120000)
    k = r[1]
    if k == "eq":
        s.add(I(r[2]) != I(r[3]))
    elif k == "lt":
        s.add(I(r[2]) >= I(r[3]))
    elif k == "cong":
        s.add((I(r[2]) - I(r[3])) % I(r[4]) != 0)
    elif k == "steps":
        m = I(r[3])
        bad = []
        for x, y, z in r[2]:
            x0, x1, y0, y1 = map(I, (x[0], x[1], y[0], y[1]))
            bad += [(x0 * y0 - x1 * y1 - I(z[0])) % m != 0, (x0 * y1 + x1 * y0 - I(z[1])) % m != 0]
        s.add(z3.Or(*bad))
    elif k == "prime":
        # any divisor d with 2 <= d, d*d <= a, as machine words
        w = max(8, r[2].bit_length() + 1)
        h = (r[2].bit_length() + 1) // 2 + 1
        d = z3.BitVec("d", h)
        dd = z3.ZeroExt(w - h, d) if w > h else d
        s.add(z3.UGE(d, 2), z3.ULE(z3.ZeroExt(2 * h + w - h, d) * z3.ZeroExt(2 * h + w - h, d), z3.BitVecVal(r[2], 2 * h + w)), z3.URem(z3.BitVecVal(r[2], w), dd) == 0)
    elif k == "recip":
        # x = q*P1 + rem; t = floor(x*M / 2^64); v = floor((x-t)/2) + t; floor(v / 2^31) has to be q
        x, q, rem, t, tl, h, hl, b, bl = z3.Ints("x q rem t tl h hl b bl")
        s.add(x == q * r[2] + rem, 0 <= rem, rem < r[2], 0 <= x, x < 2 ** 64, x * r[3] == t * 2 ** 64 + tl, 0 <= tl, tl < 2 ** 64,
              x - t == 2 * h + hl, 0 <= hl, hl < 2, h + t == b * 2 ** 31 + bl, 0 <= bl, bl < 2 ** 31, z3.Or(b != q, t > x, t < 0))
    res = s.check()
    if res == z3.unsat:
        return True, None
    if res == z3.unknown:
        return None, None
    return False, str(s.model())[:200]


def run(ck):
    ck.source("src/fields.rs", "src/finitefield/fp_gen.rs")
    ok, out = build()
    if not ok:
        ck.nobuild.append("constants harness does not build against the working tree: " + out[-300:].replace("\n", " "))
        return
    G = relations(constants())
    for g, rs in G.items():
        t = time.time()
        nv = no = 0
        for r in rs:
            ck.queries += 1
            t1 = time.time()
            h, m = z3_holds(r)
            ck.solver_ms += int(1000 * (time.time() - t1))
            ck.states += 1
            ck.transitions += 1
            if h is None:
                no += 1
                ck.incomplete.append("%s: undecided: %s" % (g, r[0]))
                continue
            n = python_holds(r)
            ck.replayed += 1
            if n != h:
                ck.errors.append("solver and integer evaluation disagree on %s: %s" % (g, r[0]))
            elif not h:
                nv += 1
                ck.violation("z3", g, r[0], "exec python3-vt %s %s" % (os.path.abspath(__file__), g))
        ck.parts.append(dict(group=g, relations=len(rs), violated=nv, undecided=no, wall_s=round(time.time() - t, 2)))
    ck.functions += ["constant tables of src/fields.rs and the associated constants of the base field, as evaluated by rustc"]
    ck.bounds += ["the one parameter set of the crate; divisors d with d^2 <= factor: all; dividends of the reciprocal division: all 64-bit values; strategy: all %d steps" % 632,
                  "primality of the modulus by a certificate (norm-one elements of Z/p[i] of order divisible by 2^634*3^6*19^2 > sqrt(p)+1), every multiplication step a solver-checked relation"]
    ck.outside += ["order and independence of the stored starting points (unused by the code)", "constants hidden inside function bodies (src/festa.rs, src/theta.rs selection tables: C17)"]
    ck.samples += [dict(group=g, relation=rs[-1][0]) for g, rs in G.items()]


if __name__ == "__main__":
    ok, out = build()
    if not ok:
        sys.exit(out)
    bad = [r[0] for r in relations(constants())[sys.argv[1]] if not python_holds(r)]
    print("\n".join("violated: " + b for b in bad) or "all relations hold")
    sys.exit(1 if bad else 0)
