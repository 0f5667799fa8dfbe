"""Decision procedures on top of ir.py: congruence modulo p by exact elimination, ranges by grouped bounds and z3."""
import heapq, itertools, math, os, re, subprocess, sys, time
from fractions import Fraction
from ir import *


def elim(w, p, mod=None, stop=()):
    """replace every remainder / alias atom (outside `stop`) by its definition, exactly (coefficients modulo mod)"""
    at = w.atoms

    def top(mon):
        for i in reversed(mon):
            if at[i].kind in ("r", "alias", "prod") and i not in stop:
                return i
        return -1

    buckets, heap, out = {}, [], {}

    def put(mon, c):
        t = top(mon)
        if t < 0:
            v = out.get(mon, 0) + c
            if mod:
                v %= mod
            if v:
                out[mon] = v
            else:
                out.pop(mon, None)
            return
        b = buckets.get(t)
        if b is None:
            b = buckets[t] = {}
            heapq.heappush(heap, -t)
        v = b.get(mon, 0) + c
        if mod:
            v %= mod
        b[mon] = v

    for mon, c in p.items():
        put(mon, c % mod if mod else c)
    while heap:
        t = -heapq.heappop(heap)
        a = at[t]
        if a.kind in ("alias", "prod"):
            d = a.B
        else:
            d = padd(a.B, {(a.mate,): 1}, -a.m)
            if a.off:
                d = padd(d, const(-a.m * a.off))
        for mon, c in buckets.pop(t).items():
            if not c:
                continue
            k = mon.index(t)
            rest = mon[:k] + mon[k + 1:]
            for n, e in d.items():
                put(tuple(sorted(rest + n)) if rest and n else (rest or n), c * e)
    return out


class Solver:
    def __init__(self):
        self.queries = self.ms = 0
        self.unknown = 0

    def run(self, text, timeout=60):
        t = time.time()
        try:
            r = subprocess.run(["z3", "-in", "-T:%d" % timeout], input=text, capture_output=True, text=True, timeout=timeout + 20)
            out = r.stdout.strip()
        except subprocess.TimeoutExpired:
            out = "unknown"
        self.ms += int(1000 * (time.time() - t))
        self.queries += 1
        first = out.split("\n")[0] if out else "unknown"
        if first not in ("sat", "unsat"):
            self.unknown += 1
            return "unknown", out
        return first, out


def smt(p, names="a%d"):
    ts = []
    for mon, c in p.items():
        cs = str(c) if c >= 0 else "(- %d)" % -c
        if not mon:
            ts.append(cs)
        elif len(mon) == 1:
            v = names % mon[0]
            ts.append(v if c == 1 else "(* %s %s)" % (cs, v))
        else:
            raise Unsupported("nonlinear term")
    if not ts:
        return "0"
    return ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)


def linear(p):
    return all(len(m) <= 1 for m in p)


class Z3:
    """one interactive z3 process"""

    def __init__(self, solver):
        self.s = solver
        self.p = subprocess.Popen(["z3", "-in"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1 << 16)

    def send(self, t):
        self.p.stdin.write(t + "\n")

    def check(self):
        t = time.time()
        self.p.stdin.write("(check-sat)\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline().strip()
        self.s.queries += 1
        self.s.ms += int(1000 * (time.time() - t))
        if r not in ("sat", "unsat"):
            self.s.unknown += 1
        return r

    def values(self, ids):
        if not ids:
            return {}
        self.p.stdin.write("(get-value (%s))\n" % " ".join("a%d" % i for i in ids))
        self.p.stdin.flush()
        out, d = "", 0
        while True:
            l = self.p.stdout.readline()
            if not l:
                break
            out += l
            d += l.count("(") - l.count(")")
            if d <= 0:
                break
        return {int(a): int(b) for a, b in re.findall(r"\(a(\d+) (\d+)(?:\.0)?\)", out)}

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass


class Decide:
    def __init__(self, w, solver, p, vectors):
        self.w, self.s, self.p = w, solver, p
        self.vectors = vectors          # list of (ids, upper bound)
        self.vecof = {}
        for ids, b in vectors:
            for k, i in enumerate(ids):
                self.vecof[i] = (ids, b, k)
        self.lb_cache = {}
        self.facts = []                 # polys >= 0

    def bitlinear(self, p):
        return all(len(m) <= 1 or sum(not self.w.isbit(i) for i in m) <= 1 for m in p)

    # ------------------------------------------------------------ closure for the linear solver
    def closure(self, polys, cut=-1):
        w = self.w
        seen, st = set(), []
        for p in polys:
            for m in p:
                st.extend(m)
        nl = set()
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            a = w.atoms[i]
            if i in self.vecof:
                st.extend(self.vecof[i][0])
            if a.kind in ("q", "r"):
                st.append(a.mate)
            if a.kind in ("q", "r", "alias"):
                if i < cut and max(i, a.mate or 0) < cut:
                    nl.add(i)
                elif self.bitlinear(a.B):
                    for m in a.B:
                        st.extend(m)
                else:
                    nl.add(i)
        return seen, nl

    def lia(self, cons, facts=True, timeout=60, model=False):
        """unsat from any of the encodings is a proof; earlier definitions are left out first"""
        n = 1 + max([i for p, _ in cons for m in p for i in m] or [len(self.w.atoms)])
        t0 = time.time()
        for back, lim in ((140, 10), (400, 20)):
            if n - back > 60:
                if self.lia1(cons, facts, lim, False, n - back) == "unsat":
                    return ("unsat", {}) if model else "unsat"
        return self.lia1(cons, facts, max(10, timeout - (time.time() - t0)), model, -1)

    def lia1(self, cons, facts, timeout, model, cut):
        """is there an assignment of the atoms meeting definitions, ranges, path, facts and `cons` [(poly, rel)] ?
        'unsat' is a proof; 'sat' may be an artefact of the relaxation (bounded words treated as reals, products left out)"""
        w = self.w
        path = []
        for B, m, k, bit in w.taken:
            if self.bitlinear(B):
                path.append((padd(B, const(-(k + bit) * m)), ">="))
                path.append((padd(B, const(-(k + bit) * m - m + 1)), "<="))
        for key in w.decisions:
            if key[0] == "atom":
                path.append((padd({(key[1],): 1}, const(-w.decisions[key])), "="))
        fs = [(f, ">=") for f in self.facts] if facts else []
        goal = list(cons) + path
        seen, nl = self.closure([p for p, _ in goal + fs], cut)
        C = []
        done = set()
        for i in sorted(seen):
            a = w.atoms[i]
            if i in nl:
                continue
            if a.kind == "alias":
                C.append((padd({(i,): 1}, a.B, -1), "="))
            elif a.kind in ("q", "r") and min(i, a.mate) not in done:
                done.add(min(i, a.mate))
                q, r = (i, a.mate) if a.kind == "q" else (a.mate, i)
                C.append((padd(a.B, {(r,): -1, (q,): -a.m, (): -a.m * a.off}), "="))
        for ids, b in self.vectors:
            if ids[0] in seen:
                C.append(({**{(i,): -(1 << (64 * k)) for k, i in enumerate(ids)}, (): b}, ">="))
        C += goal + [f for f in fs if self.bitlinear(f[0])]
        # bits on which the search branches: those multiplied with something, and those of the eliminated goal
        br = set()
        for p, _ in C:
            for m in p:
                if len(m) > 1:
                    br.update(i for i in m if w.isbit(i))
        for p, _ in cons:
            for m in elim(w, p):
                if all(w.isbit(i) for i in m):
                    br.update(m)
        for p, _ in fs:
            for m in p:
                if all(w.isbit(i) for i in m):
                    br.update(m)
        br = sorted(br & seen)
        if len(br) > 40:
            br = br[-40:]
        # further bits, decided only where the real solution leaves them fractional: bits many words depend on (masks), and
        # the carries those are computed from; carries inside one chain of words cancel and need no decision
        use = {}
        for i in seen:
            a = w.atoms[i]
            if a.kind in ("q", "alias") and i not in nl:
                for j in {j for m in a.B for j in m if w.isbit(j)}:
                    use[j] = use.get(j, 0) + 1
        hubs = sorted(j for j in use if use[j] >= 10)
        extra = list(hubs)
        for h in hubs:
            if w.atoms[h].kind == "q":
                for j in sorted({j for m in elim(w, w.atoms[h].B) for j in m if w.isbit(j) and j in seen}):
                    if j not in extra:
                        extra.append(j)
        extra = [j for j in extra if j not in br]
        Z = Z3(self.s)
        t0 = time.time()
        L = []
        for i in sorted(seen):
            a = w.atoms[i]
            L.append("(declare-const a%d %s)" % (i, "Real"))
            L.append("(assert (<= %s a%d %s))" % (smt(const(a.lo)), i, smt(const(a.hi))))
        Z.send("\n".join(L))
        pending = []
        for p, rel in C:
            if linear(p):
                Z.send("(assert (%s %s 0))" % (rel, smt(p)))
            else:
                pending.append((p, rel, {i for m in p if len(m) > 1 for i in m if w.isbit(i)}))
        res, vals = ["unsat"], {}

        def sub(p, env):
            q = {}
            for m, c in p.items():
                if len(m) > 1:
                    if any(env.get(i) == 0 for i in m):
                        continue
                    m = tuple(i for i in m if env.get(i) != 1)
                q[m] = q.get(m, 0) + c
            return q

        def dfs(k, env, pending):
            if time.time() - t0 > timeout:
                res[0] = "unknown"
                return
            r = Z.check()
            if r == "unsat":
                return
            if k >= len(br):
                frac = []
                if k < len(br) + 40:
                    vs = Z.values([i for i in extra if i not in env])
                    frac = [i for i in extra if i not in env and i not in vs]    # not an integer: get-value prints a quotient
                if frac:
                    branch(frac[0], k, env, pending)
                    return
                # integers for real
                if res[0] == "unsat":
                    res[0] = "unknown"
                if model and not vals:
                    vals.update(self.intmodel(w, seen, C, env, sub, timeout))
                    if vals.get("unsat"):
                        vals.clear()
                        res[0] = "unsat" if res[0] == "unknown" and not res[1:] else res[0]
                        return
                    res.append("sat")
                    res[0] = "sat" if vals else "unknown"
                elif cut >= 0:
                    res.append("sat")
                    res[0] = "sat"
                elif not model:
                    v = self.intmodel(w, seen, C, env, sub, min(40, timeout))
                    if v.get("unsat"):
                        if len(res) == 1:
                            res[0] = "unsat"
                        return
                    res.append("sat")
                    res[0] = "sat" if v else "unknown"
                return
            branch(br[k], k, env, pending)

        def branch(b, k, env, pending):
            for val in (0, 1):
                if len(res) > 1 or res[0] == "unknown":
                    return
                e2 = dict(env)
                e2[b] = val
                Z.send("(push)\n(assert (= a%d %d))" % (b, val))
                rest = []
                for p, rel, bits in pending:
                    q = sub(p, e2)
                    if linear(q):
                        Z.send("(assert (%s %s 0))" % (rel, smt(q)))
                    else:
                        rest.append((p, rel, bits))
                dfs(k + 1, e2, rest)
                Z.send("(pop)")

        dfs(0, {}, pending)
        Z.close()
        r = res[0]
        return (r, vals) if model else r

    def intmodel(self, w, seen, C, env, sub, timeout):
        L = []
        for i in sorted(seen):
            a = w.atoms[i]
            L.append("(declare-const a%d Int)" % i)
            L.append("(assert (<= %s a%d %s))" % (smt(const(a.lo)), i, smt(const(a.hi))))
            if i in env:
                L.append("(assert (= a%d %d))" % (i, env[i]))
        for p, rel in C:
            q = sub(p, env)
            if linear(q):
                L.append("(assert (%s %s 0))" % (rel, smt(q)))
        L.append("(check-sat)")
        ins = [i for i in sorted(seen) if w.atoms[i].kind == "in"] or sorted(seen)[:1]
        L.append("(get-value (%s))" % " ".join("a%d" % i for i in ins))
        r, out = self.s.run("\n".join(L), int(min(timeout, 40)))
        if r == "unsat":
            return {"unsat": True}
        if r == "sat":
            return {int(a): int(b) for a, b in re.findall(r"\(a(\d+) (\d+)\)", out)}
        return {}

    # ------------------------------------------------------------ grouped rational upper bound
    def ub(self, p, mode=0):
        """p <= U + (polynomial in bits): rational elimination of carries; returns (U, bit polynomial)"""
        w = self.w
        at = w.atoms
        fixed = set()
        buckets, heap, out = {}, [], {}

        def top(mon):
            if len(mon) > 1 and all(w.isbit(i) for i in mon):
                return -1
            for i in reversed(mon):
                if at[i].kind in ("r", "q"):
                    t = min(i, at[i].mate)
                    if t in fixed:
                        continue
                    return t
            return -1

        def put(mon, c):
            t = top(mon)
            if t < 0:
                v = out.get(mon, 0) + c
                if v:
                    out[mon] = v
                else:
                    out.pop(mon, None)
                return
            b = buckets.get(t)
            if b is None:
                b = buckets[t] = {}
                heapq.heappush(heap, -t)
            b[mon] = b.get(mon, 0) + c

        for mon, c in p.items():
            put(mon, Fraction(c))
        while heap:
            t = -heapq.heappop(heap)
            q, r = (t, at[t].mate) if at[t].kind == "q" else (at[t].mate, t)
            a = at[q]
            bit = w.isbit(q)
            fixed.add(t)
            rest = {}
            for mon, c in buckets.pop(t).items():
                if not c:
                    continue
                if mon.count(q) + mon.count(r) > 1:
                    put(mon, c)
                    continue
                k = q if q in mon else r
                j = mon.index(k)
                rest.setdefault(mon[:j] + mon[j + 1:], [0, 0])[k == q] += c
            B0 = padd(a.B, const(-a.m * a.off)) if a.off else a.B
            for mon, (al, be) in rest.items():
                ga = be - al * a.m
                if ga == 0:
                    how = "B"
                elif bit and not mon and al == 0:
                    how = "q"
                elif bit and not mon and be == 0:
                    how = "B" if mode == 0 else "r"
                elif bit and not mon and abs(al) * a.m <= abs(be) * (1 << 200):
                    how = "B"
                elif be:
                    how = "Q"
                else:
                    how = "r"
                if how == "B":       # r = B - m q
                    for n, e in B0.items():
                        put(tuple(sorted(mon + n)), al * e)
                    if ga:
                        put(tuple(sorted(mon + (q,))), ga)
                elif how == "Q":     # q = (B - r) / m
                    for n, e in B0.items():
                        put(tuple(sorted(mon + n)), be * e / a.m)
                    put(tuple(sorted(mon + (r,))), al - be / a.m)
                else:
                    put(tuple(sorted(mon + ((q,) if how == "q" else (r,)))), be if how == "q" else al)
        bits = {m: c for m, c in out.items() if m and all(w.isbit(i) for i in m)}
        return self.bound_terms({m: c for m, c in out.items() if m not in bits}), bits

    def ubnum(self, p):
        best = None
        for mode in (0, 1):
            u, b = self.ub(p, mode)
            for m, c in b.items():
                u += max(c, 0)
            best = u if best is None else min(best, u)
        return best.numerator // best.denominator

    def bound_terms(self, p):
        """upper bound of a polynomial over inputs and terminal atoms"""
        total = Fraction(0)
        p = dict(p)
        quad = {m: c for m, c in p.items() if len(m) == 2}
        vs = [(ids, b) for ids, b in self.vectors if any(i in m for m in quad for i in ids)]
        for x in range(len(vs)):
            for y in range(x, len(vs)):
                (X, bx), (Y, by) = vs[x], vs[y]
                if (min(X[0], Y[0]), max(X[0], Y[0])) not in quad:
                    continue
                c = quad[tuple(sorted((X[0], Y[0])))]
                exp = {}
                for i, a in enumerate(X):
                    for j, b in enumerate(Y):
                        k = tuple(sorted((a, b)))
                        exp[k] = exp.get(k, 0) + (1 << (64 * (i + j)))
                f = Fraction(c) / exp[tuple(sorted((X[0], Y[0])))]
                if all(quad.get(k) == f * v for k, v in exp.items()):
                    if f > 0:
                        total += f * bx * by
                    for k in exp:
                        del quad[k], p[k]
        while quad:
            cnt = {}
            for m in quad:
                for i in m:
                    cnt[i] = cnt.get(i, 0) + 1
            i = max(cnt, key=lambda k: (cnt[k], k in self.vecof, -k))
            lin = {}
            for m in list(quad):
                if i in m:
                    j = m[1] if m[0] == i else m[0]
                    lin[(j,)] = lin.get((j,), 0) + quad.pop(m)
                    p.pop(m)
            u = self.lin_bound(lin, True)
            total += max(u, 0) * self.w.atoms[i].hi
        lin = {m: c for m, c in p.items() if len(m) == 1}
        total += self.lin_bound(lin) + p.get((), 0)
        for m, c in p.items():
            if len(m) > 2:
                lo, hi = self.w.rng({m: 1})
                total += c * (hi if c > 0 else lo)
        return total

    def lin_bound(self, lin, digits=False):
        w = self.w
        total = Fraction(0)
        lin = dict(lin)
        for ids, b in self.vectors:
            if all((i,) in lin for i in ids):
                # the best multiple of the whole number to take out: the factor of one of its words
                best = None
                for c in {Fraction(lin[(i,)]) / (1 << (64 * k)) for k, i in enumerate(ids) if k in (0, 1, len(ids) - 1)} | {Fraction(0)}:
                    u = max(c * b, 0)
                    for k, i in enumerate(ids):
                        r = lin[(i,)] - c * (1 << (64 * k))
                        u += r * (w.atoms[i].hi if r > 0 else w.atoms[i].lo)
                    best = u if best is None else min(best, u)
                total += best
                for i in ids:
                    del lin[(i,)]
        # digit groups of one number: c * sum x_k 2^64k over remainder atoms
        rs = sorted((m[0] for m in lin if w.atoms[m[0]].kind in ("r", "alias")), key=lambda i: lin[(i,)])
        if digits and len(rs) > 3:
            c = lin[(rs[0],)]
            if all(lin[(i,)] == c * (1 << (64 * k)) for k, i in enumerate(rs)) and c > 0:
                u = self.vec_bound(tuple(rs))
                total += c * u
                for i in rs:
                    del lin[(i,)]
        for m, c in lin.items():
            a = w.atoms[m[0]]
            total += c * (a.hi if c > 0 else a.lo)
        return total

    def vec_bound(self, ids):
        if ids in self.lb_cache:
            return self.lb_cache[ids]
        p = {(i,): 1 << (64 * k) for k, i in enumerate(ids)}
        u = (1 << (64 * len(ids))) - 1
        for cand in (self.p - 1, self.p, 2 * self.p):
            if self.lia([(padd(p, const(-cand - 1)), ">=")], facts=False, timeout=30) == "unsat":
                u = cand
                break
        self.lb_cache[ids] = u
        return u

    # ------------------------------------------------------------ facts
    def bounds_of(self, out):
        """facts about the multi-word value `out`: out <= U + bits, out >= -U' - bits"""
        if not any(len(m) > 1 or True for m in out):
            return
        seen, nl = self.closure([out])
        if not nl and len(seen) < 150:
            return
        for sign in (1,):
            for mode in (0, 1):
                u, b = self.ub(pscale(out, sign), mode)
                u = u.numerator // u.denominator if all(c.denominator == 1 for c in b.values()) else None
                if u is None:
                    continue
                f = padd(const(u), pscale(out, -sign))
                for m, c in b.items():
                    if abs(c) < self.p // 2:        # small carries: bounded by their range
                        f = padd(f, const(max(int(c), 0)))
                        continue
                    f = padd(f, {m: int(c)})
                self.facts.append(f)

    def division_lemmas(self):
        """quotients estimated from the top words by a multiplication with a rounded reciprocal: d*b <= x1 < d*b + d, each
        shown by the integer solver on the handful of atoms between x1 and b, then used as facts"""
        w = self.w
        d = self.p >> (self.p.bit_length() - 32)
        use = {}
        for a in w.atoms:
            if a.kind == "q":
                for j in {j for m in a.B for j in m}:
                    use[j] = use.get(j, 0) + 1
        for b in [j for j in use if use[j] >= 10 and w.atoms[j].kind == "q" and not w.isbit(j)]:
            st, seen, x1 = [b], set(), None
            while st and len(seen) < 40 and x1 is None:
                i = st.pop(0)
                if i in seen:
                    continue
                seen.add(i)
                a = w.atoms[i]
                if a.kind not in ("q", "r", "alias"):
                    continue
                g = 0
                for c in a.B.values():
                    g = math.gcd(g, c)
                if g > 1 << 48 and g & (g - 1):
                    x1 = {m: c // g for m, c in a.B.items()}
                st += [j for m in a.B for j in m] + ([a.mate] if a.mate is not None else [])
            if x1 is None or len(use) < 2:
                continue
            stop = {j for m in x1 for j in m}
            seen, st = set(), [b]
            while st:
                i = st.pop()
                if i in seen:
                    continue
                seen.add(i)
                a = w.atoms[i]
                if i not in stop and a.kind in ("q", "r", "alias"):
                    st += [j for m in a.B for j in m] + ([a.mate] if a.mate is not None else [])
            if len(seen) > 60:
                continue
            L = []
            for i in sorted(seen):
                a = w.atoms[i]
                L.append("(declare-const a%d Int)(assert (<= %d a%d %d))" % (i, max(0, a.lo), i, a.hi))
            try:
                for i in sorted(seen - stop):
                    a = w.atoms[i]
                    if a.kind == "alias":
                        L.append("(assert (= a%d %s))" % (i, smt(a.B)))
                    elif a.kind == "q":
                        L.append("(assert (= 0 %s))" % smt(padd(a.B, {(a.mate,): -1, (i,): -a.m, (): -a.m * a.off})))
                for goal in (padd(x1, {(b,): -d}), padd({(b,): d, (): d - 1}, x1, -1)):
                    if self.s.run("\n".join(L + ["(assert (< %s 0))" % smt(goal), "(check-sat)"]), 20)[0] == "unsat":
                        self.facts.append(goal)
            except Unsupported:
                continue

    def prune(self, cons):
        """quick infeasibility test"""
        n = 1 + max([i for p, _ in cons for m in p for i in m] or [len(self.w.atoms)])
        return self.lia1(cons, True, 10, False, max(n - 140, -1)) == "unsat"

    def forced_atoms(self, p):
        """values of atoms of p that can take one value only"""
        z = {}
        for i in sorted({i for m in p for i in m}):
            a = self.w.atoms[i]
            if a.kind != "q":
                continue
            if a.lo >= 0 and self.ubnum(a.B) // a.m - a.off <= 0:
                z[i] = 0
            elif self.w.isbit(i):
                for v in (0, 1):
                    if self.lia1([({(i,): 1, (): -1} if v == 0 else {(i,): 1}, "=")], False, 10, False, -1) == "unsat":
                        z[i] = v
                        break
        return z

    def congruent(self, diff, timeout=60):
        """diff = 0 modulo p on this path?  returns (verdict, detail)"""
        res = elim(self.w, diff, self.p)
        if not res:
            return True, "identity"
        bits = sorted({i for m in res for i in m})
        nz = 0
        if len(bits) > 6 or not all(self.w.isbit(i) for i in bits):
            z = self.forced_atoms(res)
            nz = len(z)
            red = {}
            for m, c in res.items():
                if any(z.get(i) == 0 for i in m):
                    continue
                m = tuple(i for i in m if i not in z)
                red[m] = (red.get(m, 0) + c) % self.p
            res = {m: c for m, c in red.items() if c}
            if not res:
                return True, "identity after %d carries shown zero" % nz
            bits = sorted({i for m in res for i in m})
        if len(bits) <= 12 and all(self.w.isbit(i) for i in bits):
            tried = 0

            def rec(k, env):
                """explore assignments of the remaining carries, pruning infeasible prefixes"""
                nonlocal tried
                red = {}
                for m, c in res.items():
                    if any(env.get(i) == 0 for i in m):
                        continue
                    n = tuple(i for i in m if i not in env)
                    red[n] = (red.get(n, 0) + c) % self.p
                if not any(red.values()):
                    return None
                if env:
                    tried += 1
                    cs = [({(i,): 1, (): -1} if env[i] else {(i,): 1}, "=") for i in env]
                    if self.prune(cs):
                        return None
                    if k == len(bits):
                        r, vals = self.lia(cs, timeout=timeout, model=True)
                        if r == "unsat":
                            return None
                        return ("residue for carries %s: solver says %s" % (tuple(env.values()), r), vals)
                for v in (0, 1):
                    x = rec(k + 1, {**env, bits[k]: v})
                    if x:
                        return x
                return None
            x = rec(0, {})
            if x is None:
                return True, "identity; carries excluded: %d by bounds, %d cases by the solver" % (nz, tried)
            return None, x
        return None, ("residue with %d terms" % len(res), {})

    def in_range(self, out, hi, timeout=200):
        """out <= hi on this path (its words are non-negative)"""
        r, vals = self.lia([(padd(out, const(-hi - 1)), ">=")], timeout=timeout, model=True)
        return (True, {}) if r == "unsat" else (None, vals)

    def feasible(self, timeout=60):
        if not self.w.taken and not any(k[0] == "atom" for k in self.w.decisions):
            return True
        return self.lia([], timeout=timeout) != "unsat"


def evaluate(w, ins):
    """values of all atoms for concrete inputs (atom id -> int)"""
    v = {}

    def ev(p):
        t = 0
        for m, c in p.items():
            x = c
            for i in m:
                x *= v[i]
            t += x
        return t
    for a in w.atoms:
        if a.kind == "in":
            v[a.id] = ins[a.id]
        elif a.kind in ("alias", "prod"):
            v[a.id] = ev(a.B)
        elif a.kind == "q":
            v[a.id] = ev(a.B) // a.m - a.off
        elif a.kind == "r":
            v[a.id] = ev(a.B) % a.m
        elif a.kind == "sum":
            op, A, B, k = a.name
            x = ev(A) * ev(B) * pow(1 << 1344, -1, w.p) % w.p if op == "mul" else (ev(A) + ev(B)) % w.p
            v[a.id] = (x >> (64 * k)) & (2**64 - 1)
        elif a.kind == "opq" and a.name[0] == "xor":
            t = 0
            for f in a.name[1]:
                t ^= ev(dict(f))
            v[a.id] = t
        else:
            raise Unsupported("evaluate " + str(a.name)[:40])
    for B, m, k, bit in w.taken:
        if ev(B) // m != k + bit:
            return None, ev
    return v, ev
