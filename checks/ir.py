"""Symbolic execution of LLVM IR over exact integer polynomials.

Every machine word is a polynomial with integer coefficients over named atoms that equals the unsigned value of the word
exactly.  Atoms are inputs (a word or byte with its range) and, for every division by a power of two the code performs
(carry out, truncation, shift), the pair  q = floor(B/m),  r = B - m*q.  Branches on atoms that the code really takes are
split; `decisions` records the bits fixed along the current path.
"""
import re
from fractions import Fraction


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, key, why):
        self.key, self.why = key, why


class Panic(Exception):
    pass


# ------------------------------------------------------------------ polynomials: {sorted tuple of atom ids: coefficient}
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        elif m in r:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m if not n else n if not m else tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def const(c):
    return {(): c} if c else {}


class Atom:
    __slots__ = ("id", "kind", "lo", "hi", "B", "m", "mate", "off", "name", "word")

    def __init__(self, id, kind, lo, hi, B=None, m=None, name=None):
        self.id, self.kind, self.lo, self.hi, self.B, self.m, self.name = id, kind, lo, hi, B, m, name
        self.mate, self.off, self.word = None, 0, None


class V:
    """a word that is not a plain int: polynomial + range"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p, self.lo, self.hi = p, lo, hi


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off


class Obj:
    """memory region: cells offset -> (size, value)"""
    __slots__ = ("cells", "size", "name")

    def __init__(self, size, name=""):
        self.cells, self.size, self.name = {}, size, name


POISON = "poison"


class World:
    """the algebra: atoms, memo tables and decided bits of one path"""

    def __init__(self, decisions):
        self.atoms = []
        self.memo = {}
        self.opq = {}
        self.decisions = decisions  # key -> 0/1
        self.taken = []             # (B, m, k, bit): floor(B/m) = k + bit
        self.facts = []             # assumed linear facts: poly >= 0
        self.prods = None           # list: keep products of words as atoms
        self.vectors = []           # (ids, upper bound of sum ids_i 2^64i)

    def atom(self, kind, lo, hi, **kw):
        a = Atom(len(self.atoms), kind, lo, hi, **kw)
        self.atoms.append(a)
        return a

    def inp(self, name, lo, hi):
        a = self.atom("in", lo, hi, name=name)
        return V({(a.id,): 1}, lo, hi)

    def rng(self, p):
        lo = hi = 0
        at = self.atoms
        if any(len(m) > 1 for m in p):
            bp = {m: c for m, c in p.items() if all(at[i].lo == 0 and at[i].hi == 1 for i in m)}
            bs = sorted({i for m in bp for i in m})
            if len(bs) <= 4 and any(len(m) > 1 for m in bp):
                import itertools
                vals = [self.evalbits(bp, dict(zip(bs, t))) for t in itertools.product((0, 1), repeat=len(bs))]
                a, b = self.rng({m: c for m, c in p.items() if m not in bp})
                return a + min(vals), b + max(vals)
        for m, c in p.items():
            a = b = 1
            for i in m:
                x = at[i]
                if x.lo < 0:
                    s = [a * x.lo, a * x.hi, b * x.lo, b * x.hi]
                    a, b = min(s), max(s)
                else:
                    a, b = a * x.lo, b * x.hi
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def mk(self, p, lo=None, hi=None):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return p[()]
        a, b = self.rng(p)
        if lo is not None:
            a = max(a, lo)
        if hi is not None:
            b = min(b, hi)
        if a == b:
            return a
        return V(p, a, b)

    def bitvars(self, p):
        s = set()
        for m in p:
            s.update(m)
        return s

    def isbit(self, i):
        a = self.atoms[i]
        return a.lo == 0 and a.hi == 1

    def smallbits(self, p, n=3):
        s = self.bitvars(p)
        if len(s) <= n and all(self.isbit(i) for i in s):
            return sorted(s)
        return None

    def evalbits(self, p, env):
        t = 0
        for m, c in p.items():
            if all(env[i] for i in m):
                t += c
        return t

    def interp(self, bits, f):
        """multilinear polynomial through the values f(env)"""
        import itertools
        n = len(bits)
        vals = {}
        for t in itertools.product((0, 1), repeat=n):
            vals[t] = f(dict(zip(bits, t)))
        p = {}
        for t in vals:
            c = 0
            sub = [i for i in range(n) if t[i]]
            for u in itertools.product((0, 1), repeat=len(sub)):
                w = [0] * n
                for i, b in zip(sub, u):
                    w[i] = b
                c += (-1) ** (len(sub) - sum(u)) * vals[tuple(w)]
            if c:
                p[tuple(bits[i] for i in sub)] = c
        return p

    def lin_range_refine(self, B, m, k, bit):
        """floor(B/m)=k+bit was decided: refine an atom's range if B is one atom"""
        if len(B) == 1:
            (mon, c), = B.items()
            if len(mon) == 1 and c == 1:
                a = self.atoms[mon[0]]
                a.lo = max(a.lo, (k + bit) * m)
                a.hi = min(a.hi, (k + bit) * m + m - 1)

    def divmod2(self, p, m, lo=None, hi=None):
        """(q, r) polynomials with p = m*q + r, 0 <= r < m"""
        if len(p) == 0:
            return {}, {}
        p1, p0 = {}, {}
        for mon, c in p.items():
            q, r = divmod(c, m)
            if r == 0:
                p1[mon] = q
            elif mon == () and len(p) > 1:
                p0[mon] = r
                if q:
                    p1[mon] = q
            else:
                p0[mon] = c
        if not p0:
            return p1, {}
        a, b = self.rng(p0)
        if p1 == {} and lo is not None:
            a, b = max(a, lo), min(b, hi)
        if a // m == b // m:
            k = a // m
            return padd(p1, const(k)), padd(p0, const(-k * m))
        bits = self.smallbits(p0)
        if bits is not None:
            q = self.interp(bits, lambda e: self.evalbits(p0, e) // m)
            return padd(p1, q), padd(p0, q, -m)
        # common power of two
        g = m
        for mon, c in p0.items():
            if mon:
                while c % g:
                    g //= 2
        c0 = p0.get((), 0)
        cc = c0 % g
        if g > 1:
            pp = {mon: (c // g if mon else (c - cc) // g) for mon, c in p0.items()}
            pp = {mon: c for mon, c in pp.items() if c}
            q, r = self.divmod2(pp, m // g) if m // g > 1 else (pp, {})
            return padd(p1, q), padd(pscale(r, g), const(cc))
        q, r = self.split(p0, m, a, b)
        return padd(p1, q), r

    def split(self, p0, m, a, b):
        key = (frozenset(p0.items()), m)
        if key in self.memo:
            return self.memo[key]
        if len(p0) == 1:
            (mon, c), = p0.items()
            x = self.atoms[mon[0]] if len(mon) == 1 and c == 1 else None
            if x is not None and x.kind == "q" and not x.off and not self.isbit(x.id):
                # floor(floor(B/m1)/m) = floor(B/(m1 m))
                q, _ = self.divmod2(x.B, x.m * m)
                res = (q, padd(p0, q, -m))
                self.memo[key] = res
                return res
        ka, kb = a // m, b // m
        if kb == ka + 1:
            if key in self.decisions:
                bit = self.decisions[key]
                self.taken.append((p0, m, ka, bit))
                self.lin_range_refine(p0, m, ka, bit)
                q = const(ka + bit)
                res = (q, padd(p0, q, -m))
                self.memo[key] = res
                return res
            qa = self.atom("q", 0, 1, B=p0, m=m)
            qa.off = ka
            qa.name = key
            q = {(qa.id,): 1}
            if ka:
                q[()] = ka
        else:
            qa = self.atom("q", ka, kb, B=p0, m=m)
            q = {(qa.id,): 1}
        ra = self.atom("r", 0, m - 1, B=p0, m=m)
        ra.off = qa.off
        qa.mate, ra.mate = ra.id, qa.id
        res = (q, {(ra.id,): 1})
        self.memo[key] = res
        return res

    def alias(self, p, lo, hi):
        key = ("alias", frozenset(p.items()))
        if key not in self.memo:
            a = self.atom("alias", lo, hi, B=p)
            self.memo[key] = {(a.id,): 1}
        return self.memo[key]

    def opaque(self, op, args, lo, hi):
        key = (op,) + tuple(frozenset(P(x).items()) for x in args)
        if key not in self.opq:
            a = self.atom("opq", lo, hi, name=key)
            self.opq[key] = V({(a.id,): 1}, lo, hi)
        return self.opq[key]

    def fork_on(self, *vals):
        """decide one undecided bit atom of the operands"""
        for v in vals:
            for i in sorted(self.bitvars(P(v))):
                a = self.atoms[i]
                if self.isbit(i) and a.kind == "q":
                    raise Fork(a.name, "bit")
        for v in vals:
            for i in sorted(self.bitvars(P(v))):
                a = self.atoms[i]
                if self.isbit(i) and a.kind in ("in", "opq"):
                    raise Fork(("atom", i), "bit")

    # ---------------------------------------------------------------- machine operations
    def norm(self, p, n, lo=None, hi=None):
        """value of p reduced modulo 2^n"""
        M = 1 << n
        a, b = self.rng(p)
        if lo is not None:
            a, b = max(a, lo), min(b, hi)
        if 0 <= a and b < M:
            return self.mk(p, a, b)
        _, r = self.divmod2(p, M, a, b)
        return self.mk(r, 0, M - 1)

    def add(self, x, y, n):
        if isinstance(x, int) and isinstance(y, int):
            return (x + y) & ((1 << n) - 1)
        return self.norm(padd(P(x), P(y)), n, L(x) + L(y), H(x) + H(y))

    def sub(self, x, y, n):
        if isinstance(x, int) and isinstance(y, int):
            return (x - y) & ((1 << n) - 1)
        return self.norm(padd(P(x), P(y), -1), n, L(x) - H(y), H(x) - L(y))

    def mul(self, x, y, n):
        if isinstance(x, int) and isinstance(y, int):
            return (x * y) & ((1 << n) - 1)
        px, py = P(x), P(y)
        if isinstance(x, V) and isinstance(y, V):
            if len(px) > 1:
                px = self.alias(px, x.lo, x.hi)
            if len(py) > 1:
                py = self.alias(py, y.lo, y.hi)
            if self.prods is not None:
                # products become atoms of their own; facts about them are added by the caller
                p = pmul(px, py)
                if any(sum(not self.isbit(i) for i in m) > 1 for m in p):
                    key = ("prod", frozenset(p.items()))
                    if key not in self.memo:
                        lo, hi = self.rng(p)
                        a = self.atom("prod", lo, hi, B=p)
                        self.memo[key] = {(a.id,): 1}
                        self.prods.append(a.id)
                    return self.norm(self.memo[key], n)
        return self.norm(pmul(px, py), n)

    def udivc(self, x, m):
        if isinstance(x, int):
            return x // m
        q, _ = self.divmod2(x.p, m, x.lo, x.hi)
        return self.mk(q, x.lo // m, x.hi // m)

    def umodc(self, x, m):
        if isinstance(x, int):
            return x % m
        if x.hi < m:
            return x
        _, r = self.divmod2(x.p, m, x.lo, x.hi)
        return self.mk(r, 0, m - 1)

    def trunc(self, x, n):
        return self.umodc(x, 1 << n)

    def msb(self, x, n):
        return self.udivc(x, 1 << (n - 1))

    def sext(self, x, n, n2):
        b = self.msb(x, n)
        return self.norm(padd(P(x), pscale(P(b), (1 << n2) - (1 << n))), n2)

    def ashr(self, x, k, n):
        if isinstance(x, int):
            s = x - (1 << n) if x >> (n - 1) else x
            return (s >> k) & ((1 << n) - 1)
        b = self.msb(x, n)
        q = self.udivc(x, 1 << k)
        return self.norm(padd(P(q), pscale(P(b), (1 << n) - (1 << (n - k)))), n)

    def shl(self, x, k, n):
        if isinstance(x, int):
            return (x << k) & ((1 << n) - 1)
        return self.norm(pscale(x.p, 1 << k), n)

    def align(self, p):
        t = 1 << 200
        for mon, c in p.items():
            while c % t:
                t //= 2
        return t

    def mask(self, x, n):
        """x = (2^n-1)*bit form: returns the 0/1 polynomial"""
        bits = self.smallbits(x.p)
        if bits is None:
            return None
        M = (1 << n) - 1
        import itertools
        for t in itertools.product((0, 1), repeat=len(bits)):
            if self.evalbits(x.p, dict(zip(bits, t))) not in (0, M):
                return None
        return self.interp(bits, lambda e: self.evalbits(x.p, e) // M)

    def has_opaque(self, p):
        return any(self.atoms[i].kind == "opq" for m in p for i in m)

    def bitop(self, op, x, y, n):
        M = (1 << n) - 1
        f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}[op]
        if isinstance(x, int) and isinstance(y, int):
            return f(x, y)
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            if op == "and":
                if y == 0:
                    return 0
                if y == M:
                    return x
            if op == "or":
                if y == 0:
                    return x
                if y == M:
                    return M
            if op == "xor":
                if y == 0:
                    return x
                if y == M:
                    return self.mk(padd(const(M), x.p, -1), M - x.hi, M - x.lo)
        elif x.p == y.p:
            return 0 if op == "xor" else x
        b = self.bitvars(P(x)) | self.bitvars(P(y))
        if len(b) <= 4 and all(self.isbit(i) for i in b):
            b = sorted(b)
            return self.mk(self.interp(b, lambda e: f(self.evalbits(P(x), e), self.evalbits(P(y), e)) & M))
        if isinstance(y, int) and op == "and" and y & (y + 1) == 0:
            return self.umodc(x, y + 1)
        if op == "and":
            for u, w in ((x, y), (y, x)):
                if isinstance(u, V):
                    mb = self.mask(u, n)
                    if mb is not None:
                        if isinstance(w, V) and (self.has_opaque(w.p) or len(w.p) > 40):
                            self.fork_on(u)
                        return self.mk(pmul(mb, P(w)), 0, H(w))
        if op in ("or", "xor") :
            for u, w in ((x, y), (y, x)):
                if H(w) < self.align(P(u)):
                    return self.mk(padd(P(u), P(w)))
        if op == "and":
            for u, w in ((x, y), (y, x)):
                if H(w) < self.align(P(u)):
                    return 0
        self.fork_on(x, y)
        if op == "xor":
            s = frozenset()
            for v in (x, y):
                t = None
                if isinstance(v, V) and len(v.p) == 1:
                    (mon, c), = v.p.items()
                    if c == 1 and len(mon) == 1 and self.atoms[mon[0]].kind == "opq" and self.atoms[mon[0]].name[0] == "xor":
                        t = self.atoms[mon[0]].name[1]
                s = s ^ (t if t is not None else frozenset([frozenset(P(v).items())]))
            if not s:
                return 0
            if len(s) == 1:
                return self.mk(dict(next(iter(s))), 0, M)
            key = ("xor", s)
            if key not in self.opq:
                a = self.atom("opq", 0, M, name=key)
                self.opq[key] = V({(a.id,): 1}, 0, M)
            return self.opq[key]
        return self.opaque(op, sorted([x, y], key=lambda v: repr(sorted(P(v).items()))), 0, min(H(x), H(y)) if op == "and" else M)

    def ult(self, x, y, n):
        """[x < y]"""
        if isinstance(x, int) and isinstance(y, int):
            return int(x < y)
        if H(x) < L(y):
            return 1
        if L(x) >= H(y):
            return 0
        q, _ = self.divmod2(padd(P(x), P(y), -1), 1 << n, L(x) - H(y), H(x) - L(y))
        return self.mk(pscale(q, -1), 0, 1)

    def eq(self, x, y, n):
        if isinstance(x, int) and isinstance(y, int):
            return int(x == y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return int(isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj and x.off == y.off)
        if P(x) == P(y):
            return 1
        if H(x) < L(y) or H(y) < L(x):
            return 0
        b = self.bitvars(P(x)) | self.bitvars(P(y))
        if len(b) <= 4 and all(self.isbit(i) for i in b):
            b = sorted(b)
            return self.mk(self.interp(b, lambda e: int(self.evalbits(P(x), e) == self.evalbits(P(y), e))))
        # x = y  <=>  d = (x - y) mod 2^n is 0  <=>  not (d >= 1)
        d = self.sub(x, y, n)
        if isinstance(d, int):
            return int(d == 0)
        return self.ult(d, 1, n)

    def select(self, c, a, b):
        if isinstance(c, int):
            return a if c else b
        if not isinstance(a, (int, V)) or not isinstance(b, (int, V)):
            self.fork_on(c)
            raise Unsupported("select")
        return self.mk(padd(P(b), pmul(c.p, padd(P(a), P(b), -1))), min(L(a), L(b)), max(H(a), H(b)))


def P(x):
    return const(x) if isinstance(x, int) else x.p


def L(x):
    return x if isinstance(x, int) else x.lo


def H(x):
    return x if isinstance(x, int) else x.hi


# ------------------------------------------------------------------ IR text
def split_top(s):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
        if ch == "," and d == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


NAME = r'@(?:"[^"]*"|[\w.$]+)'
BINOPS = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem"}


def take_type(s):
    """leading type of s, rest"""
    s = s.strip()
    if s[0] in "{[<":
        d = 0
        for i, ch in enumerate(s):
            if ch in "{[<":
                d += 1
            elif ch in "}]>":
                d -= 1
                if d == 0:
                    return s[: i + 1], s[i + 1:].strip()
    m = re.match(r"(%\"[^\"]*\")", s) or re.match(r"(i\d+|ptr|void|label|metadata|token)\b", s)
    if not m:
        raise Unsupported("type " + s[:60])
    return m[1], s[m.end():].strip()


def width(t):
    return int(t[1:]) if t[0] == "i" else 64


class Module:
    def __init__(self, path):
        self.text, self.globals, self.cache, self.types = {}, {}, {}, {}
        cur = None
        for l in open(path):
            if cur is None:
                if l.startswith("%"):
                    m = re.match(r'(%(?:"[^"]*"|[\w.$]+)) = type (.*)$', l)
                    if m:
                        self.types[m[1]] = m[2].strip()
                if l.startswith("define"):
                    m = re.search(NAME, l)
                    cur = m.group(0)
                    self.text[cur] = [l]
                elif l.startswith("@"):
                    m = re.match(r"(%s) = (.*)$" % NAME, l)
                    if m:
                        self.globals[m[1]] = m[2]
            else:
                if l.startswith("}"):
                    cur = None
                else:
                    self.text[cur].append(l)

    def func(self, name):
        if name in self.cache:
            return self.cache[name]
        ls = self.text[name]
        head = ls[0]
        a = head[head.index(name) + len(name):]
        d = 0
        for i, ch in enumerate(a):
            if ch == "(":
                d += 1
            elif ch == ")":
                d -= 1
                if d == 0:
                    break
        params = []
        for t in split_top(a[1:i]):
            ty, _ = take_type(t)
            params.append((ty, t.split()[-1]))
        blocks, cur, first = {}, None, None
        # join continuation lines of invoke / switch
        body, buf = [], None
        for l in ls[1:]:
            l = l.rstrip("\n")
            t = l.strip()
            if not t or t.startswith(";"):
                continue
            if buf is not None:
                buf += " " + t
                if buf.lstrip().startswith("switch") or " switch " in buf[:10]:
                    if t.startswith("]"):
                        body.append(buf)
                        buf = None
                else:
                    body.append(buf)
                    buf = None
                continue
            if re.match(r"\s+switch ", l) and not t.endswith("]"):
                buf = t
                continue
            if re.search(r"(^|= )invoke ", t):
                buf = t
                continue
            body.append(l if not l.startswith(" ") else t)
        for l in body:
            m = re.match(r'^("?[\w.$-]+"?):', l)
            if m and not l.startswith("%"):
                cur = m[1].strip('"')
                blocks[cur] = []
                if first is None:
                    first = cur
                continue
            blocks[cur].append(self.instr(l.strip()))
        f = dict(params=params, blocks=blocks, first=first, name=name)
        self.cache[name] = f
        return f

    def instr(self, t):
        t = re.sub(r", ![\w.]+ ![\d]+", "", t)
        t = re.sub(r", ![\w.]+ !\{\}", "", t)
        t = re.sub(r" #\d+$", "", t)
        m = re.match(r"(%[\w.$\"-]+) = (.*)$", t)
        dst = None
        if m:
            dst, t = m[1], m[2]
        op = t.split()[0]
        if op in ("tail", "notail", "musttail"):
            t = t.split(None, 1)[1]
            op = "call"
        if op in BINOPS:
            rest = t[len(op):].strip()
            rest = re.sub(r"^((nuw|nsw|exact|disjoint)\s+)*", "", rest)
            ty, r = take_type(rest)
            a, b = split_top(r)
            return (op, dst, width(ty), a, b)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            rest = re.sub(r"^((nuw|nsw|nneg)\s+)*", "", t[len(op):].strip())
            ty, r = take_type(rest)
            m = re.match(r"(.*?) to (.*)$", r)
            if m:
                return (op, dst, ty, m[1].strip(), m[2].strip())
            return (op, dst, ty, r, ty)
        if op == "icmp":
            rest = t[4:].strip()
            rest = re.sub(r"^(samesign)\s+", "", rest)
            pred, r = rest.split(None, 1)
            ty, r = take_type(r)
            a, b = split_top(r)
            return (op, dst, pred, ty, a, b)
        if op == "select":
            a, b, c = split_top(t[6:])
            return (op, dst, take_type(a)[1], take_type(b), take_type(c))
        if op == "load":
            parts = split_top(t[4:])
            ty, _ = take_type(parts[0].replace("volatile ", ""))
            return (op, dst, ty, take_type(parts[1])[1])
        if op == "store":
            parts = split_top(t[5:])
            ty, v = take_type(parts[0])
            return (op, None, ty, v, take_type(parts[1])[1])
        if op == "alloca":
            ty, _ = take_type(t[6:])
            return (op, dst, self.sizeof(ty))
        if op == "getelementptr":
            rest = re.sub(r"^((inbounds|nuw|nusw)\s+)*", "", t[len(op):].strip())
            parts = split_top(rest)
            ty, _ = take_type(parts[0])
            idx = [take_type(x) for x in parts[2:]]
            return (op, dst, ty, take_type(parts[1])[1], idx)
        if op == "br":
            parts = split_top(t[2:])
            if len(parts) == 1:
                return ("jmp", None, parts[0].split("%")[1].strip('"'))
            return ("br", None, take_type(parts[0])[1], parts[1].split("%")[1].strip('"'), parts[2].split("%")[1].strip('"'))
        if op == "switch":
            m = re.match(r"switch (i\d+) (\S+), label %(\S+) \[(.*)\]", t)
            cases = [(int(a), b) for a, b in re.findall(r"i\d+ (-?\d+), label %(\S+)", m[4])]
            return (op, None, width(m[1]), m[2], m[3], cases)
        if op == "phi":
            ty, r = take_type(t[3:])
            arms = re.findall(r"\[ (.*?), %(\S+) \]", r)
            return (op, dst, ty, arms)
        if op == "ret":
            if t.strip() == "ret void":
                return (op, None, None, None)
            ty, v = take_type(t[3:])
            return (op, None, ty, v)
        if op == "extractvalue":
            parts = split_top(t[len(op):])
            return (op, dst, take_type(parts[0])[1], int(parts[1]))
        if op == "insertvalue":
            parts = split_top(t[len(op):])
            ty, v = take_type(parts[0])
            ety, ev = take_type(parts[1])
            return (op, dst, ty, v, ety, ev, int(parts[2]))
        if op in ("call", "invoke"):
            m = re.search(r"(%s)\((.*)\)(.*)$" % NAME, t)
            if not m:
                if "asm" in t:
                    return ("asm", dst, t)
                return ("unsup", dst, t)
            # argument list up to the matching parenthesis
            s = t[m.start(1) + len(m[1]):]
            d = 0
            for i, ch in enumerate(s):
                if ch == "(":
                    d += 1
                elif ch == ")":
                    d -= 1
                    if d == 0:
                        break
            args = []
            for a in split_top(s[1:i]):
                ty, r = take_type(a)
                if ty == "metadata":
                    continue
                args.append((ty, self.strip_attrs(r)))
            to = None
            if op == "invoke":
                to = re.search(r"to label %(\S+) unwind", s[i:])[1].strip('"')
            rt = re.sub(r"^(call|invoke)\s+", "", t[: m.start(1)]).strip()
            return ("call", dst, m[1], args, to, rt)
        if op in ("unreachable", "landingpad", "resume", "filter", "cleanup", "fence"):
            return (op, dst)
        return ("unsup", dst, t)

    @staticmethod
    def strip_attrs(r):
        if re.match(r"(getelementptr|inttoptr|ptrtoint)", r.split(" ")[-1]):
            return r
        m = re.search(r"(getelementptr .*)$", r)
        if m:
            return m[1]
        while True:
            m = re.match(r"([a-z_]+(\([^()]*(\([^()]*\)[^()]*)*\)| \d+)?|align \d+)\s+(.*)$", r)
            if not m or m[1] in ("true", "false", "null", "undef", "poison"):
                return r
            r = m[4]

    def sizeof(self, ty):
        ty = ty.strip()
        if ty == "ptr":
            return 8
        if ty in self.types:
            return self.sizeof(self.types[ty])
        if ty[0] == "i":
            return (int(ty[1:]) + 7) // 8
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m:
            return int(m[1]) * self.sizeof(m[2])
        m = re.match(r"<\{(.*)\}>$", ty)
        if m:
            return sum(self.sizeof(x) for x in split_top(m[1]))
        m = re.match(r"\{(.*)\}$", ty)
        if m:
            o = al = 0
            for x in split_top(m[1]):
                s = self.sizeof(x)
                k = self.alignof(x)
                o = (o + k - 1) // k * k + s
                al = max(al, k)
            return (o + al - 1) // al * al if al else 0
        raise Unsupported("sizeof " + ty)

    def alignof(self, ty):
        if ty == "ptr":
            return 8
        if ty in self.types:
            return self.alignof(self.types[ty])
        if ty[0] == "i":
            return min(16, (int(ty[1:]) + 7) // 8)
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m:
            return self.alignof(m[2])
        return max([self.alignof(x) for x in split_top(ty.strip("<>{} "))] or [1])


class Machine:
    def __init__(self, mod, world, summaries=None, fuel=40_000_000):
        self.mod, self.w, self.fuel = mod, world, fuel
        self.gobj = {}
        self.summaries = summaries or []
        self.steps = 0
        self.called = set()
        self.depth = 0

    # memory ------------------------------------------------------------------
    def glob(self, name):
        if name in self.gobj:
            return self.gobj[name]
        if name in self.mod.text:
            o = Obj(0, name)
            self.gobj[name] = o
            return o
        d = self.mod.globals.get(name)
        if d is None:
            raise Unsupported("global " + name)
        m = re.search(r"\b(constant|global) (.*)$", d)
        if not m:
            raise Unsupported("global " + name)
        ty, rest = take_type(m[2])
        o = Obj(self.mod.sizeof(ty), name)
        self.gobj[name] = o
        self.ginit(o, 0, ty, rest)
        return o

    def ginit(self, o, off, ty, rest):
        rest = rest.strip()
        n = self.mod.sizeof(ty)
        if rest.startswith("zeroinitializer"):
            for i in range(0, n, 8):
                k = min(8, n - i)
                o.cells[off + i] = (k, 0)
            return n
        if rest.startswith("undef") or rest.startswith("poison"):
            return n
        if rest.startswith('c"'):
            b = bytearray()
            i = 2
            while rest[i] != '"':
                if rest[i:i + 2] == "\\\\":
                    b.append(92)
                    i += 2
                elif rest[i] == "\\":
                    b.append(int(rest[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(rest[i]))
                    i += 1
            for i in range(0, len(b), 8):
                o.cells[off + i] = (len(b[i:i + 8]), int.from_bytes(b[i:i + 8], "little"))
            return n
        if rest.startswith("<{"):
            depth = 0
            for i in range(len(rest)):
                if rest[i:i + 2] == "<{":
                    depth += 1
                elif rest[i:i + 2] == "}>":
                    depth -= 1
                    if depth == 0:
                        break
            p = off
            for x in split_top(rest[2:i]):
                t, v = take_type(x)
                p += self.ginit(o, p, t, v)
            return n
        if ty[0] == "i":
            o.cells[off] = (n, int(rest.split(",")[0].split()[0]) & ((1 << 8 * n) - 1))
            return n
        if ty == "ptr":
            m = re.match(NAME, rest)
            if m:
                o.cells[off] = (8, Ptr(("lazy", m.group(0)), 0))
                return n
        raise Unsupported("initializer %s %s" % (ty, rest[:50]))

    def sub_bytes(self, v, size, s, e):
        """bytes s..e of a cell value"""
        if s == 0 and e == size:
            return v
        if v is POISON:
            return POISON
        if hasattr(v, "bytes_of"):
            return v.bytes_of(s, e)
        if not isinstance(v, (int, V)):
            raise Unsupported("partial access to a pointer")
        t = self.w.udivc(v, 1 << (8 * s)) if s else v
        return self.w.umodc(t, 1 << (8 * (e - s)))

    def overlapping(self, o, off, n):
        c = o.cells
        if len(c) > 80:
            r = []
            for k in range(max(0, off - 168), off + n):
                if k in c and k + c[k][0] > off:
                    r.append(k)
            return r
        return sorted(k for k in c if k < off + n and k + c[k][0] > off)

    def load(self, p, n):
        o, off = p.obj, p.off
        if off < 0 or off + n > o.size:
            raise Unsupported("out of bounds load %s+%d" % (o.name, off))
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        ks = self.overlapping(o, off, n)
        pieces, pos = [], off
        for k in ks:
            size, v = o.cells[k]
            s, e = max(off, k), min(off + n, k + size)
            if s > pos:
                return POISON
            pieces.append((s - off, e - s, self.sub_bytes(v, size, s - k, e - k)))
            pos = e
        if pos < off + n:
            return POISON
        if any(x[2] is POISON for x in pieces):
            return POISON
        if len(pieces) == 1:
            return pieces[0][2]
        for h in self.summaries:
            r = getattr(h, "compose", lambda *a: None)(pieces, n)
            if r is not None:
                return r
        t = {}
        for s, k, v in pieces:
            if not isinstance(v, (int, V)):
                raise Unsupported("mixed load")
            t = padd(t, pscale(P(v), 1 << (8 * s)))
        return self.w.mk(t, 0, (1 << (8 * n)) - 1)

    def clear(self, o, off, n):
        for k in self.overlapping(o, off, n):
            size, v = o.cells.pop(k)
            if k < off:
                o.cells[k] = (off - k, self.sub_bytes(v, size, 0, off - k))
            if k + size > off + n:
                o.cells[off + n] = (k + size - off - n, self.sub_bytes(v, size, off + n - k, size))

    def store(self, p, n, v):
        o, off = p.obj, p.off
        if off < 0 or off + n > o.size:
            raise Unsupported("out of bounds store %s+%d" % (o.name, off))
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        self.clear(o, off, n)
        o.cells[off] = (n, v)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        got = []
        if s.off < 0 or s.off + n > s.obj.size or d.off + n > d.obj.size:
            raise Unsupported("out of bounds copy")
        for k in self.overlapping(s.obj, s.off, n):
            size, v = s.obj.cells[k]
            a, b = max(s.off, k), min(s.off + n, k + size)
            got.append((a - s.off, b - a, self.sub_bytes(v, size, a - k, b - k)))
        self.clear(d.obj, d.off, n)
        for o, k, v in got:
            d.obj.cells[d.off + o] = (k, v)

    # values ------------------------------------------------------------------
    def val(self, env, tok, ty=None):
        c = tok[0]
        if c == "%":
            return env[tok]
        if c.isdigit() or c == "-":
            x = int(tok)
            if ty and ty[0] == "i":
                x &= (1 << int(ty[1:])) - 1
            elif x < 0:
                x &= (1 << 128) - 1
            return x
        if tok == "true":
            return 1
        if tok == "false" or tok == "null" or tok == "zeroinitializer":
            return 0
        if tok in ("undef", "poison"):
            return POISON
        if c == "@":
            return Ptr(self.glob(tok), 0)
        m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$", tok)
        if m:
            parts = split_top(m[1])
            base = self.val(env, take_type(parts[1])[1])
            t, i = take_type(parts[2])
            return Ptr(base.obj, base.off + int(i) * self.mod.sizeof(take_type(parts[0])[0]))
        m = re.match(r"inttoptr \((i\d+) (\d+) to ptr\)", tok)
        if m:
            return int(m[2])
        if c == "{":
            out = []
            for x in split_top(tok[1:-1]):
                t, v = take_type(x)
                out.append(self.val(env, v, t))
            return tuple(out)
        raise Unsupported("value " + tok[:60])

    def ival(self, env, tok, n):
        if tok[0] == "%":
            v = env[tok]
        else:
            v = self.val(env, tok)
            if isinstance(v, int):
                v &= (1 << n) - 1
        return v

    def deref(self, p):
        if isinstance(p, Ptr) and isinstance(p.obj, tuple):
            return Ptr(self.glob(p.obj[1]), p.off)
        if not isinstance(p, Ptr):
            raise Unsupported("pointer %r" % (p,))
        return p

    def cond(self, c):
        if isinstance(c, int):
            return c
        if not isinstance(c, V):
            raise Unsupported("branch on %r" % (c,))
        self.w.fork_on(c)
        raise Unsupported("branch condition")

    # execution ---------------------------------------------------------------
    def call(self, name, args):
        for h in self.summaries:
            r = h(self, name, args)
            if r is not None:
                return r[0]
        if name not in self.mod.text:
            if re.search(r"panic|unwrap_failed|expect_failed|slice_.*fail|len_mismatch_fail", name):
                raise Panic(name)
            raise Unsupported("call " + name)
        if re.search(r"9panicking|4core5slice5index.*fail|len_mismatch_fail|unwrap_failed|expect_failed", name):
            raise Panic(name)
        self.called.add(name)
        f = self.mod.func(name)
        env = {}
        for (ty, n), v in zip(f["params"], args):
            env[n] = v
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        blk, prev = f["first"], None
        W = self.w
        while True:
            nxt = None
            for ins in f["blocks"][blk]:
                self.steps += 1
                op = ins[0]
                if op == "load":
                    ty = ins[2]
                    v = self.load(self.deref(self.val(env, ins[3])), self.mod.sizeof(ty))
                    if ty == "i1" and isinstance(v, V):
                        v = W.umodc(v, 2)
                    if isinstance(v, Ptr):
                        v = self.deref(v)
                    env[ins[1]] = v
                elif op == "store":
                    self.store(self.deref(self.val(env, ins[4])), self.mod.sizeof(ins[2]), self.val(env, ins[3], ins[2]))
                elif op == "getelementptr":
                    p = self.val(env, ins[3])
                    if p == 0 and isinstance(p, int):
                        raise Unsupported("null gep")
                    off, ty = 0, ins[2]
                    for k, (it, iv) in enumerate(ins[4]):
                        i = self.val(env, iv)
                        if isinstance(i, V):
                            W.fork_on(i)
                        if not isinstance(i, int):
                            raise Unsupported("symbolic address")
                        if i >> 63 and i < 1 << 64:
                            i -= 1 << 64
                        if k == 0:
                            off += i * self.mod.sizeof(ty)
                        else:
                            m = re.match(r"\[(\d+) x (.*)\]$", ty)
                            if m:
                                ty = m[2]
                                off += i * self.mod.sizeof(ty)
                            else:
                                fs = split_top(ty.strip("<>{} "))
                                o = 0
                                for j in range(i + 1):
                                    al = self.mod.alignof(fs[j]) if not ty.startswith("<") else 1
                                    o = (o + al - 1) // al * al
                                    if j < i:
                                        o += self.mod.sizeof(fs[j])
                                off += o
                                ty = fs[i]
                    if isinstance(p, int):
                        env[ins[1]] = p + off
                    else:
                        env[ins[1]] = Ptr(p.obj, p.off + off)
                elif op in BINOPS:
                    n = ins[2]
                    x, y = self.ival(env, ins[3], n), self.ival(env, ins[4], n)
                    if x is POISON or y is POISON:
                        env[ins[1]] = POISON
                        continue
                    if not isinstance(x, (int, V)) or not isinstance(y, (int, V)):
                        raise Unsupported("%s on %r, %r" % (op, x, y))
                    if op == "add":
                        r = W.add(x, y, n)
                    elif op == "sub":
                        r = W.sub(x, y, n)
                    elif op == "mul":
                        r = W.mul(x, y, n)
                    elif op in ("and", "or", "xor"):
                        r = W.bitop(op, x, y, n)
                    else:
                        if isinstance(y, V):
                            W.fork_on(y)
                            raise Unsupported("%s by a symbolic amount" % op)
                        if op == "shl":
                            r = W.shl(x, y, n)
                        elif op == "lshr":
                            r = W.udivc(x, 1 << y)
                        elif op == "ashr":
                            r = W.ashr(x, y, n)
                        elif op == "udiv":
                            r = W.udivc(x, y)
                        else:
                            r = W.umodc(x, y)
                    env[ins[1]] = r
                elif op in ("zext", "trunc", "sext"):
                    n, n2 = width(ins[2]), width(ins[4])
                    x = self.ival(env, ins[3], n)
                    if x is POISON:
                        env[ins[1]] = POISON
                    elif op == "zext":
                        env[ins[1]] = x
                    elif op == "trunc":
                        if not isinstance(x, (int, V)):
                            raise Unsupported("trunc")
                        env[ins[1]] = W.trunc(x, n2)
                    else:
                        env[ins[1]] = W.sext(x, n, n2)
                elif op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
                    v = self.val(env, ins[3])
                    if op == "ptrtoint" and isinstance(v, Ptr):
                        v = (id(v.obj) % (1 << 40)) * 4096 * 16 + v.off
                    env[ins[1]] = v
                elif op == "icmp":
                    pred, ty = ins[2], ins[3]
                    n = width(ty)
                    x, y = self.ival(env, ins[4], n), self.ival(env, ins[5], n)
                    if pred in ("eq", "ne"):
                        r = W.eq(x, y, n)
                    else:
                        if not isinstance(x, (int, V)) or not isinstance(y, (int, V)):
                            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is y.obj:
                                x, y = x.off, y.off
                            else:
                                raise Unsupported("pointer comparison")
                        if pred[0] == "s":
                            h = 1 << (n - 1)
                            x, y = W.add(x, h, n), W.add(y, h, n)
                            pred = "u" + pred[1:]
                        if pred == "ult":
                            r = W.ult(x, y, n)
                        elif pred == "ugt":
                            r = W.ult(y, x, n)
                        else:
                            r = W.ult(y, x, n) if pred == "ule" else W.ult(x, y, n)
                            pred = "not"
                    if pred in ("ne", "not"):
                        r = 1 - r if isinstance(r, int) else W.mk(padd(const(1), r.p, -1), 0, 1)
                    env[ins[1]] = r
                elif op == "select":
                    c = self.val(env, ins[2])
                    a, b = self.val(env, ins[3][1], ins[3][0]), self.val(env, ins[4][1], ins[4][0])
                    env[ins[1]] = W.select(c, a, b)
                elif op == "extractvalue":
                    env[ins[1]] = self.val(env, ins[2])[ins[3]]
                elif op == "insertvalue":
                    v = self.val(env, ins[3])
                    n = len(split_top(ins[2][1:-1]))
                    v = list(v) if isinstance(v, tuple) else [POISON] * n
                    v[ins[6]] = self.val(env, ins[5], ins[4])
                    env[ins[1]] = tuple(v)
                elif op == "alloca":
                    env[ins[1]] = Ptr(Obj(ins[2], ins[1]), 0)
                elif op == "jmp":
                    nxt = ins[2]
                    break
                elif op == "br":
                    nxt = ins[3] if self.cond(self.val(env, ins[2])) else ins[4]
                    break
                elif op == "switch":
                    v = self.ival(env, ins[3], ins[2])
                    if isinstance(v, V):
                        W.fork_on(v)
                        raise Unsupported("switch")
                    nxt = ins[4]
                    for k, t in ins[5]:
                        if v == k & ((1 << ins[2]) - 1):
                            nxt = t
                            break
                    break
                elif op == "phi":
                    for tok, b in ins[3]:
                        if b.strip('"') == prev:
                            env[ins[1]] = self.val(env, tok, ins[2])
                            break
                elif op == "ret":
                    self.depth -= 1
                    return None if ins[3] is None else self.val(env, ins[3], ins[2])
                elif op == "call":
                    r = self.docall(env, ins)
                    if ins[1]:
                        env[ins[1]] = r
                    if ins[4]:
                        nxt = ins[4]
                        break
                elif op == "unreachable":
                    raise Unsupported("unreachable code")
                else:
                    raise Unsupported(" ".join(map(str, ins))[:100])
            if self.steps > self.fuel:
                raise Unsupported("step limit")
            prev, blk = blk, nxt

    def docall(self, env, ins):
        name, W = ins[2], self.w
        a = ins[3]
        if name.startswith("@llvm."):
            f = name[6:]
            if f.startswith("lifetime") or f.startswith("assume") or f.startswith("experimental.noalias") or f.startswith("dbg"):
                return None
            v = [self.val(env, x[1], x[0]) for x in a]
            if f.startswith("memcpy") or f.startswith("memmove"):
                if not isinstance(v[2], int):
                    raise Unsupported("memcpy size")
                if v[2]:
                    self.memcpy(self.deref(v[0]), self.deref(v[1]), v[2])
                return None
            if f.startswith("memset"):
                if not isinstance(v[1], int) or not isinstance(v[2], int):
                    raise Unsupported("memset")
                p = self.deref(v[0])
                for i in range(0, v[2], 8):
                    k = min(8, v[2] - i)
                    self.store(Ptr(p.obj, p.off + i), k, int.from_bytes(bytes([v[1]]) * k, "little"))
                return None
            if f.startswith("expect"):
                return v[0]
            n = width(a[-1][0]) if a else 64
            if f.startswith("x86.addcarry.64"):
                c = v[0] if isinstance(v[0], V) and v[0].hi <= 1 else int(v[0] != 0) if isinstance(v[0], int) else None
                if c is None:
                    raise Unsupported("carry in")
                t = padd(padd(P(v[1]), P(v[2])), P(c))
                q, r = W.divmod2(t, 1 << 64, L(v[1]) + L(v[2]) + L(c), H(v[1]) + H(v[2]) + H(c))
                return (W.mk(q, 0, 1), W.mk(r, 0, (1 << 64) - 1))
            if f.startswith("x86.subborrow.64"):
                c = v[0] if isinstance(v[0], V) and v[0].hi <= 1 else int(v[0] != 0) if isinstance(v[0], int) else None
                if c is None:
                    raise Unsupported("carry in")
                t = padd(padd(P(v[1]), P(v[2]), -1), P(c), -1)
                q, r = W.divmod2(t, 1 << 64, L(v[1]) - H(v[2]) - H(c), H(v[1]) - L(v[2]) - L(c))
                return (W.mk(pscale(q, -1), 0, 1), W.mk(r, 0, (1 << 64) - 1))
            m = re.match(r"(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)", f)
            if m:
                n = int(m[3])
                if m[1] == "s":
                    if all(isinstance(x, int) for x in v):
                        s = [x - (1 << n) if x >> (n - 1) else x for x in v]
                        r = s[0] + s[1] if m[2] == "add" else s[0] - s[1] if m[2] == "sub" else s[0] * s[1]
                        return (r & ((1 << n) - 1), int(not -(1 << (n - 1)) <= r < 1 << (n - 1)))
                    raise Unsupported(f)
                t = padd(P(v[0]), P(v[1])) if m[2] == "add" else padd(P(v[0]), P(v[1]), -1) if m[2] == "sub" else pmul(P(v[0]), P(v[1]))
                q, r = W.divmod2(t, 1 << n)
                q = W.mk(q)
                if m[2] == "sub":
                    q = W.mk(pscale(P(q), -1))
                if isinstance(q, V) and q.hi > 1:
                    q = W.ult(0, q, n)
                elif isinstance(q, int):
                    q = int(q != 0)
                return (W.mk(r, 0, (1 << n) - 1), q)
            m = re.match(r"(umin|umax)\.i(\d+)", f)
            if m:
                lt = W.ult(v[0], v[1], int(m[2]))
                return W.select(lt, v[0], v[1]) if m[1] == "umin" else W.select(lt, v[1], v[0])
            m = re.match(r"fsh([lr])\.i(\d+)", f)
            if m and isinstance(v[2], int):
                n = int(m[2])
                k = v[2] % n
                if k == 0:
                    return v[0] if m[1] == "l" else v[1]
                if m[1] == "r":
                    k = n - k
                hi, lo = W.shl(v[0], k, n), W.udivc(v[1], 1 << (n - k))
                return W.mk(padd(P(hi), P(lo)))
            raise Unsupported(name)
        v = [self.val(env, x[1], x[0]) for x in a]
        return self.call(name, v)
