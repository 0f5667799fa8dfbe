#!/usr/bin/env python3
"""Isotropic kernels in products of two supersingular Montgomery curves over GF(p^2), p = 31 (independent of /repo).
One line per kernel: A1 A2 P1 P2 Q1 Q2, each coordinate as 're,im'. Kernel <(P1,P2),(Q1,Q2)> of order 32 x 32,
e32(P1,Q1) * e32(P2,Q2) = 1, all four points of exact order 32."""
import random, sys
p = int(sys.argv[1]); N = p + 1; cnt = int(sys.argv[2]); REAL = sys.argv[3] == "real"
random.seed(int(sys.argv[4]) if len(sys.argv) > 4 else 7)
add = lambda a, b: ((a[0]+b[0]) % p, (a[1]+b[1]) % p)
sub = lambda a, b: ((a[0]-b[0]) % p, (a[1]-b[1]) % p)
mul = lambda a, b: ((a[0]*b[0]-a[1]*b[1]) % p, (a[0]*b[1]+a[1]*b[0]) % p)
neg = lambda a: ((-a[0]) % p, (-a[1]) % p)
def inv(a):
    n = pow(a[0]*a[0]+a[1]*a[1], p-2, p); return (a[0]*n % p, -a[1]*n % p)
div = lambda a, b: mul(a, inv(b))
F = [(a, b) for a in range(p) for b in range(p)]
SQ = {}
for z in F: SQ.setdefault(mul(z, z), z)
one, zero = (1, 0), (0, 0)
sm = lambda k, a: (k*a[0] % p, k*a[1] % p)
def rhs(A, x): return mul(x, add(add(mul(x, x), mul(A, x)), one))
def padd(A, P, Q):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if P[1] == neg(Q[1]): return None
        l = div(add(add(sm(3, mul(P[0], P[0])), sm(2, mul(A, P[0]))), one), sm(2, P[1]))
    else: l = div(sub(Q[1], P[1]), sub(Q[0], P[0]))
    x = sub(sub(sub(mul(l, l), A), P[0]), Q[0])
    return (x, sub(mul(l, sub(P[0], x)), P[1]))
def pmul(A, k, P):
    R = None
    while k:
        if k & 1: R = padd(A, R, P)
        P = padd(A, P, P); k >>= 1
    return R
def rnd(A):
    while True:
        x = random.choice(F); w = rhs(A, x)
        if w in SQ:
            y = SQ[w]; return (x, y if random.random() < .5 else neg(y))
def line(A, P, Q, R):
    """value at R of the function with divisor (P)+(Q)+(-P-Q)-3O divided by the vertical at P+Q; R avoids everything"""
    S = padd(A, P, Q)
    if P is None or Q is None: return one
    if P[0] == Q[0] and P[1] == neg(Q[1]): return sub(R[0], P[0])
    l = div(add(add(sm(3, mul(P[0], P[0])), sm(2, mul(A, P[0]))), one), sm(2, P[1])) if P == Q else div(sub(Q[1], P[1]), sub(Q[0], P[0]))
    n = sub(sub(R[1], P[1]), mul(l, sub(R[0], P[0])))
    return div(n, sub(R[0], S[0]))
def miller(A, P, R, n):
    f = one; V = P
    for b in bin(n)[3:]:
        f = mul(mul(f, f), line(A, V, V, R)); V = padd(A, V, V)
        if b == '1': f = mul(f, line(A, V, P, R)); V = padd(A, V, P)
    return f
def weil(A, P, Q, n):
    while True:
        S = rnd(A)
        try:
            a = div(miller(A, P, padd(A, Q, S), n), miller(A, P, S, n))
            mS = (S[0], neg(S[1]))
            b = div(miller(A, Q, padd(A, P, mS), n), miller(A, Q, mS, n))
            r = div(a, b)
            if r != zero: return r
        except TypeError: pass
def fpow(a, k):
    r = one
    for _ in range(k): r = mul(r, a)
    return r
def order_ok(A, P): return pmul(A, N, P) is None and pmul(A, N//2, P) is not None
good = []
for A in F:
    if REAL and A[1]: continue
    if mul(A, A) == (4, 0): continue
    if all(pmul(A, N, rnd(A)) is None for _ in range(6)): good.append(A)
out = []
while len(out) < cnt:
    A1, A2 = random.choice(good), random.choice(good)
    def basis(A):
        while True:
            P, Q = rnd(A), rnd(A)
            if order_ok(A, P) and order_ok(A, Q):
                w = weil(A, P, Q, N)
                if fpow(w, N//2) != one: return P, Q, w
    P1, Q1, w1 = basis(A1); P2, Q2, w2 = basis(A2)
    for k in range(1, N, 2):
        if mul(w1, fpow(w2, k)) == one: break
    else: continue
    P2 = pmul(A2, k, P2)
    assert mul(weil(A1, P1, Q1, N), weil(A2, P2, Q2, N)) == one
    f = lambda c: f"{c[0]},{c[1]}"
    out.append(" ".join([f(A1), f(A2)] + [f(c) for R in (P1, P2, Q1, Q2) for c in R]))
print("\n".join(out))
