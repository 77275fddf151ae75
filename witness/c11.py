from witness.common import *
from witness.c06 import mats, sims
import numpy

def dbl(rng):
    k = rng.randrange(3)
    return float(rng.randint(-4, 4)) if k == 0 else rng.randint(-64, 64) / 16.0 if k == 1 else rng.choice([0.0, 1.0, -1.0, 0.5, 3.0])
def rnd_ss(rng, n, p, q, fn=dbl):
    from fixif.LTI import dSS
    M = [rnd_np(rng, r, c, None, fn) for r, c in ((n, n), (n, q), (p, n), (p, q))]
    S = dSS(*M)
    return S, [fmat(m) for m in M]
def val(x): return [[float(v) for v in r] for r in x]
@check('C11', 2)
def construct(rng):
    from fixif.LTI import dSS
    n, p, q = [size(rng, 4) for _ in range(3)]
    sh = [[n, n], [n, q], [p, n], [p, q]]
    if rng.random() < .7: sh[rng.randrange(4)][rng.randrange(2)] += rng.choice([1, 2])
    bad = sh[0][0] != sh[0][1] or sh[1][0] != sh[0][0] or sh[2][1] != sh[0][0] or sh[3] != [sh[2][0], sh[1][1]]
    M = [rnd_np(rng, r, c, None, dbl) for r, c in sh]
    if bad: expect(ValueError, lambda: dSS(*M), 'sizes %s are accepted' % sh); return
    n, p, q = sh[0][0], sh[2][0], sh[1][1]
    m0 = [fmat(m) for m in M]
    S = dSS(*M)
    need((S.n, S.p, S.q) == (n, p, q) and tuple(S.size) == (n, p, q), 'dimensions', got=S.size, want=(n, p, q))
    need(mats(S) == m0 and [fmat(m) for m in M] == m0, 'matrices', want=m0, got=mats(S))
@check('C11', 4)
def compose(rng):
    from fixif.LTI import dSS
    n1, p1, q1, n2 = [size(rng, 3) for _ in range(4)]
    o = rng.choice('+-*')
    p2, q2 = (p1, q1) if o != '*' else (q1, size(rng, 3))
    if rng.random() < .25: p2 += rng.choice([0, 1]); q2 += rng.choice([0, 1])
    S1, M1 = rnd_ss(rng, n1, p1, q1); S2, M2 = rnd_ss(rng, n2, p2, q2)
    if rng.random() < .08 and (o != '*' or p1 == q1): S2, M2, n2, p2, q2 = S1, M1, n1, p1, q1
    f = {'+': lambda: S1 + S2, '-': lambda: S1 - S2, '*': lambda: S1 * S2}[o]
    ok = (p1, q1) == (p2, q2) if o != '*' else q1 == p2
    if not ok: expect(ValueError, f, '%s of systems of incompatible dimensions' % o, s1=(p1, q1), s2=(p2, q2)); return
    R = f()
    need(isinstance(R, dSS), 'type', R=R)
    p, q = (p1, q1) if o != '*' else (p1, q2)
    need((R.n, R.p, R.q) == (n1 + n2, p, q), 'dimensions of the result', got=R.size)
    need(mats(S1) == M1 and mats(S2) == M2, 'an operand is modified')
    us = [[[Fraction(rng.randint(-4, 4))] for _ in range(q)] for _ in range(rng.randint(2, 5))]
    x1, x2 = [[[Fraction(0)]] * n for n in (n1, n2)]
    y2 = sims(M2, us, x2)
    want = [fadd(a, b) for a, b in zip(sims(M1, us, x1), y2)] if o == '+' else [fsub(a, b) for a, b in zip(sims(M1, us, x1), y2)] if o == '-' else sims(M1, y2, x1)
    y = sims(mats(R), us, [[Fraction(0)]] * (n1 + n2))
    need(y == want, 'the outputs of S1 %s S2 are not the expected ones' % o, S1=[val(m) for m in M1], S2=[val(m) for m in M2], R=[val(m) for m in mats(R)], u=us)
@check('C11', 1)
def select(rng):
    from fixif.LTI import dSS
    n, p, q = [size(rng, 4) for _ in range(3)]
    S, M = rnd_ss(rng, n, p, q)
    def sel(m):
        k = rng.randrange(3)
        if k == 0: i = rng.randrange(m); return i, [i]
        if k == 1: return slice(None), list(range(m))
        a = rng.randrange(m); b = rng.randint(a + 1, m)
        return slice(a, b), list(range(a, b))
    (i, I), (j, J) = sel(p), sel(q)
    R = S[i, j]
    A, B, C, D = M
    need(mats(R) == [A, [[r[c] for c in J] for r in B], [C[r] for r in I], [[D[r][c] for c in J] for r in I]], 'S[%s, %s]' % (i, j), S=[val(m) for m in M], R=[val(m) for m in mats(R)])
    need(mats(S) == M, 'the system is modified')
