from witness.common import *
import mpmath, numpy

def rnd_sys(rng, n, p, q, kind=None):
    """(operand, exact matrices): dSSmp from mpmath or numpy matrices, or dSS"""
    from fixif.LTI import dSSmp, dSS
    kind = kind or rng.choice(['mp', 'mp', 'np', 'dSS'])
    sh = ((n, n), (n, q), (p, n), (p, q))
    if kind == 'mp':
        M = [rnd_mpm(rng, r, c) for r, c in sh]
        S = dSSmp(*[m.copy() for m in M])
    else:
        M = [rnd_np(rng, r, c, 'matrix') for r, c in sh]
        S = (dSSmp if kind == 'np' else dSS)(*[m.copy() for m in M])
    return S, [fmat(m) for m in M], kind
def mats(S): return [fmat(S.A), fmat(S.B), fmat(S.C), fmat(S.D)]
def sims(M, us, x):
    """exact simulation: list of outputs (column vectors)"""
    A, B, C, D = M
    ys = []
    for u in us:
        ys.append(fadd(fmul(C, x), fmul(D, u)))
        x = fadd(fmul(A, x), fmul(B, u))
    return ys
@check('C06', 4)
def parallel(rng):
    from fixif.LTI import dSSmp
    with precision(rng):
        n1, n2, p, q = [size(rng, 4) for _ in range(4)]
        S1, M1, k1 = rnd_sys(rng, n1, p, q, rng.choice(['mp', 'np']))
        S2, M2, k2 = rnd_sys(rng, n2, p, q)
        sub = rng.random() < .5
        if rng.random() < .05: S2, M2 = S1, M1; n2 = n1
        R = S1 - S2 if sub else S1 + S2
        need(isinstance(R, dSSmp), 'type of the result', R=R)
        need((R.n, R.p, R.q) == (n1 + n2, p, q), 'sizes of the result', got=(R.n, R.p, R.q), n1=n1, n2=n2, p=p, q=q)
        need(mats(S1) == M1 and mats(S2) == M2, 'an operand is modified')
        us = [[[frac(rnd_double(rng))] for _ in range(q)] for _ in range(rng.randint(1, 5))]
        x = [[frac(rnd_double(rng))] for _ in range(n1 + n2)]
        y = sims(mats(R), us, x)
        y1, y2 = sims(M1, us, x[:n1]), sims(M2, us, x[n1:])
        want = [(fsub if sub else fadd)(a, b) for a, b in zip(y1, y2)]
        need(y == want, 'the outputs are not the %s of the outputs' % ('difference' if sub else 'sum'), S1=M1, S2=M2, R=mats(R))
        need(mats(R)[3] == (fsub if sub else fadd)(M1[3], M2[3]), 'D', D1=M1[3], D2=M2[3], D=mats(R)[3])
@check('C06', 1)
def refused(rng):
    from fixif.LTI import dSSmp
    n1, n2, p, q = [size(rng, 3) for _ in range(4)]
    S1, M1, k1 = rnd_sys(rng, n1, p, q, rng.choice(['mp', 'np']))
    dp, dq = rng.choice([(1, 0), (0, 1), (1, 1)])
    S2, M2, k2 = rnd_sys(rng, n2, p + dp, q + dq)
    expect(ValueError, lambda: S1 + S2, 'sum of incompatible systems', s1=(p, q), s2=(p + dp, q + dq))
    expect(ValueError, lambda: S1 - S2, 'difference of incompatible systems', s1=(p, q), s2=(p + dp, q + dq))
    for bad in (3, 1.5, 'x', None, [[1.0]]):
        expect((ValueError, TypeError), lambda: S1 + bad, 'S + %r' % (bad,))
        expect((ValueError, TypeError), lambda: S1 - bad, 'S - %r' % (bad,))
@check('C06', 2)
def sizes(rng):
    from fixif.LTI import dSSmp
    n, p, q = [size(rng, 3) for _ in range(3)]
    sh = [[n, n], [n, q], [p, n], [p, q]]
    k = rng.randrange(8)
    sh[k // 2][k % 2] += rng.choice([1, 2])
    bad = sh[0][0] != sh[0][1] or sh[1][0] != sh[0][0] or sh[2][1] != sh[0][0] or sh[3] != [sh[2][0], sh[1][1]]
    mk = (lambda r, c: rnd_mpm(rng, r, c)) if rng.random() < .5 else (lambda r, c: rnd_np(rng, r, c, 'matrix'))
    M = [mk(r, c) for r, c in sh]
    if bad: expect(ValueError, lambda: dSSmp(*M), 'sizes %s are accepted' % sh)
