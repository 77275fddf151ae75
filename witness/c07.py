from witness.common import *
from witness.c06 import mats
import mpmath, numpy

def rdbl(x):
    """nearest double (ties to even), as an unbounded exponent binary53"""
    if x == 0: return x
    s = -1 if x < 0 else 1
    a = abs(x)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a: e -= 1
    if Fraction(2) ** (e + 1) <= a: e += 1
    ulp = Fraction(2) ** (e - 52)
    k = a / ulp
    f = k.numerator // k.denominator
    r = k - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f % 2): f += 1
    return s * f * ulp
@check('C07', 4)
def simulation(rng):
    from fixif.LTI import dSSmp
    with precision(rng):
        n, p, q, T = [size(rng, 3) for _ in range(3)] + [rng.choice([1, 2, 3, 5, 8])]
        M = [rnd_mpm(rng, r, c) for r, c in ((n, n), (n, q), (p, n), (p, q))]
        S = dSSmp(*[m.copy() for m in M])
        F = [fmat(m) for m in M]
        ku = rng.choice(['mp', 'np']); kx = rng.choice([None, 'mp', 'np'])
        u = rnd_mpm(rng, q, T) if ku == 'mp' else rnd_np(rng, q, T, 'matrix')
        x0 = None if kx is None else rnd_mpm(rng, n, 1) if kx == 'mp' else rnd_np(rng, n, 1, 'matrix')
        ex = rng.choice([None, True, False])
        fu, fx = fmat(u), fmat(x0) if x0 is not None else fzeros(n, 1)
        kw = {}
        if ex is not None: kw['exact'] = ex
        if x0 is not None: kw['x0'] = x0
        y = S.simulate(u, **kw)
        x = [list(r) for r in fx]
        want = [[None] * T for _ in range(p)]
        for t in range(T):
            ut = [[fu[i][t]] for i in range(q)]
            o = fadd(fmul(F[2], x), fmul(F[3], ut))
            for i in range(p): want[i][t] = o[i][0]
            x = fadd(fmul(F[0], x), fmul(F[1], ut))
            if ex is False: x = [[rdbl(v[0])] for v in x]
        need((y.rows, y.cols) == (p, T), 'size of the output', got=(y.rows, y.cols))
        need(fmat(y) == want, 'the outputs are not the exact ones (exact=%s)' % ex, M=M, u=u, x0=x0, y=y)
        need(fmat(u) == fu, 'the input is modified', u=u)
        if x0 is not None: need(fmat(x0) == fx, 'the initial state is modified', x0=x0)
        need(mats(S) == F, 'the system is modified')
@check('C07', 1)
def refused(rng):
    from fixif.LTI import dSSmp
    n, p, q, T = [size(rng, 3) for _ in range(4)]
    S = dSSmp(*[rnd_mpm(rng, r, c) for r, c in ((n, n), (n, q), (p, n), (p, q))])
    mk = lambda r, c: rnd_mpm(rng, r, c) if rng.random() < .5 else rnd_np(rng, r, c, 'matrix')
    for ex in (True, False):
        q2 = q + rng.choice([1, 2]) if q == 1 or rng.random() < .5 else q - 1
        expect(ValueError, lambda: S.simulate(mk(q2, T), ex), 'input of %d rows for q=%d' % (q2, q))
        n2, m2 = rng.choice([(n + 1, 1), (n, 2), (n + 1, 2)] + ([(1, n)] if n > 1 else []))
        expect(ValueError, lambda: S.simulate(mk(q, T), ex, mk(n2, m2)), 'initial state of size %s for n=%d' % ((n2, m2), n))
        for bad in (3, 'x', [[1.0]]):
            expect(ValueError, lambda: S.simulate(bad, ex), 'input %r' % (bad,))
            expect(ValueError, lambda: S.simulate(mk(q, T), ex, bad), 'initial state %r' % (bad,))
