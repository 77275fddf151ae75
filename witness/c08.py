from witness.common import *
import mpmath, numpy

def conv(p, q):
    r = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q): r[i + j] += x * y
    return r
def impulse_tf(num, den, K):
    """impulse response of num/den (lists, first coefficient of den non null)"""
    h = []
    for k in range(K):
        v = num[k] if k < len(num) else Fraction(0)
        for i in range(1, min(k, len(den) - 1) + 1): v -= den[i] * h[k - i]
        h.append(v / den[0])
    return h
def impulse_ss(M, K):
    """impulse response (K matrices) of (A, B, C, D)"""
    A, B, C, D = M
    r, x = [D], B
    for _ in range(K - 1):
        r.append(fmul(C, x)); x = fmul(A, x)
    return r
@check('C08', 4)
def normalise(rng):
    from fixif.LTI import dTFmp
    with precision(rng) as prec:
        nb, na = rng.randint(1, 6), rng.randint(1, 6)
        row = lambda M: M.T
        np_ = rng.random() < .3
        mk = lambda n: rnd_np(rng, n, 1, 'matrix') if np_ else rnd_mpm(rng, n, 1)
        b, a = mk(nb), mk(na)
        if rng.random() < .3: a[0, 0] = mpmath.mpf(1) if not np_ else 1.0
        if rng.random() < .1: a[0, 0] = mpmath.mpf(-1) if not np_ else -1.0
        fb, fa = [x[0] for x in fmat(b)], [x[0] for x in fmat(a)]
        if rng.random() < .4: b = b.T
        if rng.random() < .4: a = a.T
        sb, sa = fmat(b), fmat(a)
        if fa[0] == 0:
            expect(ValueError, lambda: dTFmp(b, a), 'null first coefficient of the denominator', a=sa)
            return
        H = dTFmp(b, a)
        need(fmat(b) == sb and fmat(a) == sa, 'an argument is modified', b=sb, a=sa)
        n = max(nb, na)
        need(H.order == n - 1, 'order', got=H.order, nb=nb, na=na)
        for nm, M, f in (('num', H.num, fb), ('den', H.den, fa)):
            need((M.rows, M.cols) == (n, 1), 'size of ' + nm, got=(M.rows, M.cols), n=n)
            g = [x[0] for x in fmat(M)]
            for i in range(n):
                w = f[i] / fa[0] if i < len(f) else Fraction(0)
                if fa[0] == 1: need(g[i] == w, '%s: coefficient %d' % (nm, i), got=g[i], want=w)
                else: need(abs(g[i] - w) * 2 ** (2 * prec) <= abs(w), '%s: coefficient %d is not the quotient at twice the precision' % (nm, i), got=g[i], want=w, prec=prec)
@check('C08', 3)
def state_space(rng):
    from fixif.LTI import dTFmp, dSSmp
    with precision(rng) as prec:
        n = rng.randint(2, 6)
        b, a = rnd_mpm(rng, rng.choice([n, n, rng.randint(1, n)]), 1), rnd_mpm(rng, n, 1)
        a[0, 0] = mpmath.mpf(1)
        if rng.random() < .2: a[0, 0] = rnd_mpf(rng)
        if a[0, 0] == 0: return
        H = dTFmp(b, a)
        S = H.to_dSSmp()
        need(isinstance(S, dSSmp), 'type')
        num, den = [x[0] for x in fmat(H.num)], [x[0] for x in fmat(H.den)]
        h = impulse_ss([fmat(S.A), fmat(S.B), fmat(S.C), fmat(S.D)], 2 * n + 2)
        w = impulse_tf(num, den, 2 * n + 2)
        for k in range(len(w)): need(h[k] == [[w[k]]], 'impulse response at %d is not exact' % k, num=num, den=den, got=h[k], want=w[k], prec=prec)
@check('C08', 1)
def refused(rng):
    from fixif.LTI import dTFmp
    n = rng.randint(1, 4)
    v, m = rnd_mpm(rng, n, 1), rnd_mpm(rng, rng.randint(2, 4), rng.randint(2, 4))
    v[0, 0] = mpmath.mpf(2)
    expect(ValueError, lambda: dTFmp(v, m), 'a matrix is accepted')
    expect(ValueError, lambda: dTFmp(m, v), 'a matrix is accepted')
    for bad in (3, None, [1.0, 2.0]):
        expect(ValueError, lambda: dTFmp(v, bad), '%r is accepted' % (bad,))
        expect(ValueError, lambda: dTFmp(bad, v), '%r is accepted' % (bad,))
