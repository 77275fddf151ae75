import signal, contextlib
from witness.sifs import *
from witness.c06 import mats, sims
from witness.c11 import dbl

@contextlib.contextmanager
def ends(what, **inp):
    """the call ends within some seconds"""
    def stop(*a): raise Violation(what + ' does not end', **inp)
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, 4)
    try: yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
def sparse(rng):
    return rng.choice([0.0, 0.0, 0.0, 1.0, -1.0, .5, 2.0, rng.randint(-8, 8) / 4.0])
@check('C28', 6)
def simplification(rng):
    from fixif.LTI import dSS
    n, p, q = size(rng, 4), size(rng, 3), size(rng, 3)
    M = [numpy.array(rnd_np(rng, r, c, 'array', sparse if rng.random() < .8 else dbl)) for r, c in ((n, n), (n, q), (p, n), (p, q))]
    for i in range(n):
        k = rng.randrange(5)
        if k in (0, 1): M[0][i, :] = 0
        if k in (0, 2): M[1][i, :] = 0
        if k == 3 and n > 1 and rng.random() < .5: M[0][i, :] = 2 * M[0][(i + 1) % n, :]
        if k == 4 and rng.random() < .3: M[2][:, i] = 0
    m0 = [fmat(m) for m in M]
    S = dSS(*[numpy.matrix(m) for m in M])
    inp = dict(zip('ABCD', [m.tolist() for m in M]))
    with ends('simplify', **inp): R = S.simplify()
    need(isinstance(R, dSS) and (R.p, R.q) == (p, q) and 1 <= R.n <= n, 'simplify: sizes of the result', got=R.size, **inp)
    us = [[[Fraction(rng.randint(-4, 4))] for _ in range(q)] for _ in range(2 * n + 3)]
    z = lambda n: [[Fraction(0)]] * n
    need(sims(mats(R), us, z(R.n)) == sims(m0, us, z(n)), 'simplify: the outputs are not those of the system', u=us, R=[m.tolist() for m in (R.A, R.B, R.C, R.D)], **inp)
    need(mats(S) == m0, 'simplify: the system is modified', **inp)
@check('C28', 2)
def weights(rng):
    from fixif.SIF import SIF
    l, n, p, q = d = rnd_dims(rng)
    B = rnd_blocks(rng, *d)
    W = {x: rnd_np(rng, r, c, None, lambda r: float(r.randint(0, 9))) for x, (r, c) in dims(*d).items()}
    R = SIF(tuple(B[x] for x in NAMES), tuple(W[x] for x in NAMES))
    cur = {x: fmat(W[x]) for x in NAMES}
    def verify(what):
        Z = [sum((b[i] for b in line), []) for line in [[cur[x] for x in l] for l in ('JMN', 'KPQ', 'LRS')] for i in range(len(line[1]))]
        need(fmat(R.dZ) == Z, what + ': dZ', got=R.dZ, want=val(Z))
        for x, y in zip(NAMES, R.dJtodS):
            need(fmat(getattr(R, 'd' + x)) == cur[x], '%s: d%s' % (what, x), got=getattr(R, 'd' + x), want=val(cur[x]))
            need(fmat(y) == cur[x], '%s: d%s in dJtodS' % (what, x), got=y, want=val(cur[x]))
        for x in NAMES: need(fmat(getattr(R, x)) == fmat(numpy.atleast_2d(numpy.asarray(B[x]))), '%s: block %s' % (what, x), got=getattr(R, x), **B)
    verify('construction')
    for _ in range(rng.randint(1, 4)):
        x = rng.choice(NAMES + 'Z')
        if x == 'Z':
            V = numpy.matrix(rnd_np(rng, l + n + p, l + n + q, 'array', lambda r: float(r.randint(0, 9))))
            R.dZ = V
            F = fmat(V)
            ro, co = {'J': 0, 'M': 0, 'N': 0, 'K': l, 'P': l, 'Q': l, 'L': l + n, 'R': l + n, 'S': l + n}, {'J': 0, 'K': 0, 'L': 0, 'M': l, 'P': l, 'R': l, 'N': l + n, 'Q': l + n, 'S': l + n}
            cur = {y: [F[ro[y] + i][co[y]:co[y] + c] for i in range(r)] for y, (r, c) in dims(*d).items()}
        else:
            V = numpy.matrix(rnd_np(rng, *dims(*d)[x], 'array', lambda r: float(r.randint(0, 9))))
            setattr(R, 'd' + x, V)
            cur[x] = fmat(V)
        verify('after d%s is set' % x)
def val(x): return [[float(v) for v in r] for r in x]
def perturb(rng, eps):
    """a difference clearly below, or clearly above, the tolerance"""
    return rng.choice([0, 0, .01, .3, .6, .9, 1.1, 1.5, 3, 1e3]) * eps
def accepted(f):
    try: f(); return True
    except AssertionError: return False
@check('C28', 3)
def compare_tf(rng):
    from fixif.LTI import dTF
    def poly(k): return [dbl(rng) for _ in range(k)]
    b, a = poly(size(rng, 4)), [1.0] + poly(size(rng, 4) - 1)
    give = rng.random() < .7
    eps = rng.choice([1e-7, 1e-3, 1e-5, .1, 2.0]) if give else 1e-7
    b2, a2 = list(b), list(a)
    if rng.random() < .3: b2 = b2 + poly(rng.randint(1, 2))
    if rng.random() < .3: a2 = a2 + [0.0] * rng.randint(1, 2)
    if rng.random() < .7: b2[rng.randrange(len(b2))] += rng.choice([1, -1]) * perturb(rng, eps)
    if rng.random() < .7 and len(a2) > 1: a2[rng.randrange(1, len(a2))] += rng.choice([1, -1]) * perturb(rng, eps)
    S, T = dTF(numpy.matrix(b), numpy.matrix(a)), dTF(numpy.matrix(b2), numpy.matrix(a2))
    if rng.random() < .5: S, T, b, b2, a, a2 = T, S, b2, b, a2, a
    def dist(x, y):
        k = max(len(x), len(y))
        x, y = [v + [0.0] * (k - len(v)) for v in (x, y)]
        return sum((Fraction(u) - Fraction(w)) ** 2 for u, w in zip(x, y))
    dn, dd = dist(b, b2), dist(a, a2)
    e2 = Fraction(eps) ** 2
    inp = dict(num1=b, den1=a, num2=b2, den2=a2, eps=eps)
    r = accepted((lambda: S.assert_close(T, eps)) if give else (lambda: S.assert_close(T)))
    if max(dn, dd) < e2 * Fraction(9999, 10000): need(r, 'dTF.assert_close refuses', **inp)
    if max(dn, dd) > e2 * Fraction(10001, 10000): need(not r, 'dTF.assert_close accepts', **inp)
    need(accepted(lambda: S.assert_close(S)), 'dTF.assert_close: not close to itself', **inp)
    need(fmat(S.num)[0][:len(b)] == [Fraction(x) for x in b] and fmat(T.num)[0][:len(b2)] == [Fraction(x) for x in b2], 'an operand is modified', **inp)
@check('C28', 3)
def compare_ss(rng):
    from fixif.LTI import dSS
    n, p, q = size(rng, 3), size(rng, 3), size(rng, 3)
    M = [numpy.array(rnd_np(rng, r, c, 'array', lambda r: dbl(r) / 4)) for r, c in ((n, n), (n, q), (p, n), (p, q))]
    give = rng.random() < .7
    eps = rng.choice([1e-5, 1e-3, .1, 2.0]) if give else 1e-5
    N = [m.copy() for m in M]
    k = rng.randrange(4)
    if k == 0:      # another basis: a permutation and powers of two
        o = list(range(n)); rng.shuffle(o)
        T = numpy.diag([2.0 ** rng.randint(-2, 2) for _ in o])[:, o]
        N = [numpy.linalg.inv(T) @ M[0] @ T, numpy.linalg.inv(T) @ M[1], M[2] @ T, M[3]]
    for _ in range(rng.randint(0, 1)):
        X = N[rng.randrange(4)]
        X[rng.randrange(X.shape[0]), rng.randrange(X.shape[1])] += rng.choice([1, -1]) * perturb(rng, eps)
    S, T = dSS(*[numpy.matrix(m) for m in M]), dSS(*[numpy.matrix(m) for m in N])
    def mk(M):
        A, B, C, D = [fmat(m) for m in M]
        return [D, fmul(C, B), fmul(fmul(C, A), B), fmul(fmul(fmul(C, A), A), B)]
    ds = [sum(x * x for r in fsub(x, y) for x in r) for x, y in zip(mk(M), mk(N))]
    inp = dict(S1=[m.tolist() for m in M], S2=[m.tolist() for m in N], eps=eps)
    r = accepted((lambda: S.assert_close(T, eps)) if give else (lambda: S.assert_close(T)))
    e2 = Fraction(eps) ** 2
    if max(ds) < e2 * Fraction(9999, 10000): need(r, 'dSS.assert_close refuses', **inp)
    if max(ds) > e2 * Fraction(10001, 10000): need(not r, 'dSS.assert_close accepts', **inp)
@check('C28', 2)
def sollya_polynomials(rng):
    from fixif.LTI import dTF, dTFmp
    b, a = [dbl(rng) for _ in range(size(rng, 4))], [1.0] + [dbl(rng) for _ in range(size(rng, 4) - 1)]
    if rng.random() < .5: T = dTF(numpy.matrix(b), numpy.matrix(a)); num, den = fmat(T.num)[0], fmat(T.den)[0]
    else:
        import mpmath; T = dTFmp(rnd_mpm(rng, len(b), 1), mpmath.matrix(a)); num, den = [r[0] for r in fmat(T.num)], [r[0] for r in fmat(T.den)]
    N, D = T.to_Sollya()
    def trim(x):
        x = list(x)
        while x and x[-1] == 0: x.pop()
        return x
    need(N.coefficients() == trim(num), 'to_Sollya: numerator', got=N, want=num)
    need(D.coefficients() == trim(den), 'to_Sollya: denominator', got=D, want=den)
    N2, D2 = T.to_Sollya()
    need(N2.coefficients() == trim(num) and D2.coefficients() == trim(den), 'to_Sollya, second time', want=(num, den))
@check('C28', 2)
def peak_gains(rng):
    import fixif.LTI.dSS, fixif.LTI.dTF, sys
    ms, mt = sys.modules['fixif.LTI.dSS'], sys.modules['fixif.LTI.dTF']
    from fixif.LTI import dSS, dTF
    seen = []
    def ss(A, B, C, D, info=None):
        seen.append([fmat(x) for x in (A, B, C, D)])
        if info is not None: info['n'] = len(seen)
        return numpy.matrix([[float(len(seen))] * len(D[0])] * len(D))
    def tf(num, den):
        seen.append([fmat(num)[0], fmat(den)[0]])
        return float(len(seen))
    old = ms.WCPG_ABCD, mt.WCPG_TF
    ms.WCPG_ABCD, mt.WCPG_TF = ss, tf
    try:
        made = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .6:
                n, p, q = size(rng, 3), size(rng, 3), size(rng, 3)
                M = [rnd_np(rng, r, c, None, dbl) for r, c in ((n, n), (n, q), (p, n), (p, q))]
                made.append([dSS(*M), [fmat(m) for m in M], None])
            else:
                b, a = [dbl(rng) for _ in range(size(rng, 3))], [2.0] + [dbl(rng) for _ in range(size(rng, 3))]
                k = max(len(a), len(b))
                made.append([dTF(numpy.matrix(b), numpy.matrix(a)), [[Fraction(x) / 2 for x in y] + [Fraction(0)] * (k - len(y)) for y in (b, a)], None])
        for _ in range(rng.randint(2, 6)):
            o = rng.choice(made)
            k = len(seen)
            info = {} if isinstance(o[0], dSS) and rng.random() < .4 else None
            W = o[0].WCPG(info) if info is not None else o[0].WCPG()
            if o[2] is None or info is not None:
                need(len(seen) == k + 1, 'WCPG: not computed (or more than once)', calls=len(seen) - k)
                need(seen[-1] == o[1], 'WCPG: not the one of the system', got=seen[-1], want=o[1])
                o[2] = float(len(seen))
                if info is not None: need(info == {'n': len(seen)}, 'WCPG: information not given', info=info)
            need((numpy.asarray(W) == o[2]).all(), 'WCPG: not the result of the computation', got=W, want=o[2])
    finally: ms.WCPG_ABCD, mt.WCPG_TF = old
