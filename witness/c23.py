from witness.common import *
from witness.c09 import rnd_coefs, shaped, coefs, same_tf
from witness.c11 import rnd_ss
from witness.c06 import mats
from witness.c18 import impulse, stable_den
import mpmath, numpy, itertools

def markov(M, K):
    """impulse response of a system with one input and one output"""
    A, B, C, D = M
    out, x = [D[0][0]], B
    for k in range(K):
        out.append(fmul(C, x)[0][0])
        x = fmul(A, x)
    return out
def near(a, b, tol=1e-7):
    s = max([1] + [abs(x) for x in a + b])
    return all(abs(x - y) <= Fraction(tol) * s for x, y in zip(a, b))
def imp_tf(T, K): return impulse(*coefs(T), K)

@check('C23', 8)
def descriptions(rng):
    from fixif.LTI import Filter, dTF, dSS
    kind = rng.choice(['tf', 'nd', 'ss', 'abcd'])
    nm, st = rng.choice(['noname', 'f', 'Filter 2']), rng.choice([None, True, False])
    o = {} if nm == 'noname' else dict(name=nm)
    if st is not None: o['stable'] = st
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    K = 2 * n + 3
    if kind in ('tf', 'nd'):
        b, a = rnd_coefs(rng, n + 1), [1.0] + rnd_coefs(rng, n)
        T = dTF(shaped(rng, b), shaped(rng, a))
        F = Filter(tf=T, **o) if kind == 'tf' else Filter(shaped(rng, b), shaped(rng, a), **o) if rng.random() < .5 else Filter(num=shaped(rng, b), den=shaped(rng, a), **o)
        want = impulse([Fraction(x) for x in b], [Fraction(x) for x in a], K)
        inp = dict(num=b, den=a)
    else:
        S, M = rnd_ss(rng, n, 1, 1)
        F = Filter(ss=S, **o) if kind == 'ss' else Filter(**dict(zip('ABCD', [numpy.matrix(x) for x in (S.A, S.B, S.C, S.D)])), **o)
        want = markov(M, K)[:K]
        inp = dict(zip('ABCD', M))
    fixed = (nm, bool(st), 1, 1, n, True, False)
    get = lambda: (F.name, F.isStable(), F.p, F.q, F.order, bool(F.isSISO()), F.isButter())
    need(get() == fixed, 'before the queries', got=get(), want=fixed, kind=kind, **inp)
    seen = {}
    order = [rng.choice('ST') for _ in range(rng.randint(1, 4))]
    for w in order:
        x = F.dSS if w == 'S' else F.dTF
        need(isinstance(x, dSS if w == 'S' else dTF), 'type of the description', kind=kind, got=type(x))
        need(w not in seen or x is seen[w], 'a description is computed twice', kind=kind, order=order, which=w)
        if kind == 'tf' and w == 'T': need(x is T, 'the transfer function given', **inp)
        if kind == 'ss' and w == 'S': need(x is S, 'the system given', **inp)
        seen[w] = x
        got = markov(mats(x), K)[:K] if w == 'S' else imp_tf(x, K)
        need(near(got, want), 'the %s is another system' % ('state-space' if w == 'S' else 'transfer function'), kind=kind, order=order, got=[float(v) for v in got], want=[float(v) for v in want], **inp)
        need(get() == fixed, 'after the queries', got=get(), want=fixed, kind=kind, order=order, **inp)

@check('C23', 3)
def several(rng):
    from fixif.LTI import Filter
    n, p, q = size(rng), size(rng), size(rng)
    if p == q == 1: p, q = rng.choice([(1, 2), (2, 1), (2, 2)])
    S, M = rnd_ss(rng, n, p, q)
    F = Filter(ss=S) if rng.random() < .5 else Filter(A=S.A, B=S.B, C=S.C, D=S.D)
    for k in range(rng.randint(1, 3)):
        need((F.p, F.q, F.order, bool(F.isSISO())) == (p, q, n, False), 'dimensions', got=(F.p, F.q, F.order, F.isSISO()), want=(p, q, n))
        if rng.random() < .5: expect(ValueError, lambda: F.dTF, 'transfer function of several inputs or outputs', p=p, q=q)
        else: need(mats(F.dSS) == M, 'state-space', want=M, got=mats(F.dSS))
    expect(ValueError, lambda: S.to_dTF(), 'dSS.to_dTF of several inputs or outputs', p=p, q=q)
    with precision(rng) as pr:
        expect(ValueError, lambda: S.to_dSSmp().to_dTFmp(), 'dSSmp.to_dTFmp of several inputs or outputs', p=p, q=q)
        need(mpmath.mp.prec == pr, 'the working precision has changed', got=mpmath.mp.prec, want=pr)

@check('C23', 1)
def incomplete(rng):
    from fixif.LTI import Filter
    S, M = rnd_ss(rng, 2, 1, 1)
    d = dict(num=[1.0, 2.0, 3.0], den=[1.0, 0.5, 0.25], A=S.A, B=S.B, C=S.C, D=S.D)
    for k in range(6):
        for sub in itertools.combinations(d, k):
            if {'num', 'den'} <= set(sub) or set('ABCD') <= set(sub): continue
            expect(ValueError, lambda: Filter(**{x: d[x] for x in sub}), 'Filter(%s) is refused' % ', '.join(sub), given=sub)

@check('C23', 2)
def designed(rng):
    import scipy.signal as sig
    from fixif.LTI import Butter, Elliptic, Filter
    bt = rng.choice(['low', 'high', 'bandpass', 'bandstop'])
    n, w = rng.randint(1, 4), round(rng.uniform(.1, .4), 3)
    W = w if bt in ('low', 'high') else [w, round(w + rng.uniform(.1, .4), 3)]
    if rng.random() < .5:
        F, (b, a) = Butter(n, W, bt), sig.butter(n, W, bt)
        need(F.isButter() and F.isStable() and F.name == 'Butterworth', 'Butterworth', args=(n, W, bt))
    else:
        rp, rs = round(rng.uniform(.1, 3), 2), round(rng.uniform(20, 60), 1)
        F, (b, a) = Elliptic(n, rp, rs, W, bt), sig.ellip(n, rp, rs, W, bt)
        need(not F.isButter() and F.isStable() and F.name == 'Elliptic', 'elliptic', args=(n, rp, rs, W, bt))
    need(isinstance(F, Filter), 'a filter')
    n1, d1 = coefs(F.dTF)
    need(n1 == [Fraction(x / a[0]) for x in b] and d1 == [Fraction(x / a[0]) for x in a], 'coefficients of the designed filter', args=(n, W, bt), got=n1)
    need((F.order, F.p, F.q) == (len(a) - 1, 1, 1), 'order', got=F.order, want=len(a) - 1)

@check('C23', 3)
def multiprecision(rng):
    from fixif.LTI import dTF, dSS, dTFmp, dSSmp
    with precision(rng) as pr:
        n = rng.randint(1, 4)
        b, a = rnd_coefs(rng, n + 1), [1.0] + rnd_coefs(rng, n)
        T = dTF(shaped(rng, b), shaped(rng, a))
        P = T.to_dTFmp()
        need([frac(x) for x in P.num] == [Fraction(x) for x in b] and [frac(x) for x in P.den] == [Fraction(x) for x in a], 'dTF.to_dTFmp', num=b, den=a)
        R = P.to_dTF()
        need(coefs(R) == coefs(T), 'dTF.to_dTFmp().to_dTF()', num=b, den=a)
        n, p, q = size(rng), size(rng), size(rng)
        S, M = rnd_ss(rng, n, p, q)
        Q = S.to_dSSmp()
        need([[[frac(Q_[i, j]) for j in range(Q_.cols)] for i in range(Q_.rows)] for Q_ in (Q.A, Q.B, Q.C, Q.D)] == M, 'dSS.to_dSSmp', want=M)
        need(mats(Q.to_dSS()) == M and mats(S) == M, 'dSS.to_dSSmp().to_dSS()', want=M)
        need(mpmath.mp.prec == pr, 'the working precision has changed', got=mpmath.mp.prec, want=pr)

@check('C23', 2)
def modal(rng):
    """dSSmp.to_dTFmp: distinct poles, far from each other"""
    from fixif.LTI import dSS
    n, blocks = rng.randint(1, 4), []
    grid = [(Fraction(x, 8), Fraction(y, 8)) for x in range(-7, 8, 2) for y in (0, 0, 0, 2, 4, 6) if x * x + y * y < 64]
    while len(blocks) < n:
        x, y = rng.choice(grid)
        if (x, y) in blocks or (y and len(blocks) + 2 > n): continue
        blocks += [(x, y)] * (2 if y else 1)
    T = [[Fraction(0)] * n for _ in range(n)]
    i = 0
    while i < n:
        x, y = blocks[i]
        T[i][i] = x
        if y: T[i + 1][i + 1], T[i][i + 1], T[i + 1][i] = x, y, -y; i += 1
        i += 1
    V = [[Fraction(int(i == j)) if i >= j else Fraction(rng.randint(-2, 2)) for j in range(n)] for i in range(n)]
    A = fmul(fmul(V, T), finv(V))
    f = lambda r, c: [[Fraction(rng.randint(-8, 8), 4) for _ in range(c)] for _ in range(r)]
    M = [A, f(n, 1), f(1, n), rng.choice([[[Fraction(0)]], f(1, 1)])]
    S = dSS(*[numpy.matrix([[float(x) for x in r] for r in m]) for m in M])
    T = S.to_dSSmp().to_dTFmp(prec=rng.choice([64, 100, 200]))
    num, den = [frac(x) for x in T.num], [frac(x) for x in T.den]
    need(len(num) == len(den) == n + 1 and den[0] == 1, 'degree of the transfer function', got=(len(num), len(den)), want=n + 1)
    K = 2 * n + 3
    need(near(impulse(num, den, K), markov(M, K)[:K], 1e-9), 'dSSmp.to_dTFmp', **dict(zip('ABCD', M)))
    T = S.to_dTF()
    need(near(imp_tf(T, K), markov(M, K)[:K], 1e-7), 'dSS.to_dTF', **dict(zip('ABCD', M)))
