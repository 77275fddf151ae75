from witness.common import *
import numpy, cmath, random as pyrandom

def poly(z):
    p = numpy.array([1.0 + 0j])
    for x in z: p = numpy.convolve(p, [1, -x])
    return p.real
def filt(rng, n, stable=True):
    from fixif.LTI import Filter, Butter, Elliptic
    k = rng.randrange(5)
    if k == 0: return Butter(n, rng.uniform(.2, .7)), 'Butter'
    if k == 1: return Elliptic(n, rng.uniform(.5, 3), rng.uniform(25, 50), rng.uniform(.2, .7)), 'Elliptic'
    # distinct poles, not too close to each other (the construction interpolates the transfer function)
    while True:
        po = []
        while len(po) < n:
            if n - len(po) == 1 or rng.random() < .5: po.append(rng.choice([-1, 1]) * rng.uniform(.05, .9))
            else:
                z = cmath.rect(rng.uniform(.1, .9), rng.uniform(.3, 2.8))
                po += [z, z.conjugate()]
        if all(abs(po[i] - po[j]) > .08 for i in range(n) for j in range(i)): break
    den = poly(po)
    num = numpy.array([rng.choice([0, 1, -1, rng.uniform(-3, 3)]) if rng.random() < .3 else rng.uniform(-3, 3) for _ in range(n + 1)])
    if abs(num[:-1]).max() < .1: num[1] = 1.5
    if k == 2: return Filter(num=num, den=den * rng.choice([1, 2, .5]), stable=True), 'num/den'
    D = num[0]
    b = (num - D * den)[1:]
    A = numpy.diag(numpy.ones(n - 1), 1); A[-1, :] = -den[:0:-1]
    B = numpy.zeros((n, 1)); B[-1] = 1
    T = numpy.eye(n) + numpy.array([[rng.uniform(-.4, .4) for _ in range(n)] for _ in range(n)])
    A, B, C = numpy.linalg.solve(T, A @ T), numpy.linalg.solve(T, B), b[::-1].reshape(1, n) @ T
    return Filter(A=A, B=B, C=C, D=numpy.array([[D]]), stable=True), 'A, B, C, D'
def response(M, z):
    J, K, L, P, Mm, N, Q, R, S = M
    n = P.shape[0]
    X = numpy.linalg.solve(J, numpy.hstack([Mm, N]))
    A, B = P + K @ X[:, :n], Q + K @ X[:, n:]
    C, D = R + L @ X[:, :n], S + L @ X[:, n:]
    return (C @ numpy.linalg.solve(z * numpy.eye(n) - A, B) + D)[0, 0]
POINTS = [cmath.exp(1j * t) for t in (.05, .4, 1, 1.6, 2.2, 2.9)] + [1.4, -1.3, 2j]
def error(H, F):
    h, f = [H(z) for z in POINTS], [F(z) for z in POINTS]
    return max(abs(a - b) for a, b in zip(h, f)) / max(1e-12, max(map(abs, f)))
@check('C25', 3)
def lattice_structures(rng):
    from fixif.Structures.LGS_LCW.LGS_LCW import LGS, LCW
    n = rng.choice([2, 2, 3, 3, 4, 4, 5, 6])
    F, kind = filt(rng, n)
    S = rng.choice([LGS, LCW])
    o = {} if rng.random() < .4 else dict(transposed=rng.random() < .5)
    inp = dict(structure=S.name if hasattr(S, 'name') else str(S), order=n, kind=kind, A=F.dSS.A, B=F.dSS.B, C=F.dSS.C, D=F.dSS.D, options=o)
    a, b, c, d = [numpy.array(x, dtype=float) for x in (F.dSS.A, F.dSS.B, F.dSS.C, F.dSS.D)]
    need(bool(S.canAcceptFilter(F, **o)), 'the structure does not accept a stable filter with one input and one output', **inp)
    f = lambda z: (c @ numpy.linalg.solve(z * numpy.eye(n) - a, b) + d)[0, 0]
    e = []
    for k in range(4):     # the interpolation points are drawn at random: a bad draw is not a violation
        pyrandom.seed(rng.random())
        R = S.makeRealization(F, **o)
        M = [numpy.array(getattr(R, x), dtype=float) for x in 'JKLPMNQRS']
        l, nn = M[0].shape[0], M[3].shape[0]
        need([x.shape for x in M] == [(l, l), (nn, l), (1, l), (nn, nn), (l, nn), (l, 1), (nn, 1), (1, nn), (1, 1)], 'sizes', **inp)
        need((numpy.triu(M[0], 1) == 0).all() and (numpy.diag(M[0]) == 1).all(), 'J is not lower triangular with ones on its diagonal', **inp)
        need(nn == n, 'number of states', got=nn, **inp)
        e.append(error(lambda z: response(M, z), f))
        if e[-1] < 1e-5: break
    need(min(e) < 1e-5, 'the transfer function of the realization is not the one of the filter', relative_error=min(e), **inp)
    need(R.filter is F, 'the filter of the realization', **inp)
@check('C25', 1)
def accepted_filters(rng):
    from fixif.LTI import Filter, dSS, random_Filter
    from fixif.Structures.LGS_LCW.LGS_LCW import LGS, LCW
    n = rng.randint(1, 4)
    F, kind = filt(rng, n)
    for S in (LGS, LCW):
        ok = bool(S.canAcceptFilter(F, transposed=False))
        if n > 1: need(ok, 'the structure does not accept a stable filter with one input and one output', order=n, kind=kind)
        if ok:
            try: S.makeRealization(F)
            except Exception as e: need(False, 'an accepted filter has no realization: %s: %s' % (type(e).__name__, e), order=n, kind=kind, structure=str(S))
        G = random_Filter(rng.randint(1, 4), *rng.choice([(2, 1), (1, 2), (2, 3)]))
        need(not S.canAcceptFilter(G, transposed=False), 'a filter with several inputs or outputs is accepted', p=G.dSS.p, q=G.dSS.q)
        G = Filter(ss=F.dSS, stable=False)
        need(not S.canAcceptFilter(G, transposed=False), 'a filter that is not known to be stable is accepted')
        need(not S.canAcceptFilter(Filter(ss=F.dSS), transposed=True), 'a filter that is not known to be stable is accepted')
