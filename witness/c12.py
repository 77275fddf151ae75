from witness.common import *
import numpy

def stable(rng, n, p, q):
    from fixif.LTI import dSS
    g = numpy.random.RandomState(rng.getrandbits(31))
    A = g.randn(n, n)
    r = numpy.linalg.norm(A, 2)
    A = A * (rng.choice([.3, .6, .9]) / max(r, 1e-3))
    if rng.random() < .2: A = A * 0
    return dSS(A, g.randn(n, q), g.randn(p, n), g.randn(p, q) * rng.choice([0, 1])), g
def arr(S): return [numpy.array(x, dtype=float) for x in (S.A, S.B, S.C, S.D)]
def verify(S, what, S0=None):
    A, B, C, D = arr(S)
    inp = dict(A=A, B=B, C=C, D=D)
    n = A.shape[0]
    if what == 'Wo':
        W = numpy.array(S.Wo); need(W.shape == (n, n), 'size of Wo', got=W.shape)
        need(mclose(A.T @ W @ A + C.T @ C, W, 1e-6), 'Wo does not solve its Lyapunov equation', Wo=W, **inp)
    elif what == 'Wc':
        W = numpy.array(S.Wc); need(W.shape == (n, n), 'size of Wc', got=W.shape)
        need(mclose(A @ W @ A.T + B @ B.T, W, 1e-6), 'Wc does not solve its Lyapunov equation', Wc=W, **inp)
    elif what == 'H2norm':
        s, x = float((D * D).sum()), B
        for _ in range(3000):
            h = C @ x; s += float((h * h).sum()); x = A @ x
            if not numpy.abs(x).max() > 1e-18: break
        v = float(S.H2norm())
        need(abs(v - s ** .5) <= 1e-6 * max(1e-3, s ** .5), 'H2 norm', got=v, want=s ** .5, **inp)
    else:
        G = numpy.array(S.calc_DC_gain())
        w = C @ numpy.linalg.inv(numpy.eye(n) - A) @ B + D
        need(mclose(G, w, 1e-6), 'DC gain', got=G, want=w, **inp)
@check('C12', 1)
def history(rng):
    n, p, q = [size(rng, 4) for _ in range(3)]
    S, g = stable(rng, n, p, q)
    Q = ['Wo', 'Wc', 'H2norm', 'DC_gain']
    for step in range(rng.randint(2, 7)):
        if rng.random() < .35:
            T = numpy.linalg.qr(g.randn(n, n))[0] * g.choice([0.5, 1.0, -2.0], size=n)
            T = numpy.matrix(T) if rng.random() < .5 else T
            T0 = numpy.array(T)
            A, B, C, D = arr(S)
            S.similarity(T)
            A2, B2, C2, D2 = arr(S)
            need((T0 == numpy.array(T)).all(), 'T is modified')
            inp = dict(T=T0, A=A, B=B, C=C, A2=A2, B2=B2, C2=C2)
            for nm, x, y in (('T A\' = A T', T0 @ A2, A @ T0), ('T B\' = B', T0 @ B2, B), ('C\' = C T', C2, C @ T0), ('D\' = D', D2, D)): need(mclose(x, y, 1e-8), nm, **inp)
            need((S.n, S.p, S.q) == (n, p, q), 'dimensions')
        else:
            w = rng.choice(Q)
            M = arr(S)
            verify(S, w)
            need(all((x == y).all() for x, y in zip(M, arr(S))), 'a query modifies the system', query=w)
    for w in Q: verify(S, w)
    if rng.random() < .2:
        m = rng.choice(['linalg', 'slycot', None])
        S.calc_Wo(m); verify(S, 'Wo'); S.calc_Wc(m); verify(S, 'Wc')
        expect(ValueError, lambda: S.calc_Wo('foo'), 'unknown method')
        expect(ValueError, lambda: S.calc_Wc('foo'), 'unknown method')
