from witness.sifs import *

def approx(x, w):
    from fixif.FxP.Constant import Constant
    return frac(Constant(x, w).approx) if x not in (-1, 0, 1) else frac(x)
@check('C15', 1)
def difference(rng):
    from fixif.SIF.SIF_tilde_error import SIFH_to_SIFHstar
    d = l, n, p, q = rnd_dims(rng, 3)
    fn = rng.choice([small, lambda r: r.uniform(-2, 2), lambda r: r.choice([0.0, 1.0, -1.0, r.uniform(-1, 1)])])
    B = rnd_blocks(rng, *d, fn=fn)
    w = rng.choice([3, 4, 5, 8, 12, 16])
    R = make(B)
    T, E = SIFH_to_SIFHstar(R, w)
    F = fr(B)
    for x in NAMES: need(fmat(getattr(R, x)) == F[x], 'the block %s of the initial realization is changed' % x)
    G = {x: [[approx(numpy.array(B[x])[i, j], w) for j in range(dims(*d)[x][1])] for i in range(dims(*d)[x][0])] for x in NAMES}
    inp = dict(B, w=w)
    for x in NAMES: need(fmat(getattr(T, x)) == G[x], 'quantized block ' + x, got=getattr(T, x), **inp)
    S = E.dSS
    A, Bm, C, D = [numpy.array(getattr(S, x), dtype=float) for x in 'ABCD']
    e = l + n + p
    need(A.shape == (2 * n, 2 * n) and Bm.shape == (2 * n, q + e) and C.shape == (p, 2 * n) and D.shape == (p, q + e), 'sizes of the error system', **inp)
    x = xt = [Fraction(0)] * n
    z = numpy.zeros(2 * n)
    errors = rng.random() < .5
    scale = 1.0
    for k in range(rng.randint(1, 6)):
        u = [frac(small(rng)) for _ in range(q)]
        er = [frac(small(rng)) if errors else Fraction(0) for _ in range(e)]
        _, x2, y = step(F, x, u)
        _, xt2, yt = step(G, xt, u, er[:l], er[l:l + n], er[l + n:])
        v = numpy.array([float(a) for a in u + er])
        got = C @ z + D @ v
        z = A @ z + Bm @ v
        want = [float(b - a) for a, b in zip(y, yt)]
        scale = max([scale] + [abs(float(a)) for a in y + yt + x2 + xt2])
        need(all(abs(a - b) <= 1e-9 * scale for a, b in zip(got, want)), 'the output is not the difference of the outputs (step %d)' % k, got=got, want=want, u=u, **inp)
        x, xt = x2, xt2
