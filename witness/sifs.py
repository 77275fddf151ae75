"""implicit forms with exactly representable coefficients, and their recurrences in Fractions"""
from witness.common import *
import numpy
NAMES = 'JKLMNPQRS'
def dims(l, n, p, q): return dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))
def small(rng): return rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, rng.randint(-16, 16) / 8.0, rng.randint(-16, 16) / 8.0])
def scaled(rng):
    s = rng.choice([.125, .25, .5])
    return lambda r: small(r) * s
def block(rng, x, r, c, fn=small):
    A = rnd_np(rng, r, c, 'array', fn)
    if x == 'J':
        A = numpy.tril(A, -1) + numpy.eye(r)
    return numpy.matrix(A) if rng.random() < .5 else A
def rnd_blocks(rng, l, n, p, q, fn=None):
    fn = fn or (lambda r: small(r))
    return {x: block(rng, x, r, c, fn) for x, (r, c) in dims(l, n, p, q).items()}
def rnd_dims(rng, hi=3): return tuple(size(rng, hi) for _ in range(4))
def make(B):
    from fixif.SIF import SIF
    return SIF(tuple(B[x] for x in NAMES))
def fr(B): return {x: fmat(numpy.atleast_2d(numpy.asarray(B[x]))) for x in B}
def col(v): return [[x] for x in v]
def mv(A, v): return [sum((a * x for a, x in zip(r, v)), Fraction(0)) for r in A]
def vadd(*vs): return [sum(t, Fraction(0)) for t in zip(*vs)]
def solve_lower(J, b):
    t = []
    for i in range(len(b)): t.append(b[i] - sum((J[i][k] * t[k] for k in range(i)), Fraction(0)))
    return t
def step(F, x, u, et=None, ex=None, ey=None):
    """one step of the implicit form F (Fractions): temporaries, next states, outputs"""
    l, n, p = len(F['J']), len(F['P']), len(F['L'])
    z = lambda e, k: [Fraction(0)] * k if e is None else e
    t = solve_lower(F['J'], vadd(mv(F['M'], x), mv(F['N'], u), z(et, l)))
    X = vadd(mv(F['K'], t), mv(F['P'], x), mv(F['Q'], u), z(ex, n))
    Y = vadd(mv(F['L'], t), mv(F['R'], x), mv(F['S'], u), z(ey, p))
    return t, X, Y
def basis(k): return [[Fraction(int(i == j)) for i in range(k)] for j in range(k)]
def columns(f, k, r):
    """matrix whose columns are the images of the basis vectors"""
    cs = [f(e) for e in basis(k)]
    return [[c[i] for c in cs] for i in range(r)]
def state_space(F, n, p, q):
    z = [Fraction(0)] * n
    zu = [Fraction(0)] * q
    return (columns(lambda x: step(F, x, zu)[1], n, n), columns(lambda u: step(F, z, u)[1], q, n),
            columns(lambda x: step(F, x, zu)[2], n, p), columns(lambda u: step(F, z, u)[2], q, p))
def error_system(F, l, n, p, q):
    A, _, C, _ = state_space(F, n, p, q)
    z, zu = [Fraction(0)] * n, [Fraction(0)] * q
    f = lambda e, k: step(F, z, zu, e[:l], e[l:l + n], e[l + n:])[k]
    return A, columns(lambda e: f(e, 1), l + n + p, n), C, columns(lambda e: f(e, 2), l + n + p, p)
def all_signals(F, l, n, p, q, after):
    """from the input to (t, x or x+, y)"""
    A, B, _, _ = state_space(F, n, p, q)
    z, zu = [Fraction(0)] * n, [Fraction(0)] * q
    def f(x, u):
        t, X, Y = step(F, x, u)
        return t + (X if after else x) + Y
    return A, B, columns(lambda x: f(x, zu), n, l + n + p), columns(lambda u: f(z, u), q, l + n + p)
def same(_S, ref, what, **inp):
    for nm, w in zip('ABCD', ref):
        g = numpy.array(getattr(_S, nm), dtype=float)
        w = numpy.array([[float(x) for x in r] for r in w], dtype=float).reshape(len(w), -1)
        need(g.shape == w.shape, '%s: size of %s' % (what, nm), got=g.shape, want=w.shape, **inp)
        need(mclose(g, w, 1e-9), '%s: %s' % (what, nm), got=g, want=w, **inp)
