from witness.common import *
import mpmath, numpy

def conv(p, q):
    c = [Fraction(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q): c[i + j] += a * b
    return c
def near(got, ref, absref, pr):
    """rounded sums: error at most a few units of the precision times the sum of the magnitudes"""
    tol = Fraction(1, 2 ** (pr - 8)) * absref
    return abs(got - ref) <= tol
def coef(rng):
    return rnd_mpf(rng, rng.random() < .3) if rng.random() < .2 else mpmath.mpf(rnd_double(rng, rng.choice([0, 1, 2, 4, 5, 7])))
@check('C04', 4)
def product(rng):
    from fixif.func_aux import mpf_poly_mult
    with precision(rng) as pr:
        m, n = size(rng, 7), size(rng, 7)
        P, Q = rnd_mpm(rng, m, 1, fn=coef), rnd_mpm(rng, n, 1, fn=coef)
        p, q = [r[0] for r in fmat(P)], [r[0] for r in fmat(Q)]
        if rng.random() < .2: Q, q, n = P, p, m
        C = mpf_poly_mult(P, Q)
        need((C.rows, C.cols) == (m + n - 1, 1), 'mpf_poly_mult: degree of the product', p=p, q=q, C=C)
        ref, ab = conv(p, q), conv([abs(x) for x in p], [abs(x) for x in q])
        for k in range(m + n - 1): need(near(frac(C[k, 0]), ref[k], ab[k], pr), 'mpf_poly_mult: coefficient %d' % k, p=p, q=q, C=C)
        need([r[0] for r in fmat(P)] == p and [r[0] for r in fmat(Q)] == q, 'an operand is modified', p=p, q=q)
@check('C04', 1)
def refuse(rng):
    from fixif.func_aux import mpf_poly_mult, mp_poly_product
    P = rnd_mpm(rng, size(rng), 1)
    for bad in (1, None, [1, 2], numpy.matrix([[1.0], [2.0]])):
        expect(ValueError, lambda: mpf_poly_mult(P, bad), 'mpf_poly_mult by %r' % (bad,))
        expect(ValueError, lambda: mpf_poly_mult(bad, P), 'mpf_poly_mult of %r' % (bad,))
    for l in ([],): expect(ValueError, lambda: mp_poly_product(l), 'mp_poly_product of %r' % (l,))
@check('C04', 4)
def factors(rng):
    from fixif.func_aux import mp_poly_product
    with precision(rng) as pr:
        d = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9])
        l = [coef(rng) for _ in range(d)]
        kind = rng.randrange(3)
        src = l if kind == 0 else mpmath.matrix(l) if kind == 1 else tuple(l)
        f = [frac(x) for x in l]
        for j in [None, -1] + list(range(d)):
            C = mp_poly_product(src) if j is None else mp_poly_product(src, j)
            keep = [x for i, x in enumerate(f) if i != j]
            ref, ab = [Fraction(1)], [Fraction(1)]
            for x in keep: ref, ab = conv(ref, [Fraction(1), x]), conv(ab, [Fraction(1), abs(x)])
            need((C.rows, C.cols) == (len(keep) + 1, 1), 'mp_poly_product: one factor per retained index', p=f, j=j, C=C)
            for k in range(len(ref)): need(near(frac(C[k, 0]), ref[k], ab[k], pr), 'mp_poly_product: coefficient %d' % k, p=f, j=j, C=C)
            need([frac(x) for x in src] == f, 'the list is modified', p=f)
