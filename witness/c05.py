from witness.common import *
import mpmath, numpy

def agree(x, y, eps):
    """absolute or relative difference within the tolerance (exact oracle, None near the limit)"""
    d = abs(x - y)
    if d == 0: return True
    if eps == 0: return False
    m = max(abs(x), abs(y))
    r = d / m
    slack = Fraction(1, 2 ** 40)
    for v in (d, r):
        if abs(v - eps) <= slack * eps: return None
    return d <= eps or r <= eps
def others(rng, B, cls=None):
    from fixif.func_aux import MPFMatrix
    k = cls or rng.choice(['MPFMatrix', 'mp', 'np', 'array'])
    if k == 'MPFMatrix': return MPFMatrix(B)
    if k == 'mp': return B
    A = numpy.array([[float(B[i, j]) for j in range(B.cols)] for i in range(B.rows)]).reshape(B.rows, B.cols)
    return numpy.matrix(A) if k == 'np' else A
@check('C05', 5)
def compare(rng):
    from fixif.func_aux import MPFMatrix
    with precision(rng):
        r, c = size(rng, 5), size(rng, 5)
        dbl = rng.random() < .5
        A = rnd_mpm(rng, r, c, fn=(lambda g: mpmath.mpf(rnd_double(g))) if dbl else None)
        B = A.copy()
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            i, j = rng.choice([(rng.randrange(r), rng.randrange(c)), (r - 1, c - 1), (0, 0), (0, c - 1), (r - 1, 0)])
            x = B[i, j]
            k = rng.randrange(5)
            if k == 0: x = -x
            elif k == 1: x = mpmath.fadd(x, mpmath.mpf(2) ** rng.randint(-30, 10), exact=True)
            elif k == 2: x = mpmath.fmul(x, mpmath.mpf(1) + mpmath.mpf(2) ** rng.randint(-45, 3), exact=True)
            elif k == 3: x = mpmath.mpf(0)
            else: x = mpmath.mpf(rnd_double(rng)) if dbl else rnd_mpf(rng)
            B[i, j] = mpmath.mpf(float(x)) if dbl else x
        if not dbl: O = others(rng, B, rng.choice(['MPFMatrix', 'mp']))
        else: O = others(rng, B)
        a, b = fmat(A), fmat(B)
        X = MPFMatrix(A)
        need(X.equal(O) is (a == b), 'equal: %s for %s matrices' % (X.equal(O), 'equal' if a == b else 'different'), A=A, B=B, other=type(O))
        need(X.almost_close(O) is (a == b), 'almost_close without tolerance', A=A, B=B, other=type(O))
        for eps in (0, 1e-3, rng.choice([1e-15, 1e-6, .5, 1.0, 10.0, mpmath.mpf(2) ** -20])):
            rel = [agree(x, y, frac(eps)) for p, q in zip(a, b) for x, y in zip(p, q)]
            if any(x is None for x in rel): continue
            g = X.almost_close(O, abs_eps=eps) if rng.random() < .5 else X.almost_close(O, eps)
            need(g is all(rel), 'almost_close: %s' % g, A=A, B=B, eps=eps, other=type(O))
        need(fmat(X._M) == a and fmat(O if not isinstance(O, MPFMatrix) else O._M) == b, 'an operand is modified', A=A, B=B)
@check('C05', 2)
def sizes(rng):
    from fixif.func_aux import MPFMatrix
    r, c, r2, c2 = [size(rng) for _ in range(4)]
    if rng.random() < .4: r2, c2 = c, r
    if (r, c) == (r2, c2): c2 += 1
    A, B = rnd_mpm(rng, r, c, fn=lambda g: mpmath.mpf(1)), rnd_mpm(rng, r2, c2, fn=lambda g: mpmath.mpf(1))
    O = others(rng, B)
    X = MPFMatrix(A)
    expect(ValueError, lambda: X.equal(O), 'equal of sizes %s and %s' % ((r, c), (r2, c2)), other=type(O))
    expect(ValueError, lambda: X.almost_close(O), 'almost_close of sizes %s and %s' % ((r, c), (r2, c2)), other=type(O))
    expect(ValueError, lambda: X.almost_close(O, 1e-3), 'almost_close of sizes %s and %s' % ((r, c), (r2, c2)), other=type(O))
    for bad in (1, None, 'x'):
        expect(ValueError, lambda: X.equal(bad), 'equal(%r)' % bad)
        expect(ValueError, lambda: X.almost_close(bad), 'almost_close(%r)' % bad)
