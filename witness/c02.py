from witness.common import *
import mpmath, numpy

def unit_lower(rng, n, kind):
    M = rnd_mpm(rng, n, n) if kind == 'mp' else rnd_np(rng, n, n, 'matrix')
    for i in range(n):
        M[i, i] = 1
        for j in range(i + 1, n): M[i, j] = 0
    return M
def sz(rng): return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8]) if rng.random() < .9 else rng.randint(9, 18)
@check('C02', 3)
def inverse(rng):
    from fixif.func_aux import mpf_matrix_lt_inverse, MPFMatrix
    n = sz(rng)
    L = unit_lower(rng, n, rng.choice(['mp', 'np']))
    l = fmat(L)
    with precision(rng) as pr:
        X = mpf_matrix_lt_inverse(L)
        need(isinstance(X, mpmath.matrix), 'result is not a mpmath matrix', got=type(X))
        need((X.rows, X.cols) == (n, n) and fmul(l, fmat(X)) == feye(n), 'L * mpf_matrix_lt_inverse(L) is not the identity', L=L, prec=pr, got=X)
        need(fmat(L) == l, 'mpf_matrix_lt_inverse changes its operand', L=l)
        M = MPFMatrix(L); l = fmat(M._M)
        X = M.inv_lowtr()
        need(isinstance(X, MPFMatrix), 'result is not a MPFMatrix', got=type(X))
        need((X.rows, X.cols) == (n, n) and fmul(l, fmat(X.matrix)) == feye(n), 'L * L.inv_lowtr() is not the identity', L=L, prec=pr, got=X.matrix)
        need(fmat(M._M) == l, 'inv_lowtr changes its matrix', L=l)
@check('C02', 2)
def refuse(rng):
    from fixif.func_aux import mpf_matrix_lt_inverse, MPFMatrix
    n = sz(rng)
    L = unit_lower(rng, n, rng.choice(['mp', 'np']))
    k = rng.randrange(3)
    v = rng.choice([2, -1, 1 + 2.0**-40, 0.5, 1e-30, 1e10, -1e-5])
    if k == 0:
        i = rng.randrange(n); L[i, i] = rng.choice([v, 0]); what = 'diagonal entry %d is not 1' % i
    elif k == 1:
        if n < 2: return
        j = rng.randrange(1, n); i = rng.randrange(j); L[i, j] = v if v != 1 else 3; what = 'entry (%d,%d) above the diagonal is not 0' % (i, j)
    else:
        m = rng.choice([x for x in range(1, 7) if x != n])
        L = rnd_mpm(rng, n, m)
        for i in range(min(n, m)):
            L[i, i] = 1
            for j in range(i + 1, m): L[i, j] = 0
        what = 'matrix %dx%d is not square' % (n, m)
    expect(ValueError, lambda: mpf_matrix_lt_inverse(L), 'mpf_matrix_lt_inverse: ' + what, L=L)
    expect(ValueError, lambda: MPFMatrix(L).inv_lowtr(), 'inv_lowtr: ' + what, L=L)
@check('C02', 1, once=True)
def refuse_types(rng):
    from fixif.func_aux import mpf_matrix_lt_inverse
    for bad in (1.5, 'x', None, [[1.0]]): expect(ValueError, lambda: mpf_matrix_lt_inverse(bad), 'unsupported operand', L=bad)
