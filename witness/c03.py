from witness.common import *
import mpmath, numpy

def man(y, n): return Fraction(int(y)) * Fraction(2) ** int(n)
def integer(x): return isinstance(x, (int, numpy.integer)) or (type(x).__name__ == 'mpz')
@check('C03', 5)
def representation(rng):
    from fixif.func_aux import mpf_get_representation, mpf_matrix_get_representation, MPFMatrix
    with precision(rng) as pr:
        x = rnd_mpf(rng)
        y, n = mpf_get_representation(x)
        need(integer(y) and integer(n), 'y and n are not integers', x=x, y=y, n=n)
        need(man(y, n) == frac(x), 'mpf_get_representation: y*2^n is not x', x=x, y=y, n=n)
        r, c = size(rng, 5), size(rng, 5)
        A = rnd_mpm(rng, r, c); a = fmat(A)
        for f, nm in ((lambda: mpf_matrix_get_representation(A), 'mpf_matrix_get_representation'), (lambda: MPFMatrix(A).get_int_representation(), 'get_int_representation')):
            Y, N = f()
            need(Y.shape == (r, c) and N.shape == (r, c), nm + ': sizes', A=A, Y=Y, N=N)
            need(all(integer(Y[i, j]) and integer(N[i, j]) and man(Y[i, j], N[i, j]) == a[i][j] for i in range(r) for j in range(c)), nm + ': Y*2^N is not A', A=A, Y=Y, N=N)
        need(fmat(A) == a, 'the matrix is modified', A=a)
@check('C03', 1)
def representation_refuse(rng):
    from fixif.func_aux import mpf_get_representation, mpf_matrix_get_representation, MPFMatrix
    for bad in (mpmath.mpf('inf'), mpmath.mpf('-inf'), mpmath.mpf('nan'), 1.5, 3, 'x', None, numpy.float64(1.5), mpmath.mpc(1, 2)):
        expect(ValueError, lambda: mpf_get_representation(bad), 'mpf_get_representation of %r' % (bad,), x=bad)
    r, c = size(rng), size(rng)
    A = rnd_mpm(rng, r, c)
    A[rng.randrange(r), rng.randrange(c)] = mpmath.mpf(rng.choice(['inf', '-inf', 'nan']))
    expect(ValueError, lambda: mpf_matrix_get_representation(A), 'special value', A=A)
    expect(ValueError, lambda: MPFMatrix(A).get_int_representation(), 'special value', A=A)
def dmat(A): return [[Fraction(float(A[i, j])) for j in range(A.cols)] for i in range(A.rows)]
def small(rng): return rnd_mpf(rng, rng.random() < .5) if rng.random() < .8 else mpmath.mpf(rng.uniform(-1, 1)) * mpmath.mpf(2) ** rng.randint(-60, 60)
def dmpm(rng, r, c):
    M = mpmath.matrix(r, c)
    for i in range(r):
        for j in range(c):
            m = rng.getrandbits(rng.choice([3, 20, 53, 90, 200])) * rng.choice([1, -1])
            M[i, j] = mpmath.mp.make_mpf(mpmath.libmp.from_man_exp(m, rng.randint(-120, 60)))
    return M
@check('C03', 4)
def conversions(rng):
    from fixif.func_aux import mpf_to_numpy, python2mpf_matrix, MPFMatrix
    r, c = size(rng, 5), size(rng, 5)
    with precision(rng) as pr:
        A = dmpm(rng, r, c); a = fmat(A)
        M = mpf_to_numpy(A)
        need(isinstance(M, numpy.matrix) and M.shape == (r, c), 'mpf_to_numpy: type or size', A=A, M=M)
        need(fmat(M) == dmat(A), 'mpf_to_numpy: entries are not the rounded entries', A=A, M=M)
        x = A[rng.randrange(r), rng.randrange(c)]
        need(mpf_to_numpy(x) == float(x), 'mpf_to_numpy of a number', x=x)
        X = MPFMatrix(A)
        M = X.to_numpy()
        need(isinstance(M, numpy.matrix) and fmat(M) == dmat(A), 'MPFMatrix.to_numpy: entries are not the rounded entries', A=A, M=M)
        need(fmat(X.matrix) == a and X.shape == (r, c) and X.rows == r and X.cols == c, 'MPFMatrix(mpmath matrix) is not the matrix', A=A, X=X.matrix)
        i, j = rng.randrange(r), rng.randrange(c)
        need(frac(X[i, j]) == a[i][j], 'MPFMatrix[i,j]', A=A, i=i, j=j)
        A[i, j] = A[i, j] + 1
        need(fmat(X.matrix) == a, 'MPFMatrix shares its storage with the matrix it was built from', A=a)
        B = rnd_np(rng, r, c, rng.choice(['matrix', 'array'])); b = fmat(B)
        Y = MPFMatrix(B)
        need(fmat(Y.matrix) == b, 'MPFMatrix(numpy) is not the matrix', B=B, Y=Y.matrix)
        B[i, j] = B[i, j] + 1
        need(fmat(Y.matrix) == b, 'MPFMatrix shares its storage with the numpy matrix', B=b)
        B = rnd_np(rng, r, c, 'matrix'); b = fmat(B)
        Z = python2mpf_matrix(B)
        need(isinstance(Z, mpmath.matrix) and fmat(Z) == b, 'python2mpf_matrix is not the matrix', B=B, Z=Z)
        need(fmat(B) == b, 'python2mpf_matrix modifies its operand', B=b)
        need(fmat(mpf_to_numpy(Z)) == b and fmat(MPFMatrix(B).to_numpy()) == b, 'double -> multiple precision -> double', B=B)
@check('C03', 1, once=True)
def conversions_refuse(rng):
    from fixif.func_aux import mpf_to_numpy, python2mpf_matrix, MPFMatrix, mpf_matrix_to_sollya
    for bad in ('x', None, [[1.0]]):
        expect(ValueError, lambda: mpf_to_numpy(bad), 'mpf_to_numpy', x=bad)
        expect(ValueError, lambda: python2mpf_matrix(bad), 'python2mpf_matrix', x=bad)
        expect(ValueError, lambda: MPFMatrix(bad), 'MPFMatrix', x=bad)
        expect(ValueError, lambda: mpf_matrix_to_sollya(bad), 'mpf_matrix_to_sollya', x=bad)
    expect(ValueError, lambda: mpf_matrix_to_sollya(mpmath.matrix([[mpmath.mpc(1, 2)]])), 'mpf_matrix_to_sollya of a complex matrix')
@check('C03', 2)
def sollya_lists(rng):
    import sollya
    from fixif.func_aux import mpf_matrix_to_sollya, sollya_matrix_to_numpy, MPFMatrix
    r, c = size(rng, 5), size(rng, 5)
    with precision(rng) as pr:
        A = dmpm(rng, r, c); a = fmat(A)
        for f, nm in ((mpf_matrix_to_sollya, 'mpf_matrix_to_sollya'), (lambda X: MPFMatrix(X).to_sollya(), 'to_sollya')):
            S, m, n = f(A)
            need((m, n) == (r, c) and len(S) == r * c, nm + ': sizes', A=A, S=S, m=m, n=n)
            need([Fraction(x.v) for x in S] == [x for row in a for x in row], nm + ': numbers', A=A, S=S)
            B = sollya_matrix_to_numpy(S, m, n)
            need(isinstance(B, numpy.matrix) and B.shape == (r, c) and fmat(B) == dmat(A), 'sollya_matrix_to_numpy', A=A, B=B)
        need(fmat(A) == a, 'the matrix is modified', A=a)
@check('C03', 1)
def real_part(rng):
    from fixif.func_aux import mpc_get_real
    n, m = size(rng), size(rng)
    A = mpmath.matrix(n, m)
    w = [[rnd_mpf(rng) for _ in range(m)] for _ in range(n)]
    for i in range(n):
        for j in range(m): A[i, j] = mpmath.mp.make_mpc((w[i][j]._mpf_, mpmath.mpf(rng.choice([0, 1, -2.5]))._mpf_))
    R = mpc_get_real(A)
    need(fmat(R) == [[frac(x) for x in row] for row in w], 'mpc_get_real', A=A, R=R)
