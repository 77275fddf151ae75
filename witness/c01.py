from witness.common import *
import mpmath, numpy

def operand(rng, r, c):
    if rng.random() < .5: return rnd_mpm(rng, r, c)
    return rnd_np(rng, r, c, 'matrix')

@check('C01', 4)
def helpers(rng):
    from fixif.func_aux import mpf_matrix_fadd, mpf_matrix_fsub, mpf_matrix_fmul
    m, n, p = size(rng, 7), size(rng, 7), size(rng, 7)
    op = rng.choice(['fadd', 'fsub', 'fmul'])
    A = operand(rng, m, n); B = operand(rng, *((n, p) if op == 'fmul' else (m, n)))
    if rng.random() < .1 and m == n and (op != 'fmul' or n == p): B = A
    a, b = fmat(A), fmat(B)
    with precision(rng) as pr:
        f = dict(fadd=mpf_matrix_fadd, fsub=mpf_matrix_fsub, fmul=mpf_matrix_fmul)[op]
        C = f(A, B)
        need(isinstance(C, mpmath.matrix), 'result is not a mpmath matrix', A=A, B=B, got=type(C))
        want = dict(fadd=fadd, fsub=fsub, fmul=fmul)[op](a, b)
        need(fmat(C) == want, 'mpf_matrix_%s is not exact' % op, A=A, B=B, prec=pr, got=C, want=want)
        need(fmat(A) == a and fmat(B) == b, 'mpf_matrix_%s changes an operand' % op, A=a, B=b)
@check('C01', 2)
def helpers_refuse(rng):
    from fixif.func_aux import mpf_matrix_fadd, mpf_matrix_fsub, mpf_matrix_fmul
    m, n = size(rng), size(rng)
    m2, n2 = size(rng), size(rng)
    A = operand(rng, m, n); B = operand(rng, m2, n2)
    if (m, n) != (m2, n2):
        expect(ValueError, lambda: mpf_matrix_fadd(A, B), 'fadd on sizes %s' % ((m, n, m2, n2),), A=A, B=B)
        expect(ValueError, lambda: mpf_matrix_fsub(A, B), 'fsub on sizes %s' % ((m, n, m2, n2),), A=A, B=B)
    if n != m2: expect(ValueError, lambda: mpf_matrix_fmul(A, B), 'fmul on sizes %s' % ((m, n, m2, n2),), A=A, B=B)
    bad = rng.choice([1.5, 'x', None, [1, 2], [[1.0]], {}])
    S = operand(rng, n, n)
    for f in (mpf_matrix_fadd, mpf_matrix_fsub, mpf_matrix_fmul):
        expect(ValueError, lambda: f(S, bad), 'unsupported right operand', A=S, B=bad)
        expect(ValueError, lambda: f(bad, S), 'unsupported left operand', A=bad, B=S)
    X = rnd_mpm(rng, n, n); Y = rnd_mpm(rng, n, n)
    X[0, 0] = mpmath.mpc(1, 2)
    for f in (mpf_matrix_fadd, mpf_matrix_fsub, mpf_matrix_fmul):
        expect(ValueError, lambda: f(X, Y), 'complex left operand', A=X, B=Y)
        expect(ValueError, lambda: f(Y, X), 'complex right operand', A=Y, B=X)
@check('C01', 4)
def matrix_class(rng):
    from fixif.func_aux import MPFMatrix
    m, n, p = size(rng, 7), size(rng, 7), size(rng, 7)
    op = rng.choice(['add', 'sub', 'mul'])
    with precision(rng) as pr:
        A = MPFMatrix(operand(rng, m, n)); B = MPFMatrix(operand(rng, *((n, p) if op == 'mul' else (m, n))))
        a, b = fmat(A._M), fmat(B._M)
        C = getattr(A, op + '_exact')(B)
        need(isinstance(C, MPFMatrix), 'result is not a MPFMatrix', got=type(C))
        want = dict(add=fadd, sub=fsub, mul=fmul)[op](a, b)
        need(fmat(C.matrix) == want, 'MPFMatrix.%s_exact is not exact' % op, A=A._M, B=B._M, prec=pr, got=C.matrix, want=want)
        need(fmat(A._M) == a and fmat(B._M) == b, 'MPFMatrix.%s_exact changes an operand' % op, A=a, B=b)
@check('C01', 1)
def matrix_class_refuse(rng):
    from fixif.func_aux import MPFMatrix
    m, n, m2, n2 = [size(rng) for _ in range(4)]
    A, B = MPFMatrix(operand(rng, m, n)), MPFMatrix(operand(rng, m2, n2))
    if (m, n) != (m2, n2):
        expect(ValueError, lambda: A.add_exact(B), 'add_exact on sizes %s' % ((m, n, m2, n2),), A=A._M, B=B._M)
        expect(ValueError, lambda: A.sub_exact(B), 'sub_exact on sizes %s' % ((m, n, m2, n2),), A=A._M, B=B._M)
    if n != m2: expect(ValueError, lambda: A.mul_exact(B), 'mul_exact on sizes %s' % ((m, n, m2, n2),), A=A._M, B=B._M)
    for bad in (1.5, 'x', None, [[1.0]]):
        for f in (A.add_exact, A.sub_exact, A.mul_exact):
            expect(ValueError, lambda: f(bad), 'unsupported operand of %s' % f.__name__, A=A._M, B=bad)
