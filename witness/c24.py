from witness.sifs import *

def matrices(Z, l, n, p, q):
    """A, B, C, D of the realization with the coefficients Z"""
    J, M, N = -Z[:l, :l], Z[:l, l:l + n], Z[:l, l + n:]
    T = numpy.linalg.inv(J) if l else J
    X = Z[l:, :l].dot(T)
    A = Z[l:, l:] + X.dot(numpy.hstack([M, N]))
    return A[:n, :n], A[:n, n:], A[n:, :n], A[n:, n:]
def impulse(S, m):
    A, B, C, D = S
    h, x = [D], B
    for _ in range(m):
        h.append(C.dot(x)); x = A.dot(x)
    return numpy.array(h)
def stable_sif(rng, hi=3):
    l, n, p, q = d = rng.choice([0, 0, 1, 1, 2, hi]), rng.randint(1, hi), rng.randint(1, hi), rng.randint(1, hi)
    g = lambda: rng.uniform(-1, 1) if rng.random() < .8 else rng.choice([0.0, 1.0, -1.0, 0.5])
    B = {}
    for x in NAMES:
        r, c = dims(l, n, p, q)[x]
        B[x] = numpy.matrix(numpy.array([[g() * (.5 if x in 'PKM' else 1) for _ in range(c)] for _ in range(r)]).reshape(r, c))
    for x in NAMES:
        # equal, null or opposite rows and columns
        X = B[x]
        for _ in range(2):
            if X.shape[0] > 1 and rng.random() < .25:
                i = rng.randint(1, X.shape[0] - 1); X[i, :] = X[i - 1, :] * rng.choice([1, 1, 0, -1])
            X = X.T
    B['J'] = numpy.matrix(numpy.eye(l) + numpy.tril(numpy.asarray(B['J']), -1) * .5)
    Z = numpy.vstack([numpy.hstack([-B['J'], B['M'], B['N']]), numpy.hstack([B['K'], B['P'], B['Q']]), numpy.hstack([B['L'], B['R'], B['S']])])
    return B, numpy.asarray(Z), d
def moved(Z, i, j, e):
    Z = Z.copy(); Z[i, j] += e
    return Z
def weights(rng, R, Z):
    if rng.random() < .5: return numpy.asarray(R.dZ, dtype=float)
    W = numpy.array([[rng.choice([0., 1., 1., rng.uniform(-2, 2)]) for _ in range(Z.shape[1])] for _ in range(Z.shape[0])])
    R.dZ = numpy.matrix(W)
    return W
def used(rng, R):
    if rng.random() < .3: R.Hu, R.Hzeta
    if rng.random() < .3: R.Hepsilon

@check('C24', 1)
def transfer_function(rng):
    B, Z, d = stable_sif(rng)
    r = max(abs(numpy.linalg.eigvals(matrices(Z, *d)[0])))
    if r > .9: return
    R = make(B)
    used(rng, R)
    W = weights(rng, R, Z)
    M, MX = R.dTFsensitivity()
    MX = numpy.asarray(MX)
    need(MX.shape == Z.shape, 'sensitivity of the transfer function: size', got=MX.shape, **B)
    m, e = (10 + int(40 / (1 - r))), 1e-5
    ref = numpy.array([[W[i, j] * numpy.sqrt(((impulse(matrices(moved(Z, i, j, e), *d), m) - impulse(matrices(moved(Z, i, j, -e), *d), m)) ** 2).sum()) / (2 * e) if W[i, j] else 0. for j in range(Z.shape[1])] for i in range(Z.shape[0])])
    tol = 1e-4 * (1 + abs(ref).max())
    need((abs(abs(MX) - abs(ref)) < tol).all() and (MX * ref > -tol).all(), 'sensitivity of the transfer function: weight times the norm of the derivative', got=MX, expected=ref, weights=W, **B)
    need(abs(M - (ref ** 2).sum()) < 1e-3 * (1 + (ref ** 2).sum()), 'sensitivity of the transfer function: sum of the squares', got=M, expected=(ref ** 2).sum(), weights=W, **B)

@check('C24', 1)
def poles(rng):
    B, Z, d = stable_sif(rng)
    A = lambda Z: matrices(Z, *d)[0]
    l0, X = numpy.linalg.eig(A(Z))
    n = d[1]
    gap = min([abs(a - b) for i, a in enumerate(l0) for b in l0[:i]] + [1])
    if gap < .05 or min(abs(l0)) < .05 or numpy.linalg.cond(X) > 100: return
    R = make(B)
    used(rng, R)
    W = weights(rng, R, Z)
    e = 1e-5
    def near(Z):
        l = list(numpy.linalg.eigvals(A(Z)))
        return numpy.array([min(l, key=lambda x: abs(x - y)) for y in l0])
    D = numpy.array([[(near(moved(Z, i, j, e)) - near(moved(Z, i, j, -e))) / (2 * e) for j in range(Z.shape[1])] for i in range(Z.shape[0])])
    for moduli in (True, False):
        ref = (numpy.conj(l0) * D).real / abs(l0) if moduli else D
        M, DZ, Dk = R.poleSensitivity(moduli) if rng.random() < .5 or not moduli else R.poleSensitivity()
        what = 'sensitivity of the %s of the poles' % ('moduli' if moduli else 'values')
        DZ, Dk = numpy.asarray(DZ), numpy.asarray(Dk)
        need(DZ.shape == Z.shape and Dk.shape == Z.shape + (n,), what + ': size', got=(DZ.shape, Dk.shape), **B)
        tol = 1e-4 * (1 + abs(ref).max())
        left = list(range(n))
        for k in range(n):
            hit = [x for x in left if (abs(Dk[:, :, x] - ref[:, :, k]) < tol).all()]
            need(hit, what + ': derivative of the pole %s' % l0[k], got=Dk, expected=ref[:, :, k], **B)
            left.remove(hit[0])
        s = numpy.sqrt((abs(ref) ** 2).sum(axis=2))
        need((abs(DZ - s) < tol * n).all(), what + ': matrix', got=DZ, expected=s, **B)
        w = ((s * W) ** 2).sum()
        need(abs(M - w) < 1e-3 * (1 + w), what + ': weighted sum of the squares', got=M, expected=w, weights=W, **B)
