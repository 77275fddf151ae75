from witness.sifs import *

def verify(R, B, d, what, rng):
    l, n, p, q = d
    F = fr(B)
    inp = dict(B)
    need((R.l, R.n, R.p, R.q) == d, 'dimensions', got=(R.l, R.n, R.p, R.q), want=d)
    for x in NAMES: need(fmat(getattr(R, x)) == F[x], '%s: block %s' % (what, x), got=getattr(R, x), **inp)
    Z = fmat(R.Z)
    rows = [[F[x] for x in line] for line in ('JMN', 'KPQ', 'LRS')]
    rows[0][0] = [[-v for v in r] for r in F['J']]
    W = [sum((b[i] for b in line), []) for line in rows for i in range(len(line[1]))]
    need(Z == W, what + ': Z', got=R.Z, **inp)
    ref = state_space(F, n, p, q)
    same(R.dSS, ref, what + ': state-space', **inp)
    for x in 'ABCD': need((numpy.array(getattr(R, x + 'Z')) == numpy.array(getattr(R.dSS, x))).all(), what + ': %sZ' % x, **inp)
    order = ['exact', 'Hepsilon', 'Hu', 'Hzeta', 'gramians', 'invJ']
    rng.shuffle(order)
    for o in order[:rng.randint(1, 6)]:
        if o == 'exact':
            E = R.to_dSSexact()
            for x, w in zip('ABCD', ref): need(fmat(getattr(E, x)) == w, what + ': exact ' + x, got=getattr(E, x), **inp)
        elif o == 'Hepsilon': same(R.Hepsilon, error_system(F, *d), what + ': Hepsilon', **inp)
        elif o == 'Hu': same(R.Hu, all_signals(F, *d, after=True), what + ': Hu', **inp)
        elif o == 'Hzeta': same(R.Hzeta, all_signals(F, *d, after=False), what + ': Hzeta', **inp)
        elif o == 'invJ': need(mclose(numpy.array(R.invJ) @ numpy.array(R.J), numpy.eye(l), 1e-8), what + ': invJ', **inp)
        elif max(abs(numpy.linalg.eigvals(numpy.array(R.AZ)))) < .95:
            A, Bm, C = [numpy.array(getattr(R.dSS, x), dtype=float) for x in 'ABC']
            W = numpy.array(R.Wo); need(mclose(A.T @ W @ A + C.T @ C, W, 1e-6), what + ': Wo', Wo=W, **inp)
            W = numpy.array(R.Wc); need(mclose(A @ W @ A.T + Bm @ Bm.T, W, 1e-6), what + ': Wc', Wc=W, **inp)
@check('C13', 1)
def history(rng):
    d = rnd_dims(rng)
    fn = scaled(rng)
    B = rnd_blocks(rng, *d, fn=fn)
    keep = {x: numpy.array(B[x]) for x in B}
    R = make(B)
    if rng.random() < .8: verify(R, B, d, 'construction', rng)
    for k in range(rng.randint(1, 5)):
        x = rng.choice(NAMES + 'Z')
        if x == 'Z':
            B = rnd_blocks(rng, *d, fn=fn)
            R.Z = numpy.matrix(numpy.block([[-numpy.array(B['J']), numpy.array(B['M']), numpy.array(B['N'])]] + [[numpy.array(B[y]) for y in line] for line in ('KPQ', 'LRS')]))
        else:
            B = dict(B); B[x] = block(rng, x, *dims(*d)[x], fn=fn)
            setattr(R, x, B[x])
        if rng.random() < .7: verify(R, B, d, 'after the assignment of ' + x, rng)
    verify(R, B, d, 'at the end', rng)
@check('C13', 1)
def no_temporaries(rng):
    n, p, q = size(rng, 3), size(rng, 3), size(rng, 3)
    d = (0, n, p, q)
    B = rnd_blocks(rng, *d, fn=scaled(rng))
    R = make(B)
    ref = [fmat(numpy.asarray(B[x])) for x in 'PQRS']
    same(R.dSS, ref, 'no temporaries', **B)
    E = R.to_dSSexact()
    for x, w in zip('ABCD', ref): need(fmat(getattr(E, x)) == w, 'no temporaries: exact ' + x)
@check('C13', 1)
def refused(rng):
    d = rnd_dims(rng, 4)
    B = rnd_blocks(rng, *d)
    x = rng.choice(NAMES)
    r, c = dims(*d)[x]
    bad = (r + rng.choice([1, 2]), c) if rng.random() < .5 else (r, c + rng.choice([1, 2]))
    expect(ValueError, lambda: make(dict(B, **{x: rnd_np(rng, *bad)})), 'a matrix %s of the wrong size' % x, dims=d, bad=bad)
    l = d[0]
    J = numpy.array(B['J'])
    i, j = rng.randrange(l), rng.randrange(l)
    i, j = min(i, j), max(i, j)
    J[i, j] += 0.5 if i != j or rng.random() < .5 else 1.0
    try: numpy.linalg.inv(J)
    except numpy.linalg.LinAlgError: return
    if J[i, j] in (0.0 if i != j else 1.0,): return
    try: R = make(dict(B, J=J))
    except ValueError: return
    expect(ValueError, R.to_dSSexact, 'a J that is not unit lower triangular', J=J)
