from witness.sifs import *

@check('C14', 1)
def systems(rng):
    d = l, n, p, q = rnd_dims(rng, 4)
    B = rnd_blocks(rng, *d)
    R = make(B)
    if rng.random() < .3:
        R.Hu, R.Hepsilon, R.Hzeta
        x = rng.choice(NAMES)
        B[x] = block(rng, x, *dims(*d)[x])
        setattr(R, x, B[x])
    F = fr(B)
    order = ['Hepsilon', 'Hu', 'Hzeta', 'delta'] * 2
    rng.shuffle(order)
    for o in order[:6]:
        if o == 'Hepsilon': same(R.Hepsilon, error_system(F, *d), 'Hepsilon', **B)
        elif o == 'Hu': same(R.Hu, all_signals(F, *d, after=True), 'Hu', **B)
        elif o == 'Hzeta': same(R.Hzeta, all_signals(F, *d, after=False), 'Hzeta', **B)
        else:
            D = R.computeDeltaSIF()
            same(D.dSS, error_system(F, *d), 'computeDeltaSIF', **B)
            e = l + n + p
            I = feye(e)
            G = dict(F, N=I[:l], Q=I[l:l + n], S=I[l + n:])
            for x in NAMES: need(fmat(getattr(D, x)) == G[x], 'computeDeltaSIF: block ' + x, got=getattr(D, x), **B)
            same(D.Hu, all_signals(G, l, n, p, e, after=True), 'Hu of the error form', **B)
    for x in NAMES: need(fmat(getattr(R, x)) == F[x], 'block %s is changed by the queries' % x)
