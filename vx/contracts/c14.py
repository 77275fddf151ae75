"""C14: the systems from the input, or from the roundoff errors, to the signals of a SIF"""
from vx.contract import *
from vx.contracts.sifs import *
import itertools

ASSUME = ['machine arithmetic is treated as real arithmetic']
TRUSTED = ['numpy.linalg.inv returns the inverse', 'numpy bmat, r_, c_, eye, zeros and the matrix product']

def delta_is(h, R, F, name='computeDeltaSIF'):
    """the implicit form whose inputs are one additive error per temporary, state and output"""
    l, n, p = F.l, F.n, F.p
    D = R.computeDeltaSIF()
    h.ensure(name + ': a SIF', isinstance(D, h.load('fixif.SIF').SIF))
    e = l + n + p
    d = dims(l, n, p, e)
    B = dict(F.B)
    one = lambda off: (lambda i, j: GE1.guard(f_same(i + off, j)))
    B['N'], B['Q'], B['S'] = one(IP0), one(l), one(l + n)
    for x in NAMES: h.matrix_is('%s: %s' % (name, x), getattr(D, x), *d[x], B[x])
    hepsilon_is(h, R, F, D.dSS, name + ': state-space')
    # from the errors to all the signals
    G = Form(l, n, p, e, B, F.Ji)
    hu_is(h, D, G)
    return D

def units(v):
    def setup(h, tag='matrix', l=None):
        l, n, p, q = sizes(h, l)
        B = blocks(h, '', l, n, p, q, tag)
        R = h.load('fixif.SIF').SIF(tuple(B))
        return R, Form.atoms('', l, n, p, q)
    Q = dict(Hu=hu_is, Hzeta=hzeta_is, Hepsilon=hepsilon_is, computeDeltaSIF=delta_is)
    for tag in ('matrix', 'array'):
        for x in Q:
            def body(h, x=x, tag=tag):
                R, F = setup(h, tag)
                Q[x](h, R, F)
                coherent(h, 'after %s' % x, R, F)
            v.unit('%s (%s)' % (x, tag), body)
    for o in itertools.permutations(Q, 2):
        def body(h, o=o):
            R, F = setup(h)
            getattr(R, o[0]) if o[0] != 'computeDeltaSIF' else R.computeDeltaSIF()
            Q[o[1]](h, R, F)
            Q[o[0]](h, R, F)
        v.unit('%s then %s, twice' % o, body)
    def body(h):
        R, F = setup(h)
        S = [R.Hu, R.Hzeta, R.Hepsilon, R.dSS]
        M = [[(getattr(s, x), getattr(s, x).copy()) for x in 'ABCD'] for s in S]
        R.computeDeltaSIF()
        for f in (hu_is, hzeta_is, hepsilon_is): f(h, R, F)
        for nm, m in zip(('Hu', 'Hzeta', 'Hepsilon', 'dSS'), M):
            for x, (a, b) in zip('ABCD', m): h.eq('a query does not change %s of the %s already given' % (x, nm), a, b)
    v.unit('the systems already given are not changed', body)
    def body(h):
        l, n, p, q = sizes(h, 0)
        R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q, lower=False)))
        F = Form(l, n, p, q, {x: (lambda i, j: GE0) if 0 in [d.value if d.isconst else 1 for d in map(IP.of, dims(l, n, p, q)[x])] else at(x) for x in NAMES}, lambda i, j: GE0)
        hepsilon_is(h, R, F); hu_is(h, R, F); hzeta_is(h, R, F)
        hepsilon_is(h, R, F, R.computeDeltaSIF().dSS, 'computeDeltaSIF: state-space')
    v.unit('without temporaries (l = 0)', body)
    def body(h):
        l, n, p, q = sizes(h)
        B = blocks(h, '', l, n, p, q)
        R = h.load('fixif.SIF').SIF(tuple(B))
        Q0 = [R.Hu, R.Hzeta, R.Hepsilon]
        unit_lower(h, 'J2', l)
        R.J = h.mat('J2', l, l); R.K = h.mat('K2', n, l)
        F = Form.atoms('', l, n, p, q)
        F.B['J'], F.B['K'], F.Ji = at('J2'), at('K2'), at('J2i')
        for x in ('Hepsilon', 'Hzeta', 'Hu', 'computeDeltaSIF'): Q[x](h, R, F)
    v.unit('after assignments', body)
