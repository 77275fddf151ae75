from witness.common import *
import numpy, os, tempfile, shutil, math

class System:
    def __init__(self, W): self.W = W
    def WCPG(self, output_info=None): return self.W.copy()
def realization(l, n, p, Wz, We):
    import fixif.LTI
    from fixif.SIF.Realization_FxP import R_FxP
    class Obj(R_FxP): pass
    o = Obj()
    o.l, o.n, o.p = l, n, p
    o.Hzeta, o.Hepsilon = System(Wz), System(We)
    return o
def dy(rng): return rng.choice([1, 3, 5, 7, rng.randint(1, 999)]) * 2.0 ** rng.randint(-12, 6)
def two(e): return Fraction(2) ** e
def draw(rng):
    l, n, p, q = rng.choice([0, 0, 1, 2]), rng.randint(1, 3), rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    N = l + n + p
    if rng.random() < .4:          # just above, or just under, a power of two
        q = 1
        W = numpy.matrix([[2.0 ** rng.randint(-8, 8) * (1 + rng.choice([1, -1]) * 2.0 ** -rng.randint(3, 50))] for _ in range(N)]); u = numpy.matrix([[1.0]])
    else:
        W = numpy.matrix([[dy(rng) for _ in range(q)] for _ in range(N)]); u = numpy.matrix([[float(rng.randint(1, 20))] for _ in range(q)])
    We = numpy.matrix([[dy(rng) for _ in range(N)] for _ in range(p)])
    if rng.random() < .3: We[:, rng.randrange(N)] = We[:, 0] * 2.0 ** rng.randint(1, 9)
    z = [sum(Fraction(float(W[i, s])) * Fraction(float(u[s, 0])) for s in range(q)) for i in range(N)]
    eps = numpy.matrix([[rng.choice([2.0 ** -rng.randint(0, 30), rng.uniform(.1, 1) * 10.0 ** -rng.randint(0, 9)])] for _ in range(p)])
    return l, n, p, N, W, u, We, z, eps
def power(z): return z == two(math.frexp(float(z))[1] - 1)
def msb(z):
    m = 0
    while two(m) < z: m += 1
    while two(m - 1) >= z: m -= 1
    return m
def threshold(z):
    g, w = two(msb(z)) - z, 0
    m = msb(z)
    while g < two(m - w + 1): w += 1
    while g >= two(m - w + 2): w -= 1
    return w
def vec(L): return [int(x) for x in numpy.array(L, dtype=object).ravel()]

@check('C19', 8)
def formats(rng):
    l, n, p, N, W, u, We, z, eps = draw(rng)
    o = realization(l, n, p, W, We)
    u0 = u.copy()
    inp = dict(WCPG=W.tolist(), u=u.tolist())
    m = o.computeNaiveMSB(u)
    need(vec(m) == [msb(x) for x in z], 'most significant bits', got=m, expected=[msb(x) for x in z], **inp)
    if not any(power(x) for x in z):
        t = o._w_tilde(u)
        need(vec(t) == [threshold(x) for x in z], 'thresholds of the word-lengths', got=t, expected=[threshold(x) for x in z], **inp)
    need((u == u0).all(), 'the bounds are changed', **inp)

def close_(x): return abs(math.log2(float(x)) - round(math.log2(float(x)))) < 1e-9
@check('C19', 8)
def word_lengths(rng):
    l, n, p, N, W, u, We, z, eps = draw(rng)
    if any(power(x) for x in z): return
    o = realization(l, n, p, W, We)
    M, T = [msb(x) for x in z], [threshold(x) for x in z]
    E = [[Fraction(float(We[j, i])) * two(M[i]) for i in range(N)] for j in range(p)]
    B = [Fraction(float(eps[j, 0])) for j in range(p)]
    inp = dict(dims=(l, n, p), E=[[float(x) for x in r] for r in E], thresholds=T, eps=eps.tolist())
    err = lambda j, w: sum(E[j][i] * two(-w + (w < T[i])) for i in range(N))
    w = o.optimalUniformWL(u, eps)
    exact = not any(close_(sum(E[j]) / B[j]) for j in range(p))
    if exact:
        need(all(err(j, w) <= B[j] for j in range(p)), 'the uniform word-length does not satisfy the error bounds', w=w, **inp)
        need(not all(err(j, w - 1) < B[j] for j in range(p)), 'the uniform word-length is not minimal', w=w, **inp)
    d = tempfile.mkdtemp()
    try:
        wmax = rng.randint(1, 99)
        L = o.optimalWL(u, eps, AMPLfilename='a.dat', AMPLpath=d, wmax=wmax)
        with open(os.path.join(d, 'a.dat')) as f: D = parse(f.read(), inp)
    finally: shutil.rmtree(d)
    need(len(L) == N, 'one word-length per variable', got=L, **inp)
    for i in range(N):
        if any(close_(E[j][i] * N / B[j]) for j in range(p)): continue
        need(all(E[j][i] * N * two(-L[i]) <= B[j] for j in range(p)), 'word-length %d: more than the share of the error' % i, got=L, **inp)
        need(not all(E[j][i] * N * two(1 - L[i]) <= B[j] for j in range(p)), 'word-length %d is not minimal' % i, got=L, **inp)
    exp = {'p': {(): p}, 'np': {(): N}, 'u': {(i + 1,): wmax for i in range(N)}, 'wtilde': {(i + 1,): T[i] for i in range(N)},
           'eps': {(j + 1,): B[j] for j in range(p)}, 'E': {(j + 1, i + 1): E[j][i] for j in range(p) for i in range(N)}}
    need(D == exp, 'data of the optimization problem', got={k: {i: float(x) for i, x in v.items()} for k, v in D.items()}, **inp)

def parse(t, inp):
    import re
    t = re.sub(r'#[^\n]*', '', t)
    need(t.split(None, 1)[0] == 'data;', 'the file is not one of AMPL data', **inp)
    r = {}
    for st in t.split(None, 1)[1].split(';'):
        if not st.strip(): continue
        head, body = st.split(':=')
        kw, name, *cols = head.replace(':', ' : ').split()
        body = body.split()
        need(kw == 'param' and name not in r, 'the file is not one of AMPL data', file=t, **inp)
        if cols:
            cols = [int(x) for x in cols[1:]]
            k = len(cols) + 1
            L = [((int(body[i]), c), Fraction(float(body[i + 1 + x]))) for i in range(0, len(body), k) for x, c in enumerate(cols)]
        elif len(body) == 1: L = [((), Fraction(float(body[0])))]
        else: L = [((int(body[i]),), Fraction(float(body[i + 1]))) for i in range(0, len(body), 2)]
        need(len(dict(L)) == len(L), 'an index appears twice', parameter=name, file=t, **inp)
        r[name] = dict(L)
    return r
