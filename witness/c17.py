"""C17: trivial coefficients and operation counts"""
from witness.sifs import *
import math

def near(x):
    """relative distance to the powers of two"""
    m, e = math.frexp(abs(x))
    return min(abs(m - .5) / .5, abs(m - 1))
@check('C17', 1)
def powers(rng):
    from fixif.SIF import SIF
    from fixif.SIF.SIF import isTrivial
    eps = SIF.epsilondZ
    need(0 < eps <= 1e-6, 'the threshold', eps=eps)
    need(isTrivial(0, eps) and isTrivial(0.0, eps), '0 is trivial')
    for p in range(-1074, 1024):
        for s in (1, -1):
            x = s * math.ldexp(1.0, p)
            need(isTrivial(x, eps), 'a power of two is trivial', x=x)
            need(isTrivial(numpy.float64(x), eps), 'a power of two is trivial (numpy)', x=x)
@check('C17', 3)
def others(rng):
    from fixif.SIF import SIF
    from fixif.SIF.SIF import isTrivial
    eps = SIF.epsilondZ
    for _ in range(200):
        p = rng.randint(-60, 60)
        k = rng.choice(['any', 'near', 'far', 'mult'])
        if k == 'any': x = rng.uniform(-4, 4) * 2.0 ** p
        elif k == 'near': x = 2.0 ** p * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-7.5, -1))
        elif k == 'far': x = 2.0 ** p * rng.choice([1.5, 1.25, 3, 5, .75, 1.414, 1.4143, 1.1, 1.9])
        else: x = 2.0 ** p * rng.randint(1, 64)
        x *= rng.choice([1, -1])
        t = isTrivial(x, eps)
        if t: need(x == 0 or near(x) <= 2 * eps, 'a trivial coefficient is close to a power of two', x=x)
        if x and near(x) == 0: need(t, 'a power of two is trivial', x=x)
        e = 10 ** rng.uniform(-6, -.5)
        t = isTrivial(x, e)
        if t: need(x == 0 or near(x) <= 1.05 * e, 'a trivial coefficient is within epsilon of a power of two', x=x, eps=e)
def coef(rng):
    return rng.choice([0.0, 1.0, -1.0, 2.0 ** rng.randint(-9, 9), -2.0 ** rng.randint(-9, 9), rng.randint(-99, 99) / 16.0, rng.uniform(-3, 3), rng.choice([-1, 1]) * 10 ** rng.uniform(-9, 9)])
@check('C17', 4)
def counts(rng):
    d = l, n, p, q = rnd_dims(rng)
    if rng.random() < .3: d = l, n, p, q = (0, n, p, q)
    B = rnd_blocks(rng, *d, fn=coef)
    if rng.random() < .5:
        for i in range(l):
            for j in range(i): B['J'][i, j] = rng.choice([0, 1, -1, .5, -.3, .7])
    R = make(B)
    mul, add = R.nbOp()
    M = A = 0
    for rows, names in ((l, 'JMN'), (n, 'KPQ'), (p, 'LRS')):
        for i in range(rows):
            row = []
            for x in names:
                v = numpy.atleast_2d(numpy.asarray(B[x]))
                row += [v[i, j] for j in range(v.shape[1]) if x != 'J' or j != i]
            M += sum(1 for v in row if v and near(v) > 2e-8)
            A += sum(1 for v in row if v) - 1
            if any(v and 0 < near(v) <= 2e-8 for v in row): return
    need(mul == M, 'multiplications', got=mul, want=M, **B)
    need(add == A, 'additions', got=add, want=A, **B)
