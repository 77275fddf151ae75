from witness.common import *
from witness.c08 import conv
import numpy

def rnd_coefs(rng, n, nz=False):
    k = rng.randrange(3)
    f = (lambda: float(rng.randint(-4, 4))) if k == 0 else (lambda: rng.uniform(-3, 3)) if k == 1 else (lambda: rng.choice([0.0, 0.0, 1.0, -2.0, 0.5, rng.uniform(-1, 1)]))
    v = [f() for _ in range(n)]
    if nz and v[0] == 0: v[0] = rng.choice([1.0, -2.0, 0.5, 3.0])
    return v
def shaped(rng, v):
    k = rng.randrange(4)
    if k == 0: return numpy.matrix([v])
    if k == 1: return numpy.array(v)
    if k == 2: return list(v)
    return numpy.array([v])
def coefs(T): return [Fraction(x) for x in numpy.asarray(T.num, dtype=float).ravel().tolist()], [Fraction(x) for x in numpy.asarray(T.den, dtype=float).ravel().tolist()]
def same_tf(n1, d1, n2, d2, tol=1e-9):
    """are the two fractions the same one"""
    x, y = conv(n1, d2), conv(n2, d1)
    n = max(len(x), len(y))
    x, y = x + [Fraction(0)] * (n - len(x)), y + [Fraction(0)] * (n - len(y))
    s = max([1] + [abs(v) for v in x + y] + [sum(map(abs, n1)) * sum(map(abs, d2)), sum(map(abs, n2)) * sum(map(abs, d1))])
    return all(abs(u - v) <= Fraction(tol) * s for u, v in zip(x, y))
def rnd_tf(rng):
    from fixif.LTI import dTF
    b, a = rnd_coefs(rng, rng.randint(1, 5)), rnd_coefs(rng, rng.randint(1, 5), True)
    T = dTF(shaped(rng, b), shaped(rng, a))
    return T
@check('C09', 2)
def normalise(rng):
    from fixif.LTI import dTF
    b, a = rnd_coefs(rng, rng.randint(1, 5)), rnd_coefs(rng, rng.randint(1, 5), rng.random() < .85)
    B, A = shaped(rng, b), shaped(rng, a)
    cp = lambda x: [Fraction(v) for v in numpy.asarray(x, dtype=float).ravel().tolist()]
    if a[0] == 0:
        expect(ValueError, lambda: dTF(B, A), 'null first coefficient of the denominator', a=a)
        return
    T = dTF(B, A)
    need(cp(B) == list(map(Fraction, b)) and cp(A) == list(map(Fraction, a)), 'an argument is modified', b=b, a=a)
    n = max(len(b), len(a))
    need(T.order == n - 1, 'order', got=T.order, b=b, a=a)
    num, den = coefs(T)
    need(len(num) == n and len(den) == n, 'lengths', num=num, den=den, b=b, a=a)
    need(T.num.shape == (1, n) and T.den.shape == (1, n), 'shapes', num=T.num, den=T.den)
    need(den[0] == 1, 'the first coefficient of the denominator is not one', den=den, a=a)
    for nm, got, w in (('numerator', num, b), ('denominator', den, a)):
        w = [Fraction(x) / Fraction(a[0]) for x in w] + [Fraction(0)] * (n - len(w))
        need(all(abs(x - y) <= abs(y) * Fraction(1e-12) for x, y in zip(got, w)), nm, got=list(map(float, got)), want=list(map(float, w)))
    M = numpy.matrix([[1.0, 2.0], [3.0, 4.0]])
    expect(ValueError, lambda: dTF(M, shaped(rng, a)), 'a numerator with two rows is accepted')
    expect(ValueError, lambda: dTF(shaped(rng, b), M), 'a denominator with two rows is accepted')
@check('C09', 4)
def arithmetic(rng):
    from fixif.LTI import dTF
    T1 = rnd_tf(rng)
    o = rng.choice('+-*n')
    k = rng.randrange(4)
    n1, d1 = coefs(T1)
    if o == 'n': R = -T1; w = ([-x for x in n1], d1); what = '-T'
    else:
        f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[o]
        if k < 2:
            T2 = T1 if rng.random() < .1 else rnd_tf(rng)
            n2, d2 = coefs(T2); s2 = (n2, d2)
            X, Y, (p, q), (r, s) = T1, T2, (n1, d1), (n2, d2)
        else:
            g = rng.choice([0, 1, -1, 3, 2.5, -0.25, 0.0, rng.uniform(-5, 5)])
            n2, d2 = [Fraction(g)], [Fraction(1)]
            X, Y, (p, q), (r, s) = (T1, g, (n1, d1), (n2, d2)) if k == 2 else (g, T1, (n2, d2), (n1, d1))
        R = f(X, Y)
        if o == '*': w = (conv(p, r), conv(q, s))
        else:
            u, v = conv(p, s), conv(q, r)
            m = max(len(u), len(v)); u += [Fraction(0)] * (m - len(u)); v += [Fraction(0)] * (m - len(v))
            w = ([x + y if o == '+' else x - y for x, y in zip(u, v)], conv(q, s))
        if k < 2: need(coefs(T2) == s2, 'the right operand is modified')
        what = 'T %s %s' % (o, 'T' if k < 2 else 'number') if k < 3 else 'number %s T' % o
    need(isinstance(R, dTF), '%s: type of the result' % what, R=R)
    need(coefs(T1) == (n1, d1), '%s: an operand is modified' % what)
    rn, rd = coefs(R)
    need(rd[0] == 1 and len(rn) == len(rd) == R.order + 1, '%s: not normalised' % what, num=R.num, den=R.den)
    need(same_tf(rn, rd, *w), '%s: not the right value' % what, T1=(T1.num, T1.den), other=None if o == 'n' else (T2.num, T2.den) if k < 2 else g, num=R.num, den=R.den)
    for bad in ('x', None, [1.0]):
        expect(ValueError, lambda: T1 + bad, 'T + %r' % (bad,))
        expect(ValueError, lambda: T1 - bad, 'T - %r' % (bad,))
        expect(ValueError, lambda: T1 * bad, 'T * %r' % (bad,))
