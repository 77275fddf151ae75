"""C09: arithmetic of transfer functions"""
from vx.contract import *
from vx.contracts.lti import *
from vx.sym import ge_div

ASSUME = ['machine arithmetic is treated as real arithmetic']

def tf(h, s, order=None):
    """an arbitrary transfer function (normalised): (object, number of coefficients, numerator, denominator)"""
    n = h.int('n' + s, 0) if order is None else order
    m = IP.of(n) + 1
    T = h.load('fixif.LTI').dTF(h.mat('b' + s, 1, m), monic(h, 'a' + s, m))
    return T, m, (lambda i: GE.atom('b' + s, IP0, i).guard(f_and(f_ge(i), f_lt(i, m)))), monic_entry('a' + s, m)
def conv(p, q):
    return lambda k: (p(IP.sym('s?')) * q(k - IP.sym('s?'))).sum('s?', 0, k + 1)

def units(v):
    b = lambda i: GE.atom('b', IP0, i); a = lambda i: GE.atom('a', IP0, i)
    for lay in ('matrix', 'array', 'list'):
        def body(h, lay=lay):
            nb, na = h.int('nb', 1), h.int('na', 1)
            mk = lambda nm, n: h.mat(nm, 1, n) if lay == 'matrix' else SMat.gen(IP.of(n), IP1, lambda i, j: GE.atom(nm, IP0, i), 'array', 'float', 1)
            if lay == 'list':
                nb, na = 3, 2
                B, A = [h.real('b%d' % i) for i in range(nb)], [h.real('a%d' % i) for i in range(na)]
                eb = lambda i: sum((x.ge.guard(f_same(i, k)) for k, x in enumerate(B)), GE0); ea = lambda i: sum((x.ge.guard(f_same(i, k)) for k, x in enumerate(A)), GE0)
                a00 = A[0].ge
            else:
                B, A = mk('b', nb), mk('a', na); eb, ea = b, a; a00 = a(IP0)
            h.assume(f_not(f_rc('==', a00)))
            H = h.load('fixif.LTI').dTF(B, A)
            nb, na = IP.of(nb), IP.of(na)
            n = IP.of(H.order) + 1
            h.ensure('the order is the largest degree', f_or(f_and(f_le(na, nb), f_same(n, nb)), f_and(f_le(nb, na), f_same(n, na))))
            h.matrix_is('numerator', H.num, 1, n, lambda i, j: ge_div(eb(j), a00).guard(f_lt(j, nb)))
            h.matrix_is('denominator', H.den, 1, n, lambda i, j: ge_div(ea(j), a00).guard(f_lt(j, na)))
            h.zero("the first coefficient of the denominator is one", H.den.entry(IP0, IP0) - 1)
            if lay != 'list':
                h.entries('the arguments are not changed', B, (lambda i, j: b(j)) if lay == 'matrix' else (lambda i, j: b(i)))
                h.entries('the arguments are not changed', A, (lambda i, j: a(j)) if lay == 'matrix' else (lambda i, j: a(i)))
        v.unit('dTF(%s)' % lay, body)
    def body(h):
        B, A = h.mat('b', 1, h.int('nb', 1)), h.mat('a', 1, h.int('na', 1))
        h.assume(f_rc('==', a(IP0)))
        h.raises('ValueError', ValueError, h.load('fixif.LTI').dTF, B, A)
    v.unit('dTF: null first coefficient of the denominator', body)
    for w in (0, 1):
        def body(h, w=w):
            X, Y = h.mat('x', h.int('r', 2), h.int('c', 1)), h.mat('y', 1, h.int('n', 1))
            h.assume(f_not(f_rc('==', GE.atom('x', IP0, IP0)))); h.assume(f_not(f_rc('==', GE.atom('y', IP0, IP0))))
            h.raises('ValueError', ValueError, h.load('fixif.LTI').dTF, *((X, Y) if w else (Y, X)))
        v.unit('dTF: more than one row is refused (%d)' % w, body)
    def unchanged(h, T, s, m, num, den):
        h.matrix_is('operand: numerator not changed', T.num, 1, m, lambda i, j: num(j))
        h.matrix_is('operand: denominator not changed', T.den, 1, m, lambda i, j: den(j))
    ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}
    for o in '+-*':
        def body(h, o=o):
            T1, m1, n1, d1 = tf(h, '1'); T2, m2, n2, d2 = tf(h, '2')
            R = ops[o](T1, T2)
            h.ensure('the result is a dTF', isinstance(R, h.load('fixif.LTI').dTF))
            m = m1 + m2 - 1
            num = conv(n1, n2) if o == '*' else (lambda k: conv(n1, d2)(k) + (conv(d1, n2)(k) if o == '+' else -conv(d1, n2)(k)))
            h.matrix_is('numerator', R.num, 1, m, lambda i, j: num(j))
            h.matrix_is('denominator', R.den, 1, m, lambda i, j: conv(d1, d2)(j))
            h.ensure('order', f_same(IP.of(R.order) + 1, m))
            unchanged(h, T1, '1', m1, n1, d1); unchanged(h, T2, '2', m2, n2, d2)
        v.unit('dTF %s dTF' % o, body)
        def body(h, o=o):
            T1, m1, n1, d1 = tf(h, '1')
            R = ops[o](T1, T1)
            m = m1 * 2 - 1
            num = conv(n1, n1) if o == '*' else (lambda k: conv(n1, d1)(k).scale(2)) if o == '+' else (lambda k: GE0)
            h.matrix_is('numerator', R.num, 1, m, lambda i, j: num(j))
            h.matrix_is('denominator', R.den, 1, m, lambda i, j: conv(d1, d1)(j))
        v.unit('dTF %s itself' % o, body)
        for kind in ('int', 'float'):
            for side in ('right', 'left'):
                def body(h, o=o, kind=kind, side=side):
                    T1, m1, n1, d1 = tf(h, '1')
                    g = h.int('g') if kind == 'int' else h.real('g')
                    G = to_real_(g)
                    R = ops[o](T1, g) if side == 'right' else ops[o](g, T1)
                    if o == '*': num = lambda k: n1(k) * G
                    elif o == '+': num = lambda k: n1(k) + d1(k) * G
                    else: num = lambda k: (n1(k) - d1(k) * G).scale(1 if side == 'right' else -1)
                    h.ensure('the result is a dTF', isinstance(R, h.load('fixif.LTI').dTF))
                    h.matrix_is('numerator', R.num, 1, m1, lambda i, j: num(j))
                    h.matrix_is('denominator', R.den, 1, m1, lambda i, j: d1(j))
                    unchanged(h, T1, '1', m1, n1, d1)
                v.unit('dTF %s %s (%s)' % ((o, kind, side) if side == 'right' else (o, kind, 'left')), body)
        def body(h, o=o):
            T1, m1, n1, d1 = tf(h, '1')
            for bad in ('x', None, [1.0]):
                h.raises('dTF %s %r: ValueError' % (o, bad), ValueError, lambda: ops[o](T1, bad))
                if not isinstance(bad, list): h.raises('%r %s dTF: ValueError' % (bad, o), ValueError, lambda: ops[o](bad, T1))
        v.unit('dTF %s: unsupported operands' % o, body)
    def body(h):
        T1, m1, n1, d1 = tf(h, '1')
        R = -T1
        h.matrix_is('numerator', R.num, 1, m1, lambda i, j: -n1(j))
        h.matrix_is('denominator', R.den, 1, m1, lambda i, j: d1(j))
        unchanged(h, T1, '1', m1, n1, d1)
    v.unit('- dTF', body)
def to_real_(x):
    from vx.sym import to_real
    return to_real(x).ge
