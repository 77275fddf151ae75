"""C08: multiple precision transfer functions"""
from vx.contract import *
from vx.contracts.lti import *

def units(v):
    b = lambda i: GE.atom('b', i, IP0); a = lambda i: GE.atom('a', i, IP0)
    def args(h, kind, lay, nb, na):
        f = h.mp if kind == 'mp' else h.mat
        mk = lambda nm, n, l: f(nm, n, 1) if l == 'col' else SMat.gen(IP1, IP.of(n), lambda i, j: GE.atom(nm, j, IP0), 'mp' if kind == 'mp' else 'matrix', 'mpf' if kind == 'mp' else 'float')
        return mk('b', nb, lay[0]), mk('a', na, lay[1])
    def entries(h, nm, M, lay, n):
        g = lambda i, j: GE.atom(nm, i if lay == 'col' else j, IP0)
        h.entries('the argument %s is not changed' % nm, M, g)
    for kind in ('mp', 'np'):
        for lay in (('col', 'col'), ('row', 'row'), ('row', 'col'), ('col', 'row')):
            for a0 in ('one', 'any'):
                def body(h, kind=kind, lay=lay, a0=a0):
                    nb, na = h.int('nb', 1), h.int('na', 1)
                    B, A = args(h, kind, lay, nb, na)
                    e = f_rc('==', a(IP0) - 1)
                    h.assume(e if a0 == 'one' else f_not(e))
                    h.assume(f_not(f_rc('==', a(IP0))))
                    H = h.load('fixif.LTI').dTFmp(B, A)
                    nb, na = IP.of(nb), IP.of(na)
                    n = IP.of(H.order) + 1
                    h.ensure('the order is the largest degree', f_or(f_and(f_le(na, nb), f_same(n, nb)), f_and(f_le(nb, na), f_same(n, na))))
                    q = (lambda x: x) if a0 == 'one' else (lambda x: GE.atom('rd2w', ge_div_(x, a(IP0))))
                    h.matrix_is('numerator: the given coefficients over the first one of the denominator, completed by zeros', H.num, n, 1, lambda i, j: q(b(i)).guard(f_lt(i, nb)))
                    h.matrix_is('denominator: the given coefficients over the first one, completed by zeros', H.den, n, 1, lambda i, j: q(a(i)).guard(f_lt(i, na)) if a0 == 'one' else GE1.guard(f_eq(i)) + q(a(i)).guard(f_and(f_le(1, i), f_lt(i, na))))
                    entries(h, 'b', B, lay[0], nb); entries(h, 'a', A, lay[1], na)
                v.unit('dTFmp(%s %s, %s), first coefficient %s' % (kind, lay[0], lay[1], a0), body)
        def body(h, kind=kind):
            nb, na = h.int('nb', 1), h.int('na', 1)
            B, A = args(h, kind, ('col', 'col'), nb, na)
            h.assume(f_rc('==', a(IP0)))
            h.raises('ValueError', ValueError, h.load('fixif.LTI').dTFmp, B, A)
        v.unit('dTFmp(%s): null first coefficient of the denominator' % kind, body)
        for w in (0, 1):
            def body(h, kind=kind, w=w):
                nb, na = h.int('nb', 1), h.int('na', 1)
                r, c = h.int('r', 2), h.int('c', 2)
                f = h.mp if kind == 'mp' else h.mat
                X, Y = f('x', r, c), f('y', nb, 1)
                h.raises('ValueError', ValueError, h.load('fixif.LTI').dTFmp, *((X, Y) if w else (Y, X)))
            v.unit('dTFmp(%s): a matrix is refused (%d)' % (kind, w), body)
    for bad in (3, None, [1.0, 2.0]):
        def body(h, bad=bad):
            M = h.mp('b', h.int('nb', 1), 1)
            h.raises('ValueError', ValueError, h.load('fixif.LTI').dTFmp, M, bad)
            h.raises('ValueError', ValueError, h.load('fixif.LTI').dTFmp, bad, M)
        v.unit('dTFmp: %r is refused' % (bad,), body)
    def body(h):
        n = h.int('n', 1)
        B = h.mp('b', n + 1, 1); A = monic(h, 'a', n + 1, 'mp')
        H = h.load('fixif.LTI').dTFmp(B, A)
        S = H.to_dSSmp()
        h.ensure('the result is a dSSmp', isinstance(S, h.load('fixif.LTI').dSSmp))
        m = IP.of(n) + 1
        realizes(h, 'to_dSSmp', S, n, lambda i: b(i).guard(f_lt(i, m)), monic_entry('a', m))
        for nm in 'ABCD':
            h.c.oblige('to_dSSmp: %s is exact' % nm, lambda nm=nm: True if not [x for x in getattr(S, nm).entry(IP.sym('i?'), IP.sym('j?')).names() if x.startswith('r')] else 'a rounding')
        h.entries('the transfer function is not changed', H.num, lambda i, j: b(i))
        h.entries('the transfer function is not changed', H.den, lambda i, j: monic_entry('a', m)(i))
    v.unit('to_dSSmp', body)
def ge_div_(x, y):
    from vx.sym import ge_div
    return ge_div(x, y)
