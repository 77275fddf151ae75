"""C05: comparisons of matrices look at every entry"""
from vx.contract import *

TRUSTED = ['mpmath.almosteq(x, y, rel, abs): a relation between x, y and the tolerances, true for x = y (the entries and the tolerance it is given are compared with those of the contract)']

def units(v):
    P = 'fixif.func_aux'
    a = lambda i, j: GE.atom('A', i, j)
    b = lambda i, j: GE.atom('B', i, j)
    def other(h, kind, n, m, M):
        if kind == 'np': return h.mat('B', n, m)
        if kind == 'array': return h.mat('B', n, m, 'array')
        B = h.mp('B', n, m)
        return M(B) if kind == 'MPFMatrix' else B
    def close(h, eps):
        def f(i, j):
            x, y = a(i, j), b(i, j)
            return f_not(f_rc('==', GE.atom('almosteq', x, y, GE.const(-1), eps)))
        return f
    def eq(i, j): return f_rc('==', a(i, j) - b(i, j))
    # the operators of the comparison
    methods = [('equal', lambda X, Y, h: X.equal(Y), lambda h: eq),
               ('almost_close', lambda X, Y, h: X.almost_close(Y, h.real('eps')), lambda h: close(h, GE.atom('eps'))),
               ('almost_close(abs_eps=)', lambda X, Y, h: X.almost_close(Y, abs_eps=h.real('eps')), lambda h: close(h, GE.atom('eps'))),
               ('almost_close without tolerance', lambda X, Y, h: X.almost_close(Y), lambda h: close(h, GE0))]
    for name, call, rel in methods:
        for kind in ('MPFMatrix', 'mp', 'np', 'array'):
            def body(h, call=call, rel=rel, kind=kind):
                m, n = h.int('m', 1), h.int('n', 1)
                M = h.load(P).MPFMatrix
                A = h.mp('A', m, n)
                X = M(A); B = other(h, kind, m, n, M)
                r = call(X, B, h)
                i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
                for f in (f_ge(i), f_lt(i, m), f_ge(j), f_lt(j, n)): h.assume(f)
                if bool(r): h.ensure('True: the entries agree, at every position', rel(h)(i, j))
                else: h.ensure('False or True', r is False or isinstance(r, SBool))
                h.entries('the operand is not changed', X._M, a)
                h.entries('the other operand is not changed', getattr(B, '_M', B), b)
            v.unit('%s(%s): True only when all the entries agree' % (name, kind), body)
            def body(h, call=call, rel=rel, kind=kind):
                m, n = h.int('m', 1), h.int('n', 1)
                M = h.load(P).MPFMatrix
                X = M(h.mp('A', m, n)); B = other(h, kind, m, n, M)
                h.assume(('all', ('u0', 'u1'), f_implies(f_and(f_ge('u0'), f_lt('u0', m), f_ge('u1'), f_lt('u1', n)), rel(h)(IP.sym('u0'), IP.sym('u1')))))
                h.ensure('all the entries agree: True', call(X, B, h))
            v.unit('%s(%s): True when all the entries agree' % (name, kind), body)
            def body(h, call=call, kind=kind):
                m, n, m2, n2 = [h.int(x, 1) for x in ('m', 'n', 'm2', 'n2')]
                M = h.load(P).MPFMatrix
                h.assume(f_or(f_not(f_same(m, m2)), f_not(f_same(n, n2))))
                X = M(h.mp('A', m, n)); B = other(h, kind, m2, n2, M)
                h.raises('ValueError', ValueError, call, X, B, h)
            v.unit('%s(%s) of different sizes' % (name, kind), body)
        for bad in (3, None, 'x'):
            def body(h, call=call, bad=bad):
                X = h.load(P).MPFMatrix(h.mp('A', h.int('m', 1), h.int('n', 1)))
                h.raises('ValueError', ValueError, call, X, bad, h)
            v.unit('%s(%r) is refused' % (name, bad), body)
