"""C02: exact inverse of a unit lower triangular matrix"""
from vx.contract import *

def units(v):
    a = lambda i, j: GE.atom('L', i, j)
    def spec(h, X, n):
        h.shape('size of the inverse', X, n, n)
        h.exact('no rounding', X.st.gen if X.st.gen is not None else GE0)
        i, j = IP.sym('i0'), IP.sym('j0')
        for f in (f_ge(i), f_lt(i, n), f_ge(j), f_lt(j, n)): h.assume(f)
        prod = (a(i, 'q?') * X.entry('q?', j)).sum('q?', 0, n)
        h.zero('L * X = I', prod - GE1.guard(f_same(i, j)))
    def unitlow(h, n):
        h.assume(('all', ('u0',), f_implies(f_and(f_ge('u0'), f_lt('u0', n)), f_rc('==', a('u0', 'u0') - 1))))
        h.assume(('all', ('u0', 'u1'), f_implies(f_and(f_ge('u0'), f_lt('u0', 'u1'), f_lt('u1', n)), f_rc('==', a('u0', 'u1')))))
    for k in ('mp', 'np'):
        def body(h, k=k):
            n = h.int('n', 1)
            L = h.mp('L', n, n) if k == 'mp' else h.mat('L', n, n)
            unitlow(h, n)
            X = h.load('fixif.func_aux').mpf_matrix_lt_inverse(L)
            spec(h, X, n)
        v.unit('mpf_matrix_lt_inverse(%s): unit lower triangular' % k, body)
        def body(h, k=k):
            n = h.int('n', 1)
            L = h.mp('L', n, n) if k == 'mp' else h.mat('L', n, n)
            unitlow(h, n)
            M = h.load('fixif.func_aux').MPFMatrix
            Y = M(L)
            X = Y.inv_lowtr()
            h.ensure('result is a MPFMatrix', isinstance(X, M))
            h.entries('the matrix is not changed', Y._M, a)
            spec(h, X._M, n)
        v.unit('MPFMatrix.inv_lowtr(%s): unit lower triangular' % k, body)
    def wrong(h, n):
        """not unit lower triangular: a wrong diagonal entry or a non null entry above"""
        p, q = IP.sym('p0'), IP.sym('p1')
        for f in (f_ge(p), f_lt(p, n), f_ge(q), f_lt(q, n)): h.assume(f)
        return p, q
    for fn in ('mpf_matrix_lt_inverse', 'inv_lowtr'):
        def call(h, L, fn=fn):
            if fn == 'inv_lowtr': return h.load('fixif.func_aux').MPFMatrix(L).inv_lowtr()
            return h.load('fixif.func_aux').mpf_matrix_lt_inverse(L)
        def body(h, call=call):
            n = h.int('n', 1); L = h.mp('L', n, n)
            p, q = wrong(h, n)
            h.assume(f_not(f_rc('==', a(p, p) - 1)))
            h.raises('ValueError when a diagonal entry is not 1', ValueError, call, h, L)
        v.unit('%s: diagonal different from 1' % fn, body)
        def body(h, call=call):
            n = h.int('n', 1); L = h.mp('L', n, n)
            p, q = wrong(h, n)
            h.assume(f_lt(p, q))
            h.assume(f_not(f_rc('==', a(p, q))))
            h.raises('ValueError when an entry above the diagonal is not 0', ValueError, call, h, L)
        v.unit('%s: not lower triangular' % fn, body)
        def body(h, call=call):
            n, m = h.int('n', 1), h.int('m', 1); L = h.mp('L', n, m)
            h.assume(f_not(f_same(n, m)))
            h.raises('ValueError when the matrix is not square', ValueError, call, h, L)
        v.unit('%s: not square' % fn, body)
