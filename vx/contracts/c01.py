"""C01: exact sums, differences and products of matrices"""
from vx.contract import *

def units(v):
    P = 'fixif.func_aux.'
    def pair(kindA, kindB, same=True, prod=False):
        def mk(h):
            m, n = h.int('m', 1), h.int('n', 1)
            A = h.mp('A', m, n) if kindA == 'mp' else h.mat('A', m, n)
            if prod:
                p = h.int('p', 1)
                B = h.mp('B', n, p) if kindB == 'mp' else h.mat('B', n, p)
                return m, n, p, A, B
            B = h.mp('B', m, n) if kindB == 'mp' else h.mat('B', m, n)
            return m, n, n, A, B
        return mk
    a = lambda i, j: GE.atom('A', i, j)
    b = lambda i, j: GE.atom('B', i, j)
    for op, sg in (('mpf_matrix_fadd', 1), ('mpf_matrix_fsub', -1)):
        for ka in ('mp', 'np'):
            for kb in ('mp', 'np'):
                def body(h, op=op, sg=sg, ka=ka, kb=kb):
                    m, n, _, A, B = pair(ka, kb)(h)
                    f = getattr(h.load('fixif.func_aux'), op)
                    C = f(A, B)
                    h.matrix_is('each entry is the exact %s' % ('sum' if sg > 0 else 'difference'), C, m, n, lambda i, j: a(i, j) + b(i, j).scale(sg))
                    h.entries('the operands are not changed (A)', A, a)
                    h.entries('the operands are not changed (B)', B, b)
                v.unit('%s(%s, %s)' % (op, ka, kb), body)
    for ka in ('mp', 'np'):
        for kb in ('mp', 'np'):
            def body(h, ka=ka, kb=kb):
                m, n, p, A, B = pair(ka, kb, prod=True)(h)
                C = h.load('fixif.func_aux').mpf_matrix_fmul(A, B)
                h.matrix_is('each entry is the exact inner product', C, m, p, lambda i, j: (a(i, 'q?') * b('q?', j)).sum('q?', 0, n))
                h.entries('the operands are not changed (A)', A, a)
                h.entries('the operands are not changed (B)', B, b)
            v.unit('mpf_matrix_fmul(%s, %s)' % (ka, kb), body)
    for op in ('mpf_matrix_fadd', 'mpf_matrix_fsub', 'mpf_matrix_fmul'):
        def body(h, op=op):
            m, n, m2, n2 = [h.int(x, 1) for x in ('m', 'n', 'm2', 'n2')]
            A = h.mp('A', m, n); B = h.mp('B', m2, n2)
            if op == 'mpf_matrix_fmul': h.assume(f_not(f_same(n, m2)))
            else: h.assume(f_or(f_not(f_same(m, m2)), f_not(f_same(n, n2))))
            h.raises('ValueError on incompatible sizes', ValueError, getattr(h.load('fixif.func_aux'), op), A, B)
        v.unit('%s on incompatible sizes' % op, body)
        for bad in (3, [[1]], None):
            def body(h, op=op, bad=bad):
                A = h.mp('A', h.int('m', 1), h.int('n', 1))
                f = getattr(h.load('fixif.func_aux'), op)
                h.raises('ValueError on an unsupported operand', ValueError, f, A, bad)
                h.raises('ValueError on an unsupported operand', ValueError, f, bad, A)
            v.unit('%s on %r' % (op, bad), body)
    for op, sg in (('add_exact', 1), ('sub_exact', -1), ('mul_exact', 0)):
        for ka in ('mp', 'np'):
            def body(h, op=op, sg=sg, ka=ka):
                m, n, p, A, B = pair(ka, 'mp', prod=not sg)(h)
                M = h.load('fixif.func_aux').MPFMatrix
                X, Y = M(A), M(B)
                Z = getattr(X, op)(Y)
                h.ensure('result is a MPFMatrix', isinstance(Z, M))
                if sg: h.matrix_is('exact entries', Z._M, m, n, lambda i, j: a(i, j) + b(i, j).scale(sg))
                else: h.matrix_is('exact entries', Z._M, m, p, lambda i, j: (a(i, 'q?') * b('q?', j)).sum('q?', 0, n))
                h.entries('the operands are not changed', X._M, a)
                h.entries('the operands are not changed', Y._M, b)
                h.entries('the matrices given to the constructor are not changed', A, a)
            v.unit('MPFMatrix.%s(%s)' % (op, ka), body)
        def body(h, op=op, sg=sg):
            m, n, m2, n2 = [h.int(x, 1) for x in ('m', 'n', 'm2', 'n2')]
            M = h.load('fixif.func_aux').MPFMatrix
            if not sg: h.assume(f_not(f_same(n, m2)))
            else: h.assume(f_or(f_not(f_same(m, m2)), f_not(f_same(n, n2))))
            X, Y = M(h.mp('A', m, n)), M(h.mp('B', m2, n2))
            h.raises('ValueError on incompatible sizes', ValueError, getattr(X, op), Y)
        v.unit('MPFMatrix.%s on incompatible sizes' % op, body)
