"""C03: conversions of multiple precision numbers and matrices"""
from vx.contract import *
from vx import libs
from vx.mat import dbl

TRUSTED = ['mpf._mpf_ is (sign, mantissa, exponent, bits) with value (-1)^sign mantissa 2^exponent', 'sollya numbers are exact; round(x, 53, RN) followed by float() is the rounding to double']
BOUNDED = [('special value', 'matrices up to 2x2')]

def man_exp(rules):
    """man(x) * 2^exp(x) = |x|"""
    def f(t, gamma):
        for i, a in enumerate(t.at):
            if a.name != 'man': continue
            e = GE.atom('exp', *a.args)
            for j, b in enumerate(t.at):
                if b.name == 'pow2' and b.args[0] == e:
                    others = [x for k, x in enumerate(t.at) if k not in (i, j)]
                    g = a.args[0]
                    return list((GE((Term(t.c, t.bv, t.g, others),)) * ite(f_rc('>=', g), g, -g)).terms)
        return None
    rules.custom.append(f)

def units(v):
    P = 'fixif.func_aux'
    a = lambda i, j: GE.atom('A', i, j)
    def special(h, k): return SReal(GE.atom('fp:' + k), 'mpf')
    def body(h):
        man_exp(h.c.rules)
        x = h.real('x', 'mpf')
        y, n = h.load(P).mpf_get_representation(x)
        h.ensure('y and n are integers', interp.sint._check(y) and interp.sint._check(n))
        h.zero('x = y * 2^n', to_real(y).ge * pow2(to_real(n).ge) - x.ge)
    v.unit('mpf_get_representation(mpf)', body)
    for bad in (3, 0.5, 'x', None, (1, 2)):
        def body(h, bad=bad): h.raises('ValueError', ValueError, h.load(P).mpf_get_representation, bad)
        v.unit('mpf_get_representation(%r)' % (bad,), body)
    for k in ('mpc', 'float', 'int'):
        def body(h, k=k): h.raises('ValueError', ValueError, h.load(P).mpf_get_representation, SReal(GE.atom('x'), k))
        v.unit('mpf_get_representation(%s)' % k, body)
    for k in ('inf', '-inf', 'nan'):
        def body(h, k=k): h.raises('ValueError', ValueError, h.load(P).mpf_get_representation, special(h, k))
        v.unit('mpf_get_representation(special value %s)' % k, body)
    # matrices of integers and exponents
    def repr_of(h, R, m, n):
        Y, N = R
        for nm, M in (('Y', Y), ('N', N)): h.shape('size of %s' % nm, M, m, n)
        man_exp(h.c.rules)
        h.entries('A = Y .* 2^N', SMat.gen(m, n, lambda i, j: Y.entry(i, j) * pow2(N.entry(i, j)), 'array'), a)
        h.exact('no rounding', Y.entry(IP.sym('i1'), IP.sym('j1')) + N.entry(IP.sym('i1'), IP.sym('j1')))
    for nm in ('mpf_matrix_get_representation', 'MPFMatrix.get_int_representation'):
        def call(h, A, nm=nm):
            L = h.load(P)
            return L.mpf_matrix_get_representation(A) if nm.startswith('mpf') else L.MPFMatrix(A).get_int_representation()
        def body(h, call=call):
            m, n = h.int('m', 1), h.int('n', 1)
            A = h.mp('A', m, n)
            repr_of(h, call(h, A), m, n)
            h.entries('the matrix is not changed', A, a)
        v.unit(nm, body)
        for (m, n) in ((1, 1), (2, 2)):
            for (p, q) in [(i, j) for i in range(m) for j in range(n)]:
                def body(h, m=m, n=n, p=p, q=q, call=call):
                    A = SMat.gen(m, n, lambda i, j: GE.atom('fp:inf') if (i.value, j.value) == (p, q) else GE.atom('A', i, j), 'mp', 'mpf')
                    h.raises('ValueError', ValueError, call, h, A)
                v.unit('%s: special value at (%d,%d) of %dx%d' % (nm, p, q, m, n), body)
    # double <-> mp
    def body(h):
        m, n = h.int('m', 1), h.int('n', 1)
        A = h.mp('A', m, n)
        M = h.load(P).mpf_to_numpy(A)
        h.ensure('a numpy matrix', isinstance(M, libs.np_matrix))
        h.matrix_is('entries rounded to double', M, m, n, lambda i, j: dbl(a(i, j)))
        h.entries('the matrix is not changed', A, a)
    v.unit('mpf_to_numpy(matrix)', body)
    def body(h):
        x = h.load(P).mpf_to_numpy(h.real('x', 'mpf'))
        h.eq('value rounded to double', x, SReal(dbl(GE.atom('x')), 'float'))
    v.unit('mpf_to_numpy(mpf)', body)
    for bad in ('x', None, 3, [[1]]):
        def body(h, bad=bad): h.raises('ValueError', ValueError, h.load(P).mpf_to_numpy, bad)
        v.unit('mpf_to_numpy(%r)' % (bad,), body)
    def body(h):
        m, n = h.int('m', 1), h.int('n', 1)
        A = h.mat('A', m, n)
        M = h.load(P).python2mpf_matrix(A)
        h.ensure('a mpmath matrix', isinstance(M, libs.mp_matrix))
        h.matrix_is('same entries', M, m, n, a)
        h.ensure('does not share its storage', M.st is not A.st)
        h.entries('the matrix is not changed', A, a)
    v.unit('python2mpf_matrix', body)
    for nm, mk in (('array', lambda h: h.mat('A', 2, 2, 'array')), ('mp', lambda h: h.mp('A', 2, 2)), ('list', lambda h: [[1]]), ('None', lambda h: None)):
        def body(h, mk=mk): h.raises('ValueError', ValueError, h.load(P).python2mpf_matrix, mk(h))
        v.unit('python2mpf_matrix refuses %s' % nm, body)
    # the class
    for kind in ('matrix', 'array', 'mp'):
        def body(h, kind=kind):
            m, n = h.int('m', 1), h.int('n', 1)
            A = h.mp('A', m, n) if kind == 'mp' else h.mat('A', m, n, kind)
            X = h.load(P).MPFMatrix(A)
            h.ensure('a mpmath matrix', isinstance(X._M, libs.mp_matrix))
            h.matrix_is('same entries', X._M, m, n, a)
            h.ensure('does not share its storage', X._M.st is not A.st)
            h.ensure('rows', X.rows == m); h.ensure('cols', X.cols == n)
            h.eq('shape', X.shape, (m, n))
            h.matrix_is('matrix', X.matrix, m, n, a)
            i, j = h.int('i0', 0), h.int('j0', 0)
            h.assume(f_lt(IP.of(i), IP.of(m))); h.assume(f_lt(IP.of(j), IP.of(n)))
            h.eq('X[i,j]', X[i, j], SReal(a(i.ip, j.ip), 'mpf'))
            # changing the matrix does not change the object
            A[0, 0] = A[0, 0] + 1
            h.entries('not affected by a change of the former matrix', X._M, a)
        v.unit('MPFMatrix(%s)' % kind, body)
        def body(h, kind=kind):
            m, n = h.int('m', 1), h.int('n', 1)
            A = h.mp('A', m, n) if kind == 'mp' else h.mat('A', m, n, kind)
            X = h.load(P).MPFMatrix(A)
            M = X.to_numpy()
            h.ensure('a numpy matrix', isinstance(M, libs.np_matrix))
            h.matrix_is('entries rounded to double', M, m, n, lambda i, j: dbl(a(i, j)))
            h.entries('the object is not changed', X._M, a)
        v.unit('MPFMatrix.to_numpy(%s)' % kind, body)
    for bad in (3, 'x', None, [[1]]):
        def body(h, bad=bad): h.raises('ValueError', ValueError, h.load(P).MPFMatrix, bad)
        v.unit('MPFMatrix(%r)' % (bad,), body)
    # sollya
    for nm in ('mpf_matrix_to_sollya', 'MPFMatrix.to_sollya'):
        def body(h, nm=nm):
            man_exp(h.c.rules)
            m, n = h.int('m', 1), h.int('n', 1)
            A = h.mp('A', m, n)
            L = h.load(P)
            S, r, c = L.mpf_matrix_to_sollya(A) if nm[1] == 'p' else L.MPFMatrix(A).to_sollya()
            h.eq('rows', r, m); h.eq('cols', c, n)
            h.ensure('a list', interp.slist._check(S))
            h.eq('m*n numbers', interp.slen(S), mk_int(IP.of(m) * IP.of(n)))
            i, j = IP.sym('i0'), IP.sym('j0')
            for f in (f_ge(i), f_lt(i, m), f_ge(j), f_lt(j, n)): h.assume(f)
            x = S.elem(i * IP.of(n) + j)
            h.ensure('a sollya number', isinstance(x, libs.SollyaObject_t))
            h.zero('S[i*n+j] = A[i,j]', x.ge - a(i, j))
            h.entries('the matrix is not changed', A, a)
        v.unit(nm, body)
    for nm, mk in (('np', lambda h: h.mat('A', 2, 2)), ('list', lambda h: [[1]]), ('complex', lambda h: SMat.atoms('A', IP.of(h.int('m', 1)), IP.of(h.int('n', 1)), 'mp', 'mpc'))):
        def body(h, mk=mk): h.raises('ValueError', ValueError, h.load(P).mpf_matrix_to_sollya, mk(h))
        v.unit('mpf_matrix_to_sollya refuses %s' % nm, body)
    def body(h):
        m, n = h.int('m', 1), h.int('n', 1)
        A = SList(IP.of(m) * IP.of(n), lambda k: SReal(GE.atom('S', k), 'sollya'))
        B = h.load(P).sollya_matrix_to_numpy(A, m, n)
        h.ensure('a numpy matrix', isinstance(B, libs.np_matrix))
        h.matrix_is('entries (row by row) rounded to double', B, m, n, lambda i, j: dbl(GE.atom('S', i * IP.of(n) + j)))
    v.unit('sollya_matrix_to_numpy', body)
    # real part
    def body(h):
        m, n = h.int('m', 1), h.int('n', 1)
        A = SMat.atoms('A', IP.of(m), IP.of(n), 'mp', 'mpc')
        q = h.load(P).mpc_get_real(A)
        h.ensure('a mpmath matrix', isinstance(q, libs.mp_matrix))
        h.matrix_is('real parts', q, m, n, lambda i, j: GE.atom('re', a(i, j)))
    v.unit('mpc_get_real(complex)', body)
    def body(h):
        m, n = h.int('m', 1), h.int('n', 1)
        q = h.load(P).mpc_get_real(h.mp('A', m, n))
        h.matrix_is('same entries', q, m, n, a)
    v.unit('mpc_get_real(real)', body)
