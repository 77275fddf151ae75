"""C11: state-space systems: dimensions and compositions"""
from vx.contract import *
from vx.contracts.lti import *

ASSUME = ['machine arithmetic is treated as real arithmetic']
SZ = lambda n, p, q: (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))
def system(h, s, n, p, q, tag='matrix'):
    L = h.load('fixif.LTI')
    return L.dSS(*[h.mat(x + s, r, c, tag) for x, r, c in SZ(n, p, q)])
def ABCD(s): return [at(x + s) for x in 'ABCD']
def same_system(h, name, S, s):
    for nm in 'ABCD': h.entries('%s: %s' % (name, nm), getattr(S, nm), at(nm + s))
def steps(M, x, u, n, q):
    """(next state, output) of the system M = (A, B, C, D) (entry functions) with the state x (n) and the input u (q)"""
    A, B, C, D = M
    r = IP.sym('r?')
    o = lambda X, Y: lambda i: (X(i, r) * x(r)).sum('r?', 0, n) + (Y(i, r) * u(r)).sum('r?', 0, q)
    return o(A, B), o(C, D)
def follows(h, name, R, n, p, q, x, u, xp, y):
    """with the state x (n entries) and the input u (q entries), the system R goes to the state xp and has the output y"""
    for nm, r, c in SZ(n, p, q): h.shape('%s: size of %s' % (name, nm), getattr(R, nm), r, c)
    X, Y = steps([getattr(R, nm).entry for nm in 'ABCD'], x, u, n, q)
    def th(f, g, m):
        i = IP.sym(fresh('i'))
        return lambda: ge_zero(f(i) - g(i), h.c.all() + [f_ge(i), f_lt(i, m)], h.c.rules)
    h.c.oblige(name + ': output', th(Y, y, p))
    h.c.oblige(name + ': next state', th(X, xp, n))

def units(v):
    for tag in ('matrix', 'array'):
        def body(h, tag=tag):
            n, p, q = [h.int(x, 1) for x in ('n', 'p', 'q')]
            M = [h.mat(x, r, c, tag) for x, r, c in SZ(n, p, q)]
            S = h.load('fixif.LTI').dSS(*M)
            for a, b, nm in ((S.n, n, 'n'), (S.p, p, 'p'), (S.q, q, 'q')): h.ensure('%s is the dimension' % nm, f_same(IP.of(a), IP.of(b)))
            z = S.size
            h.ensure('size is (n, p, q)', len(z) == 3 and f_and(*[f_same(IP.of(a), IP.of(b)) for a, b in zip(z, (n, p, q))]))
            for (nm, r, c), X in zip(SZ(n, p, q), M):
                h.matrix_is('%s is the given one' % nm, getattr(S, nm), r, c, at(nm))
                h.entries('the argument is not changed', X, at(nm))
        v.unit('dSS(%s)' % tag, body)
    for which in ('A', 'B', 'C', 'Dp', 'Dq', 'any'):
        def body(h, which=which):
            an, am, bn, bq, cp, cn, dp, dq = d = [h.int(x, 1) for x in ('an', 'am', 'bn', 'bq', 'cp', 'cn', 'dp', 'dq')]
            ok = dict(A=f_same(an, am), B=f_same(bn, an), C=f_same(cn, an), Dp=f_same(dp, cp), Dq=f_same(dq, bq))
            if which == 'any': h.assume(f_not(f_and(*ok.values())))
            else:
                for k, f in ok.items(): h.assume(f_not(f) if k == which else f)
            h.raises('ValueError', ValueError, h.load('fixif.LTI').dSS, h.mat('A', an, am), h.mat('B', bn, bq), h.mat('C', cp, cn), h.mat('D', dp, dq))
        v.unit('dSS: inconsistent sizes are refused (%s)' % which, body)
    x1, x2, u = [(lambda nm: lambda i: GE.atom(nm, i))(nm) for nm in ('x1', 'x2', 'u')]
    for op, sg in (('+', 1), ('-', -1)):
        for same in (False, True):
            def body(h, sg=sg, same=same):
                n1, p, q = [h.int(x, 1) for x in ('n1', 'p', 'q')]
                n2 = n1 if same else h.int('n2', 1)
                S1 = system(h, '1', n1, p, q); S2 = S1 if same else system(h, '2', n2, p, q)
                R = S1 + S2 if sg > 0 else S1 - S2
                n1, n2, p, q = map(IP.of, (n1, n2, p, q))
                h.ensure('the result is a dSS', isinstance(R, h.load('fixif.LTI').dSS))
                x = lambda i: x1(i).guard(f_lt(i, n1)) + x2(i - n1).guard(f_le(n1, i))
                X1, Y1 = steps(ABCD('1'), x1, u, n1, q); X2, Y2 = steps(ABCD('1' if same else '2'), x2, u, n2, q)
                follows(h, 'parallel connection', R, n1 + n2, p, q, x, u, lambda i: X1(i).guard(f_lt(i, n1)) + X2(i - n1).guard(f_le(n1, i)), lambda i: Y1(i) + Y2(i).scale(sg))
                same_system(h, 'operand not changed', S1, '1')
                if not same: same_system(h, 'operand not changed', S2, '2')
            v.unit('dSS %s %s' % (op, 'itself' if same else 'dSS'), body)
        def body(h, sg=sg):
            n1, n2, p, q, p2, q2 = [h.int(x, 1) for x in ('n1', 'n2', 'p', 'q', 'p2', 'q2')]
            h.assume(f_or(f_not(f_same(p, p2)), f_not(f_same(q, q2))))
            S1, S2 = system(h, '1', n1, p, q), system(h, '2', n2, p2, q2)
            h.raises('ValueError', ValueError, (lambda: S1 + S2) if sg > 0 else (lambda: S1 - S2))
        v.unit('dSS %s dSS: other numbers of inputs or outputs are refused' % op, body)
    for same in (False, True):
        def body(h, same=same):
            # S1 * S2: the input goes to S2, the output of S2 is the input of S1
            n1, p1, m, q2 = [h.int(x, 1) for x in ('n1', 'p1', 'm', 'q2')]
            n2 = h.int('n2', 1)
            if same: n2, p1, q2 = n1, m, m
            S1 = system(h, '1', n1, p1, m); S2 = S1 if same else system(h, '2', n2, m, q2)
            R = S1 * S2
            n1, n2, p1, m, q2 = map(IP.of, (n1, n2, p1, m, q2))
            h.ensure('the result is a dSS', isinstance(R, h.load('fixif.LTI').dSS))
            x = lambda i: x1(i).guard(f_lt(i, n1)) + x2(i - n1).guard(f_le(n1, i))
            A, B, C, D = ABCD('1' if same else '2')
            # distinct bound variables for the inner system
            w = IP.sym('w?')
            in2 = lambda X, Y: lambda i: (X(i, w) * x2(w)).sum('w?', 0, n2) + (Y(i, w) * u(w)).sum('w?', 0, q2)
            X2, Y2 = in2(A, B), in2(C, D)
            X1, Y1 = steps(ABCD('1'), x1, Y2, n1, m)
            follows(h, 'series connection', R, n1 + n2, p1, q2, x, u, lambda i: X1(i).guard(f_lt(i, n1)) + X2(i - n1).guard(f_le(n1, i)), Y1)
            same_system(h, 'operand not changed', S1, '1')
            if not same: same_system(h, 'operand not changed', S2, '2')
        v.unit('dSS * %s' % ('itself' if same else 'dSS'), body)
    def body(h):
        n1, p1, q1, n2, p2, q2 = [h.int(x, 1) for x in ('n1', 'p1', 'q1', 'n2', 'p2', 'q2')]
        h.assume(f_not(f_same(q1, p2)))
        S1, S2 = system(h, '1', n1, p1, q1), system(h, '2', n2, p2, q2)
        h.raises('ValueError', ValueError, lambda: S1 * S2)
    v.unit('dSS * dSS: incompatible systems are refused', body)
    for kind in ('int,int', 'slice,slice', 'int,slice', 'slice,int', ':,int', 'int,:', ':,:'):
        def body(h, kind=kind):
            n, p, q = [h.int(x, 1) for x in ('n', 'p', 'q')]
            S = system(h, '', n, p, q)
            def sel(k, nm, m):
                if k == 'int':
                    i = h.int(nm, 0); h.assume(f_lt(i, m)); return i, IP.of(i), IP1
                if k == ':': return slice(None), IP0, IP.of(m)
                a, b = h.int(nm + 'a', 0), h.int(nm + 'b', 1); h.assume(f_lt(a, b)); h.assume(f_le(b, m))
                return slice(a, b), IP.of(a), IP.of(b) - IP.of(a)
            kp, kq = kind.split(',')
            i, i0, pp = sel(kp, 'i', p); j, j0, qq = sel(kq, 'j', q)
            R = S[i, j]
            h.ensure('the result is a dSS', isinstance(R, h.load('fixif.LTI').dSS))
            h.ensure('size of the result', f_and(f_same(IP.of(R.n), n), f_same(IP.of(R.p), pp), f_same(IP.of(R.q), qq)))
            A, B, C, D = ABCD('')
            h.matrix_is('the states are the same', R.A, n, n, A)
            h.matrix_is('the selected inputs', R.B, n, qq, lambda a, b: B(a, b + j0))
            h.matrix_is('the selected outputs', R.C, pp, n, lambda a, b: C(a + i0, b))
            h.matrix_is('the selected inputs and outputs', R.D, pp, qq, lambda a, b: D(a + i0, b + j0))
            same_system(h, 'the system is not changed', S, '')
        v.unit('dSS[%s]' % kind, body)
