"""C06: exact sum and difference of multiple precision state-space systems"""
from vx.contract import *

TRUSTED = []

def sysmp(h, s, n, p, q, kind='mp'):
    L = h.load('fixif.LTI')
    f = h.mp if kind == 'mp' else h.mat
    M = [f(x + s, r, c) for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))]
    return (L.dSSmp if kind != 'dSS' else L.dSS)(*M), M

def at(nm):
    return lambda i, j: GE.atom(nm, i, j)

def units(v):
    A1, B1, C1, D1, A2, B2, C2, D2 = [at(x) for x in ('A1', 'B1', 'C1', 'D1', 'A2', 'B2', 'C2', 'D2')]
    for op, sg in (('+', 1), ('-', -1)):
        for k1, k2 in (('mp', 'mp'), ('np', 'mp'), ('mp', 'np'), ('mp', 'dSS')):
            def body(h, sg=sg, k1=k1, k2=k2):
                n1, n2, p, q = [h.int(x, 1) for x in ('n1', 'n2', 'p', 'q')]
                S1, M1 = sysmp(h, '1', n1, p, q, k1); S2, M2 = sysmp(h, '2', n2, p, q, k2)
                R = S1 + S2 if sg > 0 else S1 - S2
                h.ensure('the result is a dSSmp', isinstance(R, h.load('fixif.LTI').dSSmp))
                n1, n2 = IP.of(n1), IP.of(n2)
                lo = lambda i: f_lt(i, n1)
                hi = lambda i: f_le(n1, i)
                h.matrix_is('A: block diagonal', R.A, n1 + n2, n1 + n2, lambda i, j: A1(i, j).guard(f_and(lo(i), lo(j))) + A2(i - n1, j - n1).guard(f_and(hi(i), hi(j))))
                h.matrix_is('B: stacked', R.B, n1 + n2, q, lambda i, j: B1(i, j).guard(lo(i)) + B2(i - n1, j).guard(hi(i)))
                h.matrix_is('C: side by side', R.C, p, n1 + n2, lambda i, j: C1(i, j).guard(lo(j)) + C2(i, j - n1).scale(sg).guard(hi(j)))
                h.matrix_is('D: exact sum or difference', R.D, p, q, lambda i, j: D1(i, j) + D2(i, j).scale(sg))
                # one step of the parallel connection: with x = (x1, x2), the outputs add up and the states stay (x1+, x2+)
                r = IP.sym('r?')
                x = lambda i: GE.atom('x1', i).guard(lo(i)) + GE.atom('x2', i - n1).guard(hi(i))
                u = lambda i: GE.atom('u', i)
                def out(C, D, xx, n): return lambda i: (C(i, 'r?') * xx(r)).sum('r?', 0, n) + (D(i, 'r?') * u(r)).sum('r?', 0, q)
                y = out(R.C.entry, R.D.entry, x, n1 + n2)
                y1 = out(C1, D1, lambda i: GE.atom('x1', i), n1); y2 = out(C2, D2, lambda i: GE.atom('x2', i), n2)
                i = IP.sym('i0')
                h.assume(f_ge(i)); h.assume(f_lt(i, p))
                h.zero('output of the parallel connection', y(i) - y1(i) - y2(i).scale(sg))
                k = IP.sym('k0')
                h.assume(f_ge(k)); h.assume(f_lt(k, n1 + n2))
                xp = out(R.A.entry, R.B.entry, x, n1 + n2)
                x1 = out(A1, B1, lambda i: GE.atom('x1', i), n1); x2 = out(A2, B2, lambda i: GE.atom('x2', i), n2)
                h.zero('states of the parallel connection', xp(k) - x1(k).guard(lo(k)) - x2(k - n1).guard(hi(k)))
                for s, S in (('1', S1), ('2', S2)):
                    for nm in 'ABCD': h.entries('operand %s is not changed' % s, getattr(S, nm), at(nm + s))
            v.unit('dSSmp(%s) %s %s' % (k1, op, k2), body)
        def body(h, sg=sg):
            n1, n2, p, q, p2, q2 = [h.int(x, 1) for x in ('n1', 'n2', 'p', 'q', 'p2', 'q2')]
            h.assume(f_or(f_not(f_same(p, p2)), f_not(f_same(q, q2))))
            S1, _ = sysmp(h, '1', n1, p, q); S2, _ = sysmp(h, '2', n2, p2, q2)
            h.raises('ValueError', ValueError, (lambda: S1 + S2) if sg > 0 else (lambda: S1 - S2))
        v.unit('dSSmp %s dSSmp with other numbers of inputs or outputs' % op, body)
        for bad in (3, None):
            def body(h, sg=sg, bad=bad):
                S1, _ = sysmp(h, '1', h.int('n1', 1), h.int('p', 1), h.int('q', 1))
                h.raises('ValueError', ValueError, (lambda: S1 + bad) if sg > 0 else (lambda: S1 - bad))
            v.unit('dSSmp %s %r is refused' % (op, bad), body)
    for kind in ('mp', 'np'):
        def body(h, kind=kind):
            n, p, q = [h.int(x, 1) for x in ('n', 'p', 'q')]
            S, M = sysmp(h, '1', n, p, q, kind)
            for a, b in ((S.n, n), (S.p, p), (S.q, q)): h.ensure('order and numbers of inputs and outputs', f_same(a, b))
            for nm, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q)):
                h.matrix_is('%s is the given matrix' % nm, getattr(S, nm), r, c, at(nm + '1'))
                h.ensure('%s is in multiple precision' % nm, getattr(S, nm).tag == 'mp')
        v.unit('dSSmp: construction (%s)' % kind, body)
    def body(h):
        d = [h.int(x, 1) for x in ('an', 'am', 'bn', 'bq', 'cp', 'cn', 'dp', 'dq')]
        an, am, bn, bq, cp, cn, dp, dq = d
        h.assume(f_not(f_and(f_same(an, am), f_same(bn, an), f_same(cn, an), f_same(dp, cp), f_same(dq, bq))))
        L = h.load('fixif.LTI')
        h.raises('ValueError', ValueError, L.dSSmp, h.mp('A', an, am), h.mp('B', bn, bq), h.mp('C', cp, cn), h.mp('D', dp, dq))
    v.unit('dSSmp: inconsistent sizes are refused', body)
    for k in range(4):
        for bad in (2.0, None, [[1.0]]):
            def body(h, k=k, bad=bad):
                n, p, q = [h.int(x, 1) for x in ('n', 'p', 'q')]
                M = [h.mp(x, r, c) for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q))]
                M[k] = bad
                h.raises('ValueError', ValueError, h.load('fixif.LTI').dSSmp, *M)
            v.unit('dSSmp: %s = %r is refused' % ('ABCD'[k], bad), body)
