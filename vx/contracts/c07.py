"""C07: simulation of a multiple precision state-space system"""
from vx.contract import *
from vx.contracts.c06 import sysmp, at

ASSUME = ['the recurrence is proved sample by sample (induction over the time); an input of at least one sample']

def units(v):
    A, B, C, D = [at(x) for x in ('A1', 'B1', 'C1', 'D1')]
    r = IP.sym('r?')
    def spec(h, n, q, x0, rounded=False):
        """the states: x(0) = x0, x(t+1) = A x(t) + B u(t)"""
        t, i = IP.sym('t$'), IP.sym('i$')
        X = lambda tt, ii: GE.atom('X', tt, ii)
        step = (A(i, r) * X(t - 1, r)).sum('r?', 0, n) + (B(i, r) * GE.atom('u', r, t - 1)).sum('r?', 0, q)
        if rounded: step = GE.atom('rd53', step.light())
        nm = h.recurrence('X', ('i$',), x0(i), step)
        return lambda tt, ii: GE.atom(nm, tt, ii)
    def prep(h, ku, kx):
        n, p, q, T = [h.int(x, 1) for x in ('n', 'p', 'q', 'T')]
        S, M = sysmp(h, '1', n, p, q)
        u = h.mp('u', q, T) if ku == 'mp' else h.mat('u', q, T)
        x0 = None if kx is None else h.mp('x0', n, 1) if kx == 'mp' else h.mat('x0', n, 1)
        return n, p, q, T, S, u, x0
    for ku in ('mp', 'np'):
        for kx in (None, 'mp', 'np'):
            for exact in (None, True, False):
                if exact is True and (ku, kx) != ('mp', 'mp'): continue
                def body(h, ku=ku, kx=kx, exact=exact):
                    n, p, q, T, S, u, x0 = prep(h, ku, kx)
                    X = spec(h, n, q, (lambda i: GE0) if kx is None else (lambda i: GE.atom('x0', i, 0)), exact is False)
                    kw = {} if exact is None else dict(exact=exact)
                    if x0 is not None: kw['x0'] = x0
                    y = S.simulate(u, **kw)
                    rng = lambda i: [f_lt(i, n)]
                    for nm in list(h.c.rules.defs):
                        ps = h.c.rules.defs[nm][0]
                        if nm in X(IP0, IP0).names(): continue
                        if len(ps) == 3: h.same_sequence(nm, lambda t, i, j: X(t, i), ps, lambda i, j: [f_lt(i, n), f_eq(j)], T)
                        elif len(ps) == 2: h.same_sequence(nm, X, ps, rng, T)
                    h.matrix_is('y(k) = C x(k) + D u(k)', y, p, T, lambda i, k: (C(i, r) * X(k, r)).sum('r?', 0, n) + (D(i, r) * GE.atom('u', r, k)).sum('r?', 0, q))
                    h.entries('the input is not changed', u, at('u'))
                    if x0 is not None: h.entries('the initial state is not changed', x0, at('x0'))
                    for nm in 'ABCD': h.entries('the system is not changed', getattr(S, nm), at(nm + '1'))
                v.unit('simulate(u: %s, x0: %s%s)' % (ku, kx, '' if exact is None else ', exact=%s' % exact), body)
    for ex in (True, False):
        for ku in ('mp', 'np'):
            def body(h, ku=ku, ex=ex):
                n, p, q, T = [h.int(x, 1) for x in ('n', 'p', 'q', 'T')]
                S, M = sysmp(h, '1', n, p, q)
                q2 = h.int('q2', 1)
                h.assume(f_not(f_same(q, q2)))
                h.raises('ValueError', ValueError, S.simulate, h.mp('u', q2, T) if ku == 'mp' else h.mat('u', q2, T), ex)
            v.unit('simulate(u: %s, exact=%s): wrong number of inputs' % (ku, ex), body)
            def body(h, ku=ku, ex=ex):
                n, p, q, T = [h.int(x, 1) for x in ('n', 'p', 'q', 'T')]
                S, M = sysmp(h, '1', n, p, q)
                n2, m2 = h.int('n2', 1), h.int('m2', 1)
                h.assume(f_or(f_not(f_same(n, n2)), f_not(f_same(m2, 1))))
                h.raises('ValueError', ValueError, S.simulate, h.mp('u', q, T), ex, h.mp('x0', n2, m2) if ku == 'mp' else h.mat('x0', n2, m2))
            v.unit('simulate(x0: %s, exact=%s): wrong size of the initial state' % (ku, ex), body)
    for bad in (3, 'x', [[1.0]]):
        def body(h, bad=bad):
            n, p, q, T, S, u, x0 = prep(h, 'mp', None)
            h.raises('ValueError', ValueError, S.simulate, bad)
            h.raises('ValueError', ValueError, S.simulate, u, True, bad)
        v.unit('simulate: %r is refused' % (bad,), body)
