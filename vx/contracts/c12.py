"""C12: change of basis, gramians, H2 norm and DC gain of a state-space system, over histories of queries and changes of basis"""
from itertools import combinations
from vx.contract import *
from vx.contracts.lti import *
from vx.contracts.c11 import SZ, system

TRUSTED = ['numpy.linalg.inv returns the inverse, scipy.linalg.solve_discrete_lyapunov a solution of its equation (slycot is not installed)',
           'a Lyapunov equation has at most one solution (so the H2 norm computed before a change of basis is the one computed after it)']
ASSUME = ['machine arithmetic is treated as real arithmetic', 'the matrices to invert are invertible']

def units(v):
    Q = ('Wo', 'Wc', 'H2norm', 'DC_gain')
    def query(S, what):
        return S.Wo if what == 'Wo' else S.Wc if what == 'Wc' else S.H2norm() if what == 'H2norm' else S.calc_DC_gain()
    def invertible(h, T, Ti, n):
        h.c.rules.inv.append((T, Ti, n))
    def check(h, S, what, M, hist, n, p, q):
        """M: current (A, B, C, D) entry functions; hist: the former ones, with the gramians of these bases"""
        A, B, C, D = M
        r, s = IP.sym('r?'), IP.sym('s?')
        if what == 'Wo': h.lyapunov('Wo: A^T Wo A + C^T C = Wo', S.Wo, n, lambda i, j: A(j, i), lambda i, j: (C('t?', i) * C('t?', j)).sum('t?', 0, p))
        elif what == 'Wc': h.lyapunov('Wc: A Wc A^T + B B^T = Wc', S.Wc, n, A, lambda i, j: (B(i, 't?') * B(j, 't?')).sum('t?', 0, q))
        elif what == 'H2norm':
            def specs():
                for (A, B, C, D), Wo, Wc in hist + [(M, S.Wo, S.Wc)]:
                    if Wc is not None: yield (C('t?', r) * Wc.entry(r, s) * C('t?', s)).sum('s?', 0, n).sum('r?', 0, n).sum('t?', 0, p) + (D('t?', r) * D('t?', r)).sum('r?', 0, q).sum('t?', 0, p)
                    if Wo is not None: yield (B(r, 't?') * Wo.entry(r, s) * B(s, 't?')).sum('s?', 0, n).sum('r?', 0, n).sum('t?', 0, q) + (D('t?', r) * D('t?', r)).sum('r?', 0, q).sum('t?', 0, p)
            x = S.H2norm()
            h.root_of('H2norm^2 = tr(C Wc C^T + D D^T)', x, *specs())
        else:
            G = S.calc_DC_gain()
            h.shape('DC gain: size', G, p, q)
            def th():
                i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
                g = h.c.all() + [f_ge(i), f_lt(i, p), f_ge(j), f_lt(j, q)]
                why = 'no inverse'
                for (A, B, C, D), _, _ in [(M, 0, 0)] + hist:
                    X = libs.mat_inv(SMat.gen(n, n, lambda i, j: GE1.guard(f_same(i, j)) - A(i, j)))
                    why = ge_zero(G.entry(i, j) - (C(i, r) * X.entry(r, s) * B(s, j)).sum('s?', 0, n).sum('r?', 0, n) - D(i, j), g, h.c.rules)
                    if why is True: return True
                return why
            h.c.oblige('DC gain = C inv(I - A) B + D', th)
    def basis(h, S, M, T, n, p, q, tag='matrix'):
        """change of basis, with an arbitrary invertible matrix; the new (A, B, C, D)"""
        A, B, C, D = M
        invertible(h, T, T + 'i', n)
        t = at(T)
        X = h.mat(T, n, n, tag)
        S.similarity(X)
        N = [getattr(S, x).entry for x in 'ABCD']
        for nm, r, c in SZ(n, p, q): h.shape('similarity: size of %s' % nm, getattr(S, nm), r, c)
        k = IP.sym('k?')
        pr = lambda X, Y: lambda i, j: (X(i, k) * Y(k, j)).sum('k?', 0, n)
        def eq(name, f, g, r, c):
            def th():
                i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
                return ge_zero(f(i, j) - g(i, j), h.c.all() + [f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c)], h.c.rules)
            h.c.oblige(name, th)
        eq('T A\' = A T', pr(t, N[0]), pr(A, t), n, n)
        eq('T B\' = B', pr(t, N[1]), B, n, q)
        eq('C\' = C T', N[2], pr(C, t), p, n)
        eq('D\' = D', N[3], D, p, q)
        h.entries('T is not changed', X, t)
        h.ensure('the dimensions are the same', f_and(f_same(IP.of(S.n), n), f_same(IP.of(S.p), p), f_same(IP.of(S.q), q)))
        # the new coefficients are named
        return N
    for tag in ('matrix', 'array'):
        def body(h, tag=tag):
            n, p, q = [IP.of(h.int(x, 1)) for x in ('n', 'p', 'q')]
            S = system(h, '', n, p, q)
            basis(h, S, [at(x) for x in 'ABCD'], 'T', n, p, q, tag)
            h.lyapunov
        v.unit('similarity(%s)' % tag, body)
    def body(h):
        n, p, q = [IP.of(h.int(x, 1)) for x in ('n', 'p', 'q')]
        S = system(h, '', n, p, q)
        M = basis(h, S, [at(x) for x in 'ABCD'], 'T', n, p, q)
        basis(h, S, M, 'U', n, p, q)
    v.unit('two changes of basis', body)
    subsets = [c for k in range(5) for c in combinations(Q, k)]
    for before in subsets:
        for rev in ((False, True) if len(before) > 1 else (False,)):
            def body(h, before=before, rev=rev):
                n, p, q = [IP.of(h.int(x, 1)) for x in ('n', 'p', 'q')]
                S = system(h, '', n, p, q)
                M = [at(x) for x in 'ABCD']
                hist = []
                for w in (reversed(before) if rev else before):
                    query(S, w)
                    check(h, S, w, M, hist, n, p, q)
                for nm, f in zip('ABCD', M): h.entries('the queries do not change %s' % nm, getattr(S, nm), f)
                hist = [(M, S.Wo if 'Wo' in before or 'H2norm' in before else None, S.Wc if 'Wc' in before or 'H2norm' in before else None)]
                # arbitrary new coefficients, with names of their own
                invertible(h, 'T', 'Ti', n)
                S.similarity(h.mat('T', n, n))
                M = [getattr(S, x).entry for x in 'ABCD']
                for w in Q: check(h, S, w, M, hist, n, p, q)
                for nm, f in zip('ABCD', M): h.entries('the queries do not change %s' % nm, getattr(S, nm), f)
            v.unit('history: %s, change of basis, all the queries' % (', '.join(reversed(before) if rev else before) or 'nothing'), body)
    for m in ('linalg', 'slycot', None):
        def body(h, m=m):
            n, p, q = [IP.of(h.int(x, 1)) for x in ('n', 'p', 'q')]
            S = system(h, '', n, p, q)
            M = [at(x) for x in 'ABCD']
            S.calc_Wo(m); S.calc_Wc(m)
            for w in ('Wo', 'Wc'): check(h, S, w, M, [], n, p, q)
        v.unit('calc_Wo, calc_Wc (%s)' % m, body)
    def body(h):
        n, p, q = [IP.of(h.int(x, 1)) for x in ('n', 'p', 'q')]
        S = system(h, '', n, p, q)
        h.raises('ValueError', ValueError, S.calc_Wo, 'foo'); h.raises('ValueError', ValueError, S.calc_Wc, 'foo')
    v.unit('unknown method', body)
