"""C28: simplification, comparison and export of systems"""
from itertools import combinations, product
from vx.contract import *
from vx.contracts.lti import *
from vx.contracts.c11 import SZ, system, ABCD
from vx.contracts.c09 import tf
from vx.contracts.c03 import man_exp
from vx.contracts.sifs import NAMES, dims, sizes, blocks
from vx.libs import MODS
from vx.sym import SReal

TRUSTED = ['numpy.linalg.matrix_rank returns an integer between 0 and the size of the matrix (nothing more is used)',
           'sollya numbers are exact; sollya.horner returns the same polynomial, written in another way',
           'numpy.linalg.norm is the square root of the sum of the squares']
ASSUME = ['machine arithmetic is treated as real arithmetic']
BOUNDED = [('simplify', 'systems with at most 3 states (4 in the thorough mode), any number of inputs and outputs')]

def units(v):
    nmax = 4 if v.tier == 'thorough' else 3
    for n in range(1, nmax + 1):
        def body(h, n=n):
            p, q = IP.of(h.int('p', 1)), IP.of(h.int('q', 1))
            S = system(h, '1', n, p, q)
            h.c.memo['unroll while'] = n + 1
            R = S.simplify()
            h.ensure('a dSS', isinstance(R, h.load('fixif.LTI').dSS))
            m = IP.of(R.n)
            h.ensure('a number of states', m.isconst and 1 <= m.value <= n)
            if not m.isconst: return
            m = m.value
            for nm, r, c in SZ(m, p, q): h.shape('size of %s' % nm, getattr(R, nm), r, c)
            h.entries('D', R.D, at('D1'))
            def markov(A, B, C, n):
                X = [[C(IP.sym('a0'), IP.of(i)) for i in range(n)]]
                out = []
                for k in range(2 * nmax):
                    out.append(sum((X[-1][i] * B(IP.of(i), IP.sym('b0')) for i in range(n)), GE0))
                    X.append([sum((X[-1][i] * A(IP.of(i), IP.of(j)) for i in range(n)), GE0) for j in range(n)])
                return out
            g = [f_ge('a0'), f_lt('a0', p), f_ge('b0'), f_lt('b0', q)]
            a, b, c, d = ABCD('1')
            M1, M2 = markov(a, b, c, n), markov(R.A.entry, R.B.entry, R.C.entry, m)
            for k in range(n + m):
                h.c.oblige('impulse response at time %d: C A^%d B' % (k + 1, k), lambda k=k: ge_zero(M1[k] - M2[k], h.c.all() + g, h.c.rules))
            for nm in 'ABCD' if n < 3 else '': h.entries('the system is not changed', getattr(S, nm), at(nm + '1'))
        v.unit('dSS.simplify, %d states' % n, body)
    # weights of the coefficients
    def sif(h, s=''):
        l, n, p, q = [IP.of(x) for x in sizes(h)]
        B = blocks(h, s, l, n, p, q)
        W = [h.mat('d' + x + s, *dims(l, n, p, q)[x]) for x in NAMES]
        return h.load('fixif.SIF').SIF(tuple(B), tuple(W)), (l, n, p, q)
    def corner(x, l, n, p, q):
        r = {'J': IP0, 'M': IP0, 'N': IP0, 'K': l, 'P': l, 'Q': l, 'L': l + n, 'R': l + n, 'S': l + n}[x]
        c = {'J': IP0, 'K': IP0, 'L': IP0, 'M': l, 'P': l, 'R': l, 'N': l + n, 'Q': l + n, 'S': l + n}[x]
        return r, c
    def body(h):
        S, (l, n, p, q) = sif(h)
        d = dims(l, n, p, q)
        h.shape('size of dZ', S.dZ, l + n + p, l + n + q)
        for x, Y in zip(NAMES, S.dJtodS): h.matrix_is('d%s, in dJtodS' % x, Y, *d[x], at('d' + x))
        for x in NAMES:
            h.matrix_is('d' + x, getattr(S, 'd' + x), *d[x], at('d' + x))
            r, c = corner(x, l, n, p, q)
            h.entries('dZ, block of d%s' % x, S.dZ[mk_int(r): mk_int(r + d[x][0]), mk_int(c): mk_int(c + d[x][1])], at('d' + x))
    v.unit('SIF: dJ..dS are the blocks of dZ', body)
    for x in NAMES:
        def body(h, x=x):
            S, (l, n, p, q) = sif(h)
            d = dims(l, n, p, q)
            setattr(S, 'd' + x, h.mat('new', *d[x]))
            for y in NAMES: h.matrix_is('d%s after d%s is set' % (y, x), getattr(S, 'd' + y), *d[y], at('new' if y == x else 'd' + y))
            for y in NAMES: h.entries('%s is not changed' % y, getattr(S, y), at(y))
        v.unit('SIF.d%s = ...' % x, body)
    def body(h):
        S, (l, n, p, q) = sif(h)
        S.dZ = h.mat('new', l + n + p, l + n + q)
        for x in NAMES:
            r, c = corner(x, l, n, p, q)
            h.matrix_is('d%s after dZ is set' % x, getattr(S, 'd' + x), *dims(l, n, p, q)[x], lambda i, j, r=r, c=c: GE.atom('new', i + r, j + c))
    v.unit('SIF.dZ = ...', body)
    # comparison of transfer functions, of state-spaces: the norms of the expected matrices get names
    def norms(h, mod, *known):
        """known: (name, rows, columns, entry function); the norm of such a matrix (or of its opposite) is the real `name`"""
        m = h.ver.loader.mods[mod]
        old = m.norm
        for nm, r, c, f in known: h.assume(f_rc('>=', GE.atom(nm)))
        def norm(X, *a, **k):
            if a or k or not isinstance(X, SMat): return old(X, *a, **k)
            for nm, r, c, f in known:
                i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
                g = h.c.all()
                if not entails(g, f_and(f_same(X.rows_, r), f_same(X.cols_, c))): continue
                g += [f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c)]
                x = X.entry(i, j)
                if ge_zero(x - f(i, j), g, h.c.rules) is True or ge_zero(x + f(i, j), g, h.c.rules) is True:
                    return SReal(GE.atom(nm))
            return old(X)
        m.norm = norm
        return lambda: setattr(m, 'norm', old)
    def verdict(h, f, eps, *names):
        try: f(); r = True
        except AssertionError: r = False
        ok = f_and(*[f_rc('>', eps - GE.atom(x)) for x in names])
        h.ensure('accepted' if r else 'refused', ok if r else f_not(ok))
    for rel in ('same orders', 'first larger', 'second larger'):
        for given in (True, False):
            def body(h, rel=rel, given=given):
                T1, m1, a1, b1 = tf(h, '1')
                T2, m2, a2, b2 = tf(h, '2')
                h.assume(f_same(m1, m2) if rel == 'same orders' else f_lt(m2, m1) if rel == 'first larger' else f_lt(m1, m2))
                m = m1 if rel != 'second larger' else m2
                done = norms(h, 'fixif.LTI.dTF', ('Nnum', IP1, m, lambda i, j: a1(j) - a2(j)), ('Nden', IP1, m, lambda i, j: b1(j) - b2(j)))
                try: verdict(h, (lambda: T1.assert_close(T2, h.real('eps'))) if given else (lambda: T1.assert_close(T2)), GE.atom('eps') if given else GE.const(Fraction(1e-7)), 'Nnum', 'Nden')
                finally: done()
            v.unit('dTF.assert_close, %s%s' % (rel, '' if given else ', default tolerance'), body)
    for same in (False, True):
        for given in (True, False):
            def body(h, same=same, given=given):
                p, q = h.int('p', 1), h.int('q', 1)
                n1 = h.int('n1', 1); n2 = n1 if same else h.int('n2', 1)
                S1, S2 = system(h, '1', n1, p, q), system(h, '2', n2, p, q)
                r, s, t = IP.sym('r?'), IP.sym('s?'), IP.sym('t?')
                (A1, B1, C1, D1), (A2, B2, C2, D2) = ABCD('1'), ABCD('2')
                mk = [lambda A, B, C, D, n: lambda i, j: D(i, j), lambda A, B, C, D, n: lambda i, j: (C(i, r) * B(r, j)).sum('r?', 0, n),
                      lambda A, B, C, D, n: lambda i, j: (C(i, r) * A(r, s) * B(s, j)).sum('s?', 0, n).sum('r?', 0, n),
                      lambda A, B, C, D, n: lambda i, j: (C(i, r) * A(r, s) * A(s, t) * B(t, j)).sum('t?', 0, n).sum('s?', 0, n).sum('r?', 0, n)]
                ks = [('N%d' % k, IP.of(p), IP.of(q), lambda i, j, f=f: f(A1, B1, C1, D1, IP.of(n1))(i, j) - f(A2, B2, C2, D2, IP.of(n2))(i, j)) for k, f in enumerate(mk)]
                done = norms(h, 'fixif.LTI.dSS', *ks)
                try: verdict(h, (lambda: S1.assert_close(S2, h.real('eps'))) if given else (lambda: S1.assert_close(S2)), GE.atom('eps') if given else GE.const(Fraction(1e-5)), *[k[0] for k in ks])
                finally: done()
            v.unit('dSS.assert_close%s%s' % (', same sizes' if same else '', '' if given else ', default tolerance'), body)
    # sollya polynomials
    class X(SReal):
        """the variable of sollya"""
        def __pow__(self, e):
            if isinstance(e, int) and e in (0, 1): return SReal(GE1 if e == 0 else GE.atom('xpow', IP1), 'sollya')
            return SReal(GE.atom('xpow', IP.of(e)), 'sollya')
    def sol(h):
        s = MODS['sollya']
        s._x_ = X(GE.atom('xpow', IP1), 'sollya')
        s.horner = lambda p: p
    def is_poly(h, name, P, f, m):
        """P = sum of f(k) x^k, 0 <= k < m (x^0 being written or not)"""
        k = IP.sym('k?')
        h.ensure(name + ': a sollya object', isinstance(P, libs.SollyaObject_t))
        def th():
            w = ge_zero(P.ge - (f(k) * GE.atom('xpow', k)).sum('k?', 0, m), h.c.all(), h.c.rules)
            if w is True: return w
            return True if ge_zero(P.ge - f(IP0) - (f(k) * GE.atom('xpow', k)).sum('k?', 1, m), h.c.all(), h.c.rules) is True else w
        h.c.oblige(name + ': the coefficient of x^i is the coefficient i', th)
    for mp in (False, True):
        def body(h, mp=mp):
            sol(h)
            if mp:
                man_exp(h.c.rules)
                nb, na = h.int('nb', 1), h.int('na', 1)
                T = h.load('fixif.LTI').dTFmp(h.mp('b', nb, 1), monic(h, 'a', na, 'mp'))
                m = IP.of(T.num.rows)
                a, b = (lambda i: T.num.entry(i, IP0)), (lambda i: T.den.entry(i, IP0))
            else: T, m, a, b = tf(h, '1')
            n1, d1 = T.to_Sollya()
            is_poly(h, 'numerator', n1, a, m)
            is_poly(h, 'denominator', d1, b, m)
            n2, d2 = T.to_Sollya()
            h.ensure('the same polynomials when asked again', n2 is n1 and d2 is d1)
        v.unit('%s.to_Sollya' % ('dTFmp' if mp else 'dTF'), body)
    # worst case peak gains
    def body(h):
        n, p, q = [h.int(x, 1) for x in ('n', 'p', 'q')]
        S = system(h, '1', n, p, q)
        m = h.ver.loader.mods['fixif.LTI.dSS']
        seen, old = [], m.WCPG_ABCD
        def wcpg(A, B, C, D, info=None):
            seen.append(info)
            for nm, X, r, c in zip('ABCD', (A, B, C, D), (n, n, p, p), (n, q, n, q)): h.matrix_is('WCPG of %s' % nm, X, r, c, at(nm + '1'))
            if info is not None: info['N'] = 3
            return h.mat('W%d' % len(seen), p, q)
        m.WCPG_ABCD = wcpg
        try:
            W = S.WCPG()
            h.matrix_is('the result of the library', W, p, q, at('W1'))
            h.ensure('not computed again', S.WCPG() is W and len(seen) == 1)
            d = {}
            W = S.WCPG(d)
            h.ensure('the information asked for is given', len(seen) == 2 and d == {'N': 3})
            h.matrix_is('the result of the library', W, p, q, at('W2'))
            h.ensure('kept', S.WCPG() is W and len(seen) == 2)
            R = system(h, '1', n, p, q)
            R.WCPG(d)
            h.ensure('one computation for each system', len(seen) == 3)
        finally: m.WCPG_ABCD = old
    v.unit('dSS.WCPG', body)
    def body(h):
        T, m1, a, b = tf(h, '1')
        m = h.ver.loader.mods['fixif.LTI.dTF']
        seen, old = [], m.WCPG_TF
        def wcpg(num, den):
            seen.append(1)
            for nm, X, f in (('numerator', num, a), ('denominator', den, b)): h.matrix_is('WCPG of the ' + nm, X, 1, m1, lambda i, j, f=f: f(j))
            return h.real('W%d' % len(seen))
        m.WCPG_TF = wcpg
        try:
            W = T.WCPG()
            h.eq('the result of the library', W, h.real('W1'))
            h.ensure('not computed again', T.WCPG() is W and len(seen) == 1)
        finally: m.WCPG_TF = old
    v.unit('dTF.WCPG', body)
