"""C23: descriptions of a filter"""
import itertools
from vx.contract import *
from vx.contracts.lti import *
from vx.contracts.c04 import product_of
from vx.contracts.c09 import tf
from vx.contracts.c11 import SZ, system, same_system
from vx.contracts.sifs import sizes, blocks
from vx.contracts.c18 import names as generate_names
from vx.mat import dbl
from vx.libs import MODS

ASSUME = ['dSSmp.to_dTFmp: the state matrix has n independent eigenvectors, and the coefficients of its characteristic polynomial, real, are kept by .real',
          'machine arithmetic is treated as real arithmetic', 'the conversion to a double keeps a double']
TRUSTED = ['scipy.signal.tf2ss returns the controller canonical form of num/den, and scipy.signal.ss2tf the transfer function of (A, B, C, D) with a monic denominator of degree n (documented contracts)',
           'mpmath.mp.eig returns the eigenvalues and a matrix of eigenvectors (documented contract)',
           'scipy.signal.butter and ellip return the numerator and the denominator of a stable filter']

def queries(h, F, what):
    """the values of the queries which do not depend on the previous ones"""
    return F.name, F.isStable(), F.p, F.q, F.order, bool(F.isSISO()), F.isButter(), repr(F)
def is_tf(h, what, T, n, num, den):
    h.ensure(what + ': a dTF', isinstance(T, h.load('fixif.LTI').dTF))
    h.matrix_is(what + ': numerator', T.num, 1, n + 1, lambda i, j: num(j))
    h.matrix_is(what + ': denominator', T.den, 1, n + 1, lambda i, j: den(j))
def from_ss(h, what, T, M, n):
    """T is the transfer function of the system of matrices M (entry functions)"""
    def th():
        why = 'the transfer function is not the one of the system'
        for rec, nm in h.c.memo.get('ss2tf', ()):
            i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
            w = True
            for X, f, (r, c_) in zip(rec, M, ((n, n), (n, 1), (1, n), (1, 1))):
                if not h.c.entails(f_and(f_same(X.rows_, r), f_same(X.cols_, c_))): w = 'sizes'
                if w is True: w = ge_zero(X.entry(i, j) - f(i, j), h.c.all() + [f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c_)], h.c.rules)
            if w is not True: why = w; continue
            if not h.c.entails(f_and(*[f_and(f_same(X.rows_, 1), f_same(X.cols_, IP.of(n) + 1)) for X in (T.num, T.den)])): return 'sizes of the transfer function'
            g = h.c.all() + [f_ge(j), f_le(j, n)]
            w = ge_zero(T.num.entry(IP0, j) - GE.atom(nm + 'n', IP0, j), g, h.c.rules)
            if w is True: w = ge_zero(T.den.entry(IP0, j) - (GE1.guard(f_eq(j)) + GE.atom(nm + 'd', j).guard(f_le(1, j))), g, h.c.rules)
            if w is True: return True
            why = w
        return why
    h.ensure(what + ': a dTF', isinstance(T, h.load('fixif.LTI').dTF))
    h.c.oblige(what + ': the transfer function of the system', th)
def const(h, what, F, vals, n, p, q, siso):
    nm, st, fp, fq, o, s, bt, rp = queries(h, F, what)
    h.ensure(what + ': name', nm == vals[0] and rp == vals[0])
    h.ensure(what + ': stable as told', st is vals[1])
    h.ensure(what + ': p, q', f_and(f_same(IP.of(fp), p), f_same(IP.of(fq), q)))
    h.ensure(what + ': order', f_same(IP.of(o), n))
    h.ensure(what + ': SISO', s == siso)
    h.ensure(what + ': not a Butterworth filter', bt is False)

def modal(h):
    """dSSmp.to_dTFmp on a matrix with a full set of eigenvectors (A = V diag(e) W, W the inverse of V), exact arithmetic"""
    h.c.memo['real parts'] = True
    n = h.int('n', 1)
    N = IP.of(n)
    e, V, W, B, C, D = (lambda k: GE.atom('e', k)), at('V'), at('W'), (lambda i: GE.atom('B', i, IP0)), (lambda j: GE.atom('C', IP0, j)), GE.atom('D', IP0, IP0)
    h.c.rules.inv.append(('V', 'W', N))
    m, r, s = IP.sym('m?'), IP.sym('r?'), IP.sym('s?')
    A = lambda i, j: (V(i, m) * e(m) * W(m, j)).sum('m?', 0, N)
    # Pol(t): product of the t first (1 - e z^-1); Wo(t, k): product of t of the t + 1 first, without the one of index k
    Pol = product_of(h, 'Pol', lambda k: -e(k))
    t, q, i = IP.sym('t$'), IP.sym('m$'), IP.sym('i$')
    prev = lambda t, k, i: GE.atom('Wo', t, k, i)
    wo = h.recurrence('Wo', ('m$', 'i$'), GE1.guard(f_eq(i)), prev(t - 1, q, i).guard(f_le(i, t - 1)) - (e(t - 1).guard(f_lt(t - 1, q)) + e(t).guard(f_le(q, t - 1))) * prev(t - 1, q, i - 1).guard(f_and(f_le(1, i), f_le(i, t))))
    Wo = lambda t, m, i: GE.atom(wo, t, m, i)
    pol = lambda i: GE1.guard(f_eq(i)) + Pol(N, i).guard(f_le(1, i))
    def eig(X):
        h.matrix_is('the eigenvalues are the ones of A', X, N, N, A)
        return SList(N, lambda k: SReal(e(k), 'mpc')), SMat.atoms('V', N, N, 'mp', 'mpc')
    def product(p, j=-1):
        """contract of mp_poly_product (C04)"""
        if not isinstance(p, SList) or not is_int(j): return NotImplemented
        k = IP.sym(fresh('k'))
        if not h.c.entails(f_same(p.st.n, N)) or ge_zero(to_real(p.st.fn(k)).ge + e(k), h.c.all() + [f_ge(k), f_lt(k, N)], h.c.rules) is not True: return NotImplemented
        if isinstance(j, int) and j == -1: return SMat.gen(N + 1, IP1, lambda i, _: pol(i), 'mp', 'mpc')
        J = IP.of(j)
        if not h.c.entails(f_and(f_ge(J), f_lt(J, N))): return NotImplemented
        return SMat.gen(N, IP1, lambda i, _: Wo(N - 1, J, i), 'mp', 'mpc')
    L = h.load('fixif.LTI')
    h.c.memo['eig'] = eig
    h.c.contracts['fixif.func_aux.mp_poly_product.mp_poly_product'] = product
    S = L.dSSmp(SMat.gen(N, N, A, 'mp', 'mpf'), h.mp('B', n, 1), h.mp('C', 1, n), h.mp('D', 1, 1))
    old = MODS['mpmath'].mp.prec
    T = S.to_dTFmp()
    h.ensure('a dTFmp', isinstance(T, L.dTFmp))
    h.eq('the working precision is kept', MODS['mpmath'].mp.prec, old)
    c = lambda m: (C(r) * V(r, m)).sum('r?', 0, N)
    b = lambda m: (W(m, r) * B(r)).sum('r?', 0, N)
    num = lambda i: D * pol(i) + (c(m) * b(m) * Wo(N - 1, m, i - 1)).sum('m?', 0, N).guard(f_le(1, i))
    h.matrix_is('denominator: the product of the 1 - e z^-1', T.den, N + 1, 1, lambda i, _: GE.atom('re', pol(i).light()).guard(f_le(1, i)) + GE1.guard(f_eq(i)))
    h.matrix_is('numerator: D times the denominator and the sum of the modes', T.num, N + 1, 1, lambda i, _: GE.atom('re', num(i).light()))
    # what these two polynomials mean: den = (1 - e(k) z^-1) Wo(k) for every k, and V is a basis of eigenvectors,
    # so num/den = D + sum c(k) b(k) / (z - e(k)) = D + C (zI - A)^-1 B
    k, i, j = h.int('k', 0), h.int('i', 0), h.int('j', 0)
    h.assume(f_and(f_lt(IP.of(k), N), f_lt(IP.of(i), N), f_lt(IP.of(j), N)))
    k, i, j = IP.of(k), IP.of(i), IP.of(j)
    known = list(h.c.gamma)
    h.ensure('lemma: the product begins with 1', h.same_sequence('Pol', lambda t, i: GE1, ('t', 'i'), rng=lambda i: [f_eq(i)]))
    h.c.gamma = known
    ahead = lambda t, i: Wo(t, k, i).guard(f_and(f_le(t, k), f_le(i, t))) + (Wo(t - 1, k, i).guard(f_le(i, t - 1)) - e(k) * Wo(t - 1, k, i - 1).guard(f_and(f_le(1, i), f_le(i, t)))).guard(f_lt(k, t))
    h.ensure('lemma: the denominator is (1 - e z^-1) times the other factors', h.same_sequence('Pol', ahead, ('t', 'i'), split=lambda t: f_same(t, k)))
    h.eq('lemma: eigenvectors', SReal((A(i, r) * V(r, k)).sum('r?', 0, N)), SReal(e(k) * V(i, k)))
    h.eq('lemma: a basis', SReal((V(i, m) * b(m)).sum('m?', 0, N)), SReal(B(i)))

ORDERS = [''.join(x) for k in (1, 2, 3) for x in itertools.product('ST', repeat=k)]
def units(v):
    LTI = 'fixif.LTI'
    # ---- from a transfer function
    for kind in ('tf', 'num, den'):
        for order in ORDERS:
            def body(h, kind=kind, order=order):
                T, m, num, den = tf(h, '', h.int('n', 1))
                n = m - 1
                Filter = h.load(LTI).Filter
                if kind == 'tf':
                    F, vals = Filter(tf=T, name='NAME', stable=True), ('NAME', True)
                else:
                    B, A = h.mat('b', 1, m), monic(h, 'a', m)
                    F, vals = Filter(B, A), ('noname', False)
                const(h, 'before the queries', F, vals, n, 1, 1, True)
                got = {}
                for k, o in enumerate(order):
                    x = F.dSS if o == 'S' else F.dTF
                    if o in got: h.ensure('converted once', x is got[o]); continue
                    got[o] = x
                    if o == 'T':
                        if kind == 'tf': h.ensure('the transfer function given', x is T)
                        is_tf(h, 'dTF', x, n, num, den)
                    else:
                        h.ensure('a dSS', isinstance(x, h.load(LTI).dSS))
                        h.ensure('dSS: sizes', f_and(f_same(IP.of(x.n), n), f_same(x.p, 1), f_same(x.q, 1)))
                        realizes(h, 'dSS', x, n, num, den)
                    const(h, 'after query %d' % k, F, vals, n, 1, 1, True)
            v.unit('Filter(%s), queries %s' % (kind, order), body)
    # ---- from a state-space
    for kind in ('ss', 'A, B, C, D'):
        for order in ORDERS:
            def body(h, kind=kind, order=order):
                n = h.int('n', 1)
                Filter = h.load(LTI).Filter
                if kind == 'ss':
                    S = system(h, '', n, 1, 1)
                    F, vals = Filter(ss=S, name='NAME', stable=False), ('NAME', False)
                else:
                    F, vals = Filter(**{x: h.mat(x, r, c) for x, r, c in SZ(n, 1, 1)}, stable=True), ('noname', True)
                const(h, 'before the queries', F, vals, n, 1, 1, True)
                got = {}
                for k, o in enumerate(order):
                    x = F.dSS if o == 'S' else F.dTF
                    if o in got: h.ensure('converted once', x is got[o]); continue
                    got[o] = x
                    if o == 'S':
                        if kind == 'ss': h.ensure('the system given', x is S)
                        h.ensure('a dSS', isinstance(x, h.load(LTI).dSS))
                        for nm, r, c in SZ(n, 1, 1): h.matrix_is('dSS: %s' % nm, getattr(x, nm), r, c, at(nm))
                    else: from_ss(h, 'dTF', x, [at(nm) for nm in 'ABCD'], n)
                    const(h, 'after query %d' % k, F, vals, n, 1, 1, True)
            v.unit('Filter(%s), queries %s' % (kind, order), body)
    for kind in ('ss', 'A, B, C, D'):
        for what in ('outputs', 'inputs'):
            def body(h, kind=kind, what=what):
                n, p, q = h.int('n', 1), h.int('p', 2 if what == 'outputs' else 1), h.int('q', 2 if what == 'inputs' else 1)
                Filter = h.load(LTI).Filter
                F = Filter(ss=system(h, '', n, p, q)) if kind == 'ss' else Filter(**{x: h.mat(x, r, c) for x, r, c in SZ(n, p, q)})
                const(h, 'before the queries', F, ('noname', False), n, p, q, False)
                h.raises('dTF: ValueError', ValueError, lambda: F.dTF)
                for nm, r, c in SZ(n, p, q): h.matrix_is('dSS: %s' % nm, getattr(F.dSS, nm), r, c, at(nm))
                h.raises('dTF: ValueError', ValueError, lambda: F.dTF)
                const(h, 'after the queries', F, ('noname', False), n, p, q, False)
            v.unit('Filter(%s), several %s' % (kind, what), body)
    # ---- incomplete descriptions
    names = ('num', 'den', 'A', 'B', 'C', 'D')
    for k in range(len(names)):
        for sub in itertools.combinations(names, k):
            if {'num', 'den'} <= set(sub) or set('ABCD') <= set(sub): continue
            def body(h, sub=sub):
                n = h.int('n', 1)
                M = dict(num=h.mat('b', 1, n + 1), den=monic(h, 'a', n + 1), **{x: h.mat(x, r, c) for x, r, c in SZ(n, 1, 1)})
                h.raises('ValueError', ValueError, h.load(LTI).Filter, **{x: M[x] for x in sub})
            v.unit('Filter(%s) is refused' % ', '.join(sub), body)
    # ---- designed filters
    for cls, fn, args in (('Butter', 'butter', (3, 0.25, 'low')), ('Elliptic', 'ellip', (4, 0.1, 40, (0.2, 0.3), 'bandpass'))):
        def body(h, cls=cls, fn=fn, args=args):
            LT = h.load(LTI)
            m = h.load(LTI + '.' + cls)
            n = h.int('n', 1)
            seen = []
            def design(*a, **k):
                seen.append(a + tuple(k.values()))
                f = lambda nm: (lambda i, j: GE.atom(nm, i))
                return SMat.gen(n + 1, IP1, f('b'), 'array', 'float', 1), SMat.gen(IP.of(n) + 1, IP1, lambda i, j: GE1.guard(f_eq(i)) + GE.atom('a', i).guard(f_le(1, i)), 'array', 'float', 1)
            import sys as _s
            g = getattr(LT, cls)
            md = h.ver.loader.mods[g.__module__]
            setattr(md, fn, design)
            F = g(*args)
            h.ensure('designed with the arguments given, in order', len(seen) == 1 and seen[0] == args)
            N = IP.of(n)
            is_tf(h, 'dTF', F.dTF, N, lambda j: GE.atom('b', j), monic_entry('a', N + 1))
            realizes(h, 'dSS', F.dSS, N, lambda j: GE.atom('b', j).guard(f_and(f_ge(j), f_le(j, N))), monic_entry('a', N + 1))
            h.ensure('stable', F.isStable() is True)
            h.ensure('a Butterworth filter', F.isButter() is (cls == 'Butter'))
            h.ensure('a filter', isinstance(F, LT.Filter))
            h.ensure('name', F.name == {'Butter': 'Butterworth', 'Elliptic': 'Elliptic'}[cls] and g(*args, name='NAME').name == 'NAME')
        v.unit(cls, body)
    # ---- changes of precision, and implicit forms
    def body(h):
        T, m, num, den = tf(h, '', h.int('n', 1))
        P = T.to_dTFmp()
        h.ensure('a dTFmp', isinstance(P, h.load(LTI).dTFmp))
        h.matrix_is('to_dTFmp: numerator', P.num, m, 1, lambda i, j: num(i))
        h.matrix_is('to_dTFmp: denominator', P.den, m, 1, lambda i, j: den(i))
        R = P.to_dTF()
        is_tf(h, 'to_dTFmp, to_dTF', R, m - 1, lambda j: dbl(num(j)), lambda j: dbl(den(j)))
        is_tf(h, 'not changed', T, m - 1, num, den)
    v.unit('dTF.to_dTFmp, dTFmp.to_dTF', body)
    def body(h):
        n, p, q = [h.int(x, 1) for x in ('n', 'p', 'q')]
        S = system(h, '', n, p, q)
        P = S.to_dSSmp()
        h.ensure('a dSSmp', isinstance(P, h.load(LTI).dSSmp))
        for nm, r, c in SZ(n, p, q): h.matrix_is('to_dSSmp: %s' % nm, getattr(P, nm), r, c, at(nm))
        R = P.to_dSS()
        h.ensure('a dSS', isinstance(R, h.load(LTI).dSS))
        for nm, r, c in SZ(n, p, q): h.matrix_is('to_dSSmp, to_dSS: %s' % nm, getattr(R, nm), r, c, lambda i, j, nm=nm: dbl(at(nm)(i, j)))
        same_system(h, 'not changed', S, '')
    v.unit('dSS.to_dSSmp, dSSmp.to_dSS', body)
    def body(h):
        n, p, q = h.int('n', 1), h.int('p', 1), h.int('q', 1)
        h.assume(f_not(f_and(f_same(p, 1), f_same(q, 1))))
        S = system(h, '', n, p, q)
        h.raises('ValueError', ValueError, S.to_dTF)
    v.unit('dSS.to_dTF: several inputs or outputs are refused', body)
    def body(h):
        n, p, q = h.int('n', 1), h.int('p', 1), h.int('q', 1)
        h.assume(f_not(f_and(f_same(p, 1), f_same(q, 1))))
        S = h.load(LTI).dSSmp(*[h.mp(x, r, c) for x, r, c in SZ(n, p, q)])
        old = MODS['mpmath'].mp.prec
        h.raises('ValueError', ValueError, S.to_dTFmp)
        h.eq('the working precision is kept', MODS['mpmath'].mp.prec, old)
    v.unit('dSSmp.to_dTFmp', modal)
    v.unit('dSSmp.to_dTFmp: several inputs or outputs are refused', body)
    for what in ('SIF', 'Realization'):
        def body(h, what=what):
            generate_names(h)
            n = h.int('n', 1)
            C = getattr(h.load('fixif.SIF'), what)
            B = {x: h.mat(x, r, c) for x, (r, c) in dict(P=(n, n), Q=(n, 1), R=(1, n), S=(1, 1)).items()}
            z = lambda r, c: SMat.gen(IP.of(r), IP.of(c), lambda i, j: GE0, 'matrix', 'float')
            J = (z(0, 0), z(n, 0), z(1, 0), z(0, n), z(0, 1), B['P'], B['Q'], B['R'], B['S'])
            R = C(J) if what == 'SIF' else C(None, J)
            M = [at(x) for x in 'PQRS']
            from_ss(h, 'to_dTF', R.to_dTF(), M, n)
            if what == 'Realization':
                F = R.filter
                h.ensure('the filter of the realization', isinstance(F, h.load(LTI).Filter))
                for nm, s, (r, c) in zip('ABCD', 'PQRS', ((n, n), (n, 1), (1, n), (1, 1))): h.matrix_is('filter: %s' % nm, getattr(F.dSS, nm), r, c, at(s))
                from_ss(h, 'filter: dTF', F.dTF, M, n)
        v.unit('%s.to_dTF' % what, body)
