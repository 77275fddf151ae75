"""C04: products of multiple precision polynomials"""
from vx.contract import *

TRUSTED = ['mpmath.nsum over a finite interval is the sum of the terms (rounded)']
ASSUME = ['the coefficients are compared in exact arithmetic: the roundings to the working precision are taken as the identity (real numbers)']

def product_of(h, name, fac):
    """coefficient i of the product of the factors (z + fac(0)) ... (z + fac(t-1)), as a ghost sequence (t, i -> GE)"""
    t, i = IP.sym('t$'), IP.sym('i$')
    nm = h.recurrence(name, ('i$',), GE1.guard(f_eq(i)), GE.atom(name, t - 1, i).guard(f_le(i, t - 1)) + fac(t - 1) * GE.atom(name, t - 1, i - 1).guard(f_and(f_le(1, i), f_le(i, t))))
    return lambda t, i: GE.atom(nm, t, i)
def identify_products(h, P, n, J=None):
    """lemma: the polynomials built by the loops are the products of the first factors"""
    known = [nm for nm in h.c.rules.defs if len(h.c.rules.defs[nm][0]) == 3]
    for nm in known:
        params = h.c.rules.defs[nm][0]
        # (number of factors after iteration t, last iteration)
        cand = [(lambda t: ((t + 1, T),), None), (lambda t: ((t, T),), None)]
        if J is not None: cand = [(lambda t: ((t, f_le(t, J)), (t - 1, f_lt(J, t))), None)] + cand
        if J is not None and not J.isconst: cand = [(lambda t: ((t + 1, T),), J - 1), (lambda t: ((t + J, T),), n - J - 1), (lambda t: ((t + 1, f_lt(t, J)), (t, f_le(J, t))), None)] + cand
        lasts = [n - 1, n - 2] + ([J - 1, n - J - 1] if J is not None and not J.isconst else [])
        cand += [(f, l) for f, l0 in cand for l in lasts if l0 is None]
        for f, last in cand:
            def spec(t, i, k, f=f):
                r = GE0
                for u, g in f(t): r = r + P(u, i).guard(f_and(g, f_eq(k), f_ge(i), f_le(i, u)))
                return r
            if h.same_sequence(nm, spec, params, last=last): break

def units(v):
    P = 'fixif.func_aux'
    p = lambda i: GE.atom('p', i, IP0)
    q = lambda i: GE.atom('q', i, IP0)
    def body(h):
        h.c.memo['real parts'] = True
        m, n = h.int('m', 1), h.int('n', 1)
        A, B = h.mp('p', m, 1), h.mp('q', n, 1)
        C = h.load(P).mpf_poly_mult(A, B)
        m, n = IP.of(m), IP.of(n)
        conv = lambda k: (p('s?') * q(k - IP.sym('s?'))).guard(f_and(f_lt('s?', m), f_ge(k - IP.sym('s?')), f_lt(k - IP.sym('s?'), n))).sum('s?', 0, k + 1)
        h.matrix_is('coefficients of the product', C, m + n - 1, 1, lambda i, j: conv(i))
        h.entries('the polynomials are not changed', A, lambda i, j: GE.atom('p', i, j))
        h.entries('the polynomials are not changed', B, lambda i, j: GE.atom('q', i, j))
    v.unit('mpf_poly_mult', body)
    def body(h):
        h.c.memo['real parts'] = True
        n = h.int('n', 1)
        A = h.mp('p', n, 1)
        C = h.load(P).mpf_poly_mult(A, A)
        n = IP.of(n)
        conv = lambda k: (p('s?') * p(k - IP.sym('s?'))).guard(f_and(f_lt('s?', n), f_ge(k - IP.sym('s?')), f_lt(k - IP.sym('s?'), n))).sum('s?', 0, k + 1)
        h.matrix_is('coefficients of the square', C, n * 2 - 1, 1, lambda i, j: conv(i))
    v.unit('mpf_poly_mult: square', body)
    for bad in (3, None, [1, 2]):
        def body(h, bad=bad):
            A = h.mp('p', h.int('m', 1), 1)
            h.raises('ValueError', ValueError, h.load(P).mpf_poly_mult, A, bad)
            h.raises('ValueError', ValueError, h.load(P).mpf_poly_mult, bad, A)
        v.unit('mpf_poly_mult refuses %r' % (bad,), body)
    for d in (0,):
        def body(h, d=d): h.raises('ValueError', ValueError, h.load(P).mp_poly_product, [h.real('p%d' % i, 'mpf') for i in range(d)])
        v.unit('mp_poly_product of %d coefficients is refused' % d, body)
    # lists of any length
    for case in (None, -1, 0, 'j'):
        for ek in ('mpf', 'mpc'):
            def body(h, case=case, ek=ek):
                h.c.memo['real parts'] = True
                n = h.int('n', 1)
                N = IP.of(n)
                e = lambda k: GE.atom('e', k)
                ps = SList(N, lambda k: SReal(e(k), ek))
                f = h.load(P).mp_poly_product
                if case in (None, -1):
                    C = f(ps) if case is None else f(ps, case)
                    fac, deg, J = e, N, None
                else:
                    j = h.int('j', 1) if case == 'j' else 0
                    h.assume(f_lt(IP.of(j), N))
                    C = f(ps, j)
                    J, deg = IP.of(j), N - 1
                    fac = lambda k: e(k).guard(f_lt(k, J)) + e(k + 1).guard(f_le(J, k))
                Pl = product_of(h, 'Pol', fac)
                identify_products(h, Pl, N, J)
                h.shape('degree: one factor per index', C, deg + 1, 1)
                h.entries('coefficients of the product', C, lambda i, _: Pl(deg, i))
                k = h.int('k', 0)
                h.assume(f_lt(IP.of(k), N))
                h.ensure('the list is not changed', f_same(IP.of(ps.st.n), N))
                h.zero('the list is not changed', sym.to_real(ps[k]).ge - e(IP.of(k)))
            v.unit('mp_poly_product of n %s coefficients, j=%s' % ('real' if ek == 'mpf' else 'complex', case), body)
    for d in (1, 2, 3):
        for j in [None, -1] + list(range(d)):
            def body(h, d=d, j=j):
                h.c.memo['real parts'] = True
                ps = [h.real('p%d' % i, 'mpf') for i in range(d)]
                f = h.load(P).mp_poly_product
                C = f(ps) if j is None else f(ps, j)
                keep = [x.ge for i, x in enumerate(ps) if i != j]
                c = [GE1]
                for x in keep:
                    c = [(c[k] if k < len(c) else GE0) + (c[k - 1] * x if k else GE0) for k in range(len(c) + 1)]
                h.shape('degree: one factor per index', C, len(keep) + 1, 1)
                for k in range(len(keep) + 1): h.zero('coefficient %d' % k, C.entry(k) - c[k])
                h.ensure('the list is not changed', all(x is y for x, y in zip(ps, [h.real('p%d' % i, 'mpf') for i in range(d)])) or len(ps) == d)
            v.unit('mp_poly_product of %d coefficients, j=%s' % (d, j), body)
