"""C15: coefficient quantization error system of a SIF"""
from vx.contract import *
from vx.contracts.sifs import *

ASSUME = ['machine arithmetic is treated as real arithmetic']
TRUSTED = ['fixif.FxP.Constant (external package, absent): its approximation is an arbitrary function of the constant and of the word-length', 'numpy.linalg.inv returns the inverse']

def fix_contract(h):
    """the callers of convertToFix rely on its contract: one arbitrary value per coefficient, the coefficients -1, 0 and 1 being kept"""
    c = h.c
    def f(**k):
        if len(k) < 2: return NotImplemented
        M, w = list(k.values())[:2]
        if not isinstance(M, SMat): return NotImplemented
        i, j = IP.sym('$i'), IP.sym('$j')
        for x in NAMES:
            if libs._same_entries(M, at(x)(i, j), i, j) == 1: nm = x + 't'; break
        else: return NotImplemented
        if not (isinstance(w, sym.SInt) and IP.of(w) == IP.of(h.w)): return NotImplemented
        return SMat.gen(M.rows_, M.cols_, at(nm), 'matrix', 'float')
    c.contracts['fixif.SIF.SIF_tilde_error.convertToFix'] = f

def units(v):
    for tag in ('matrix', 'array'):
        def body(h, tag=tag):
            l, n, p, q = sizes(h)
            h.w = h.int('w', 2)
            R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q, tag)))
            F = Form.atoms('', l, n, p, q)
            fix_contract(h)
            unit_lower(h, 'Jt', l)
            # inverse of [[J, 0], [Jt - J, Jt]]
            a, b = IP.sym('a?'), IP.sym('b?')
            Ji, Jti, J, Jt = at('Ji'), at('Jti'), at('J'), at('Jt')
            def inverse(i, j):
                lo_i, lo_j = f_lt(i, l), f_lt(j, l)
                low = (Jti(i - l, a) * (J(a, b) - Jt(a, b)) * Ji(b, j)).sum('b?', 0, l).sum('a?', 0, l)
                return Ji(i, j).guard(f_and(lo_i, lo_j)) + low.guard(f_and(f_not(lo_i), lo_j)) + Jti(i - l, j - l).guard(f_and(f_not(lo_i), f_not(lo_j)))
            h.inverse_candidate(l + l, inverse)
            T, E = h.load('fixif.SIF.SIF_tilde_error').SIFH_to_SIFHstar(R, h.w)
            G = Form.atoms('t', l, n, p, q)
            coherent(h, 'the initial realization is not changed', R, F)
            coherent(h, 'quantized realization', T, G)
            e = l + n + p
            # states of the error system: those of the initial realization, then their differences; inputs: u, then one error per signal
            z, g = vec('z'), vec('g')
            x, dx = z, (lambda i: z(i + n))
            u, et, ex, ey = g, (lambda i: g(i + q)), (lambda i: g(i + q + l)), (lambda i: g(i + q + l + n))
            X, Y = F.step(x, u)
            xt = lambda i: x(i) + dx(i)
            k, w = IP.sym('k?'), IP.sym('w?')
            rhs = lambda i: (G.B['M'](i, w) * xt(w)).sum('w?', 0, n) + (G.B['N'](i, w) * u(w)).sum('w?', 0, q) + et(i)
            t = lambda i: (G.Ji(i, k) * rhs(k)).sum('k?', 0, l)
            Xt, Yt = G.step(xt, u, t)
            S = E.dSS
            r, m = n + n, q + e
            for nm, a, b in (('A', r, r), ('B', r, m), ('C', p, r), ('D', p, m)): h.shape('error system: size of %s' % nm, getattr(S, nm), a, b)
            s = IP.sym('v?')
            o = lambda A, B: lambda i: (A.entry(i, s) * z(s)).sum('v?', 0, r) + (B.entry(i, s) * g(s)).sum('v?', 0, m)
            NX, NY = o(S.A, S.B), o(S.C, S.D)
            entries_equal(h, 'the first states follow the initial realization', NX, X, n)
            entries_equal(h, 'the other states follow the difference of the states', (lambda i: NX(i + n)), (lambda i: Xt(i) + ex(i) - X(i)), n)
            entries_equal(h, 'the output is the difference of the outputs', NY, (lambda i: Yt(i) + ey(i) - Y(i)), p)
            d = dict(J=(l + l, l + l), K=(n + n, l + l), L=(p, l + l), M=(l + l, n + n), N=(l + l, m), P=(n + n, n + n), Q=(n + n, m), R=(p, n + n), S=(p, m))
            for y in NAMES: h.shape('error form: size of %s' % y, getattr(E, y), *d[y])
        v.unit('SIFH_to_SIFHstar (%s)' % tag, body)
    def conv(h, r, c):
        w = h.int('w', 2)
        M = h.mat('M', r, c)
        X = h.load('fixif.SIF.SIF_tilde_error').convertToFix(M, w)
        f = at('M')
        def want(i, j):
            e = f(i, j)
            one = lambda k: f_rc('==', e - k)
            keep = f_or(one(-1), one(0), one(1))
            return e.guard(keep) + GE.atom('fix', e, w.ip).guard(f_not(keep))
        h.matrix_is('each coefficient is approximated, except -1, 0 and 1', X, r, c, want)
        h.entries('the matrix is not changed', M, f)
    v.unit('convertToFix', lambda h: conv(h, h.int('r', 1), h.int('c', 1)))
    v.unit('convertToFix (1 row)', lambda h: conv(h, 1, h.int('c', 1)))
    for r, c in ((0, 2), (2, 0), (0, 0)):
        v.unit('convertToFix (%d x %d)' % (r, c), lambda h, r=r, c=c: conv(h, r, c))
