"""C24: sensitivities of the transfer function and of the poles with respect to the coefficients of Z"""
from vx.contract import *
from vx.contracts.sifs import *

ASSUME = ['machine arithmetic is treated as real arithmetic', 'the weights dZ are arbitrary (R.dZ is set by the caller)',
          'poles: the state matrix has n different eigenvalues (not zero for the sensitivity of the moduli), so that d lambda_k / dA = w_k^T x_k^T (w_k, x_k: left and right eigenvectors with w_k x_k = 1)',
          'transfer function: dH/dZ_ij is (column i of the system from the errors to the output) * (row j of the system from the input to (t, x, u)); its L2 norm is the H2 norm of this product (contracts of dSS.__mul__: C08, dSS.H2norm: C12)']
TRUSTED = ['numpy.linalg.eig returns the eigenvalues and the matrix whose columns are the eigenvectors', 'numpy.linalg.inv returns the inverse', 'numpy.linalg.norm is the Frobenius norm', 'numpy 3-D arrays, conj, real, abs']

def setup(h, weights=True, l=None):
    l, n, p, q = sizes(h, l)
    R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q, lower=l != IP0)))
    F = Form.atoms('', l, n, p, q) if l != IP0 else Form(l, n, p, q, {x: (lambda i, j: GE0) if x in 'JKLMN' else at(x) for x in NAMES}, lambda i, j: GE0)
    if weights: R.dZ = h.mat('W', l + n + p, l + n + q)
    W = R.dZ.copy()
    return R, F, W
def roots(h):
    """sqrt(x)^2 = x; products with a null factor"""
    def f(t, gamma):
        for i, a in enumerate(t.at):
            if a.name != 'sqrt': continue
            for j in range(i):
                if t.at[j] == a:
                    others = [x for k, x in enumerate(t.at) if k not in (i, j)]
                    return list((GE((Term(t.c, t.bv, t.g, others),)) * a.args[0]).terms)
        return None
    def z(t, gamma):
        """a product is zero when one of its factors is: a guard that tells a factor from 0 has no effect"""
        for f in t.g:
            n = f[0] == 'not'
            c = f[1] if n else f
            if c[0] != 'rc' or c[1] != '==' or len(c[2].terms) != 1: continue
            u = c[2].terms[0]
            if u.bv or u.g or len(u.at) != 1 or u.at[0] not in t.at: continue
            if not n: return []
            return [Term(t.c, t.bv, [x for x in t.g if x is not f], t.at)]
        return None
    h.c.rules.custom += [f, z]
def variables(F, t, x, u):
    """(t, x, u): what the columns of Z multiply"""
    l, n = F.l, F.n
    return lambda i: t(i).guard(f_and(f_ge(i), f_lt(i, l))) + x(i - l).guard(f_and(f_le(l, i), f_lt(i, l + n))) + u(i - l - n).guard(f_le(l + n, i))
class Product:
    """the system left * right; its H2 norm is the unknown h2(i, j)"""
    def __init__(self, h, F, left, right): self.h, self.F, self.left, self.right = h, F, left, right
    def column(self, i):
        """the left system has the input e_i of the errors"""
        F = self.F
        x, u = vec('x'), vec('u')
        k = IP.sym('k?'); w = IP.sym('w?')
        e = lambda r: u(IP0).guard(f_same(r, i))
        rhs = lambda r: (F.B['M'](r, w) * x(w)).sum('w?', 0, F.n) + e(r)
        t = lambda r: (F.Ji(r, k) * rhs(k)).sum('k?', 0, F.l)
        X, Y = F.step(x, lambda r: GE0, t)
        return (lambda r: X(r) + e(r + F.l)), (lambda r: Y(r) + e(r + F.l + F.n))
    def is_column(self, i):
        h, F, S = self.h, self.F, self.left
        if not h.c.entails(f_and(f_same(S.B.rows_, F.n), f_same(S.B.cols_, 1))): return False
        X, Y = self.column(i)
        r = IP.sym(fresh('r'))
        want = subst_x(X(r))
        return ge_zero(S.B.entry(r, IP0) * GE.atom('u', IP0) - want, h.c.all() + [f_ge(r), f_lt(r, F.n)], h.c.rules) is True
    def is_row(self, j):
        h, F, S = self.h, self.F, self.right
        if not h.c.entails(f_and(f_same(S.C.rows_, 1), f_same(S.C.cols_, F.n))): return False
        x = vec('x')
        t = F.tvec(x, lambda i: GE0)
        k = IP.sym('v?')
        return ge_zero((S.C.entry(IP0, k) * x(k)).sum('v?', 0, F.n) - variables(F, t, x, lambda i: GE0)(j), h.c.all(), h.c.rules) is True
    def H2norm(self):
        h, F = self.h, self.F
        s = [IP.sym(x) for x in h.c.loop_syms]
        if len(s) < 2: raise Unsupported('norm out of the loops over the coefficients')
        i = next((x for x in s[::-1] if self.is_column(x)), s[-2])
        j = next((x for x in s[::-1] if x != i and self.is_row(x)), s[-1])
        n, p, q = F.n, F.p, F.q
        system_is(h, 'left factor: column i of the system of the errors', self.left, n, p, 1, *self.column(i))
        x, u = vec('x'), vec('u')
        t = F.tvec(x, u)
        X, Y = F.step(x, u, t)
        system_is(h, 'right factor: variable j', self.right, n, 1, q, X, lambda r: variables(F, t, x, u)(j))
        return SReal(GE.atom('h2', i, j))
def subst_x(g): return GE([t for t in g.terms if not any(a.name == 'x' for a in t.at)])
def norms(h, F): h.c.contracts['fixif.LTI.dSS.dSS.__mul__'] = lambda self, other: Product(h, F, self, other)

def eigen(h, R, F):
    """distinct eigenvalues lam(k), eigenvectors X(:,k), inverse of the matrix of the eigenvectors Xi"""
    c = h.c
    c.memo['complex names'] = {x: y for a in ('lam', 'X', 'Xi') for x, y in ((a, a + '*'), (a + '*', a))}
    n = F.n
    c.rules.inv += [('X', 'Xi', n), ('X*', 'Xi*', n)]
    def eig(A):
        h.shape('poles: size of the matrix', A, n, n)
        x, k = vec('x'), IP.sym('v?')
        entries_equal(h, 'poles: the eigenvalues are those of the state matrix', lambda i: (A.entry(i, k) * x(k)).sum('v?', 0, n), F.step(x, lambda i: GE0)[0], n)
        return SMat.gen(n, 1, lambda i, j: GE.atom('lam', i), 'array', 'complex', 1), SMat.gen(n, n, lambda i, j: GE.atom('X', i, j), 'array', 'complex')
    c.memo['numpy eig'] = eig
def dlambda(F, moduli):
    """derivative of lambda_k (or of its modulus) with respect to Z_ij"""
    x, w = (lambda a, k: GE.atom('X', a, k)), (lambda k, a: GE.atom('Xi', k, a))
    a, b = IP.sym('a?'), IP.sym('b?')
    def M1(r, i):
        """the states with the error e_i"""
        k = IP.sym('k?')
        return (F.B['K'](r, k) * F.Ji(k, i)).sum('k?', 0, F.l).guard(f_lt(i, F.l)) + GE1.guard(f_same(r + F.l, i))
    def N1(j, b):
        """the variable j with the state b"""
        k = IP.sym('k?')
        return (F.Ji(j, k) * F.B['M'](k, b)).sum('k?', 0, F.l).guard(f_lt(j, F.l)) + GE1.guard(f_same(j, F.l + b))
    def f(i, j, k):
        d = (M1(a, i) * w(k, a)).sum('a?', 0, F.n) * (x(b, k) * N1(j, b)).sum('b?', 0, F.n)
        if not moduli: return d
        lam = GE.atom('lam', k)
        lc = GE.atom('lam*', k)
        g = d * lc
        return (g + sym.conj_ge(g)).scale(Fraction(1, 2)) * sym.ge_inv(GE.atom('sqrt', (lam * lc).light()))
    return f

def units(v):
    for l in (None, 0):
        s = ' (no intermediate variable)' if l == 0 else ''
        def body(h, l=l):
            R, F, W = setup(h, l=l)
            norms(h, F)
            roots(h)
            M, MX = R.dTFsensitivity()
            r, c = F.l + F.n + F.p, F.l + F.n + F.q
            want = lambda i, j: W.entry(i, j) * GE.atom('h2', i, j)
            h.shape('sensitivity matrix: size', MX, r, c)
            entries_equal(h, 'sensitivity matrix: weight times the norm of dH/dZ', MX.entry, want, r, c)
            i, j = IP.sym('i?'), IP.sym('j?')
            h.zero('measure: sum of the squares', sym.to_real(M).ge - (want(i, j) * want(i, j)).sum('j?', 0, c).sum('i?', 0, r))
            h.eq('the weights are not changed', R.dZ, W)
            if l is None: coherent(h, 'after dTFsensitivity', R, F)
        v.unit('dTFsensitivity' + s, body)
        for moduli in (True, False):
            def body(h, l=l, moduli=moduli):
                R, F, W = setup(h, l=l)
                eigen(h, R, F)
                roots(h)
                M, D, Dk = R.poleSensitivity(moduli) if not moduli else R.poleSensitivity()
                r, c = F.l + F.n + F.p, F.l + F.n + F.q
                h.ensure('sensitivity of each pole: size', f_and(*[f_same(x, y) for x, y in zip(Dk.dims, (r, c, F.n))]))
                d = dlambda(F, moduli)
                i, j, k = [IP.sym(fresh(x)) for x in 'ijk']
                rng = [f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c), f_ge(k), f_lt(k, F.n)]
                h.c.oblige('sensitivity of each pole', lambda: ge_zero(Dk.entry(i, j, k) - d(i, j, k), h.c.all() + rng, h.c.rules))
                h.shape('sensitivity matrix: size', D, r, c)
                sq = lambda i, j: (d(i, j, IP.sym('p?')) * sym.conj_ge(d(i, j, IP.sym('p?')))).sum('p?', 0, F.n)
                h.c.oblige('sensitivity matrix: square root of the sum of the squares', lambda: ge_zero(D.entry(i, j) * D.entry(i, j) - sq(i, j), h.c.all() + rng, h.c.rules))
                a, b = IP.sym('m?'), IP.sym('n?')
                h.zero('measure: weighted sum of the squares', sym.to_real(M).ge - (sq(a, b) * W.entry(a, b) * W.entry(a, b)).sum('n?', 0, c).sum('m?', 0, r))
            v.unit('poleSensitivity(moduli=%s)%s' % (moduli, s), body)
    # the systems whose norms are taken
    from vx.contracts import c11
    class Only:
        def __init__(self, v, names): self.v, self.names = v, names
        def __getattr__(self, k): return getattr(self.v, k)
        def unit(self, name, body, **k):
            if name in self.names: self.v.unit(name, body, **k)
    c11.units(Only(v, ('dSS * dSS', 'dSS[:,int]', 'dSS[int,:]')))
    def body(h):
        n, p, q = [h.int(x, 1) for x in 'npq']
        S = c11.system(h, '', n, p, q)
        A, B, C, D = [getattr(S, x).entry for x in 'ABCD']
        x = S.H2norm()
        r, s = IP.sym('r?'), IP.sym('s?')
        dd = (D('t?', r) * D('t?', r)).sum('r?', 0, q).sum('t?', 0, p)
        W, V = S.Wc.entry, S.Wo.entry
        h.root_of('H2norm^2 = tr(C Wc C^T + D D^T)', x, (C('t?', r) * W(r, s) * C('t?', s)).sum('s?', 0, n).sum('r?', 0, n).sum('t?', 0, p) + dd,
                  (B(r, 't?') * V(r, s) * B(s, 't?')).sum('s?', 0, n).sum('r?', 0, n).sum('t?', 0, q) + dd)
        h.lyapunov('Wc: A Wc A^T + B B^T = Wc', S.Wc, n, A, lambda i, j: (B(i, 't?') * B(j, 't?')).sum('t?', 0, q))
        h.lyapunov('Wo: A^T Wo A + C^T C = Wo', S.Wo, n, lambda i, j: A(j, i), lambda i, j: (C('t?', i) * C('t?', j)).sum('t?', 0, p))
        h.eq('a second query gives the same value', S.H2norm(), x)
    v.unit('dSS.H2norm', body)
