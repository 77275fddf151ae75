"""C25: Li-Gevers-Sun and Li-Chu-Wu structures"""
from vx.contract import *
from vx.contracts.lti import *
from types import SimpleNamespace as NS

BOUNDED = [('A_decomposition', 'orders 2 to 6 (8 in the thorough tier), all positive alphas'), ('JSS_trans', 'orders 2 to 6 (8 in the thorough tier), all positive alphas'),
           ('PhiKLD_in', 'orders 2 to 5 (7 in the thorough tier), all entries and all draws of distinct points'), ('Matrice_JtoS', 'number of factors of the orders 2 to 6 (8 in the thorough tier), matrices of any size')]
ASSUME = ['the characteristic polynomial of a stable system is the one of a matrix Phi_in with positive alphas (Routh-Schwarz form); JSS_trans is proved to give these alphas',
          'a strictly proper transfer function with this characteristic polynomial is the one of (Phi_in, K_in, L) for exactly one real L (Phi_in and K_in are proved to be controllable), which the values at n distinct points determine',
          'the points drawn are distinct, and not eigenvalues (the code checks it)', 'A + I is regular (stable filter)', 'machine arithmetic is treated as real and complex arithmetic']
TRUSTED = ['numpy.linalg.inv: the inverse; numpy poly1d and polydiv: polynomials with a leading coefficient that is not null, quotient and remainder', 'scipy.signal.ss2tf: the denominator is the characteristic polynomial',
           'sympy cancel, simplify and charpoly decide the identities between rational functions of the alphas']

M = 'fixif.Structures.LGS_LCW.LGS_LCW'
def mod(h):
    h.load('fixif.LTI'); h.load('fixif.SIF'); h.load('fixif.Structures')
    return h.load(M)
def E(Mx): return lambda i, j: Mx.entry(IP.of(i), IP.of(j))
def mul(n, *fs):
    """entries of a product of matrices with n columns"""
    f = fs[0]
    for k, g in enumerate(fs[1:]):
        def h(i, j, f=f, g=g):
            v = fresh('k')
            return (f(i, IP.sym(v)) * g(IP.sym(v), j)).sum(v, 0, n)
        f = h
    return f
def I(i, j): return GE1.guard(f_same(i, j))
def sub(f, g): return lambda i, j: f(i, j) - g(i, j)
def add(f, g): return lambda i, j: f(i, j) + g(i, j)
def scale(c, f): return lambda i, j: f(i, j) * c
def same(h, name, f, g, r, c):
    i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
    h.c.oblige(name, lambda: ge_zero(f(i, j) - g(i, j), h.c.all() + [f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c)], h.c.rules))
def regular(h, nm, n):
    """a regular n x n matrix and its inverse"""
    h.c.rules.inv.append((nm, nm + '^-1', IP.of(n)))
    return (lambda i, j: GE.atom(nm, i, j)), (lambda i, j: GE.atom(nm + '^-1', i, j))
def mx(r, c, f): return SMat.gen(IP.of(r), IP.of(c), f, 'matrix', 'float')
def roots(t, gamma):
    """sqrt(x)^2 = x, 1 / sqrt(x) = sqrt(x) / x"""
    for i, a in enumerate(t.at):
        if a.name == 'inv' and len(a.args[0].terms) == 1:
            u = a.args[0].terms[0]
            if len(u.at) == 1 and u.at[0].name == 'sqrt' and not u.bv and not u.g and entails(gamma + list(t.g), f_rc('>', u.at[0].args[0])):
                g = GE((Term(t.c / u.c, t.bv, t.g, [x for k, x in enumerate(t.at) if k != i]),)) * GE((Term(1, (), (), (u.at[0],)),)) * sym.ge_inv(u.at[0].args[0])
                return list(g.terms)
        if a.name != 'sqrt': continue
        for j in range(i + 1, len(t.at)):
            if t.at[j].name == 'sqrt' and t.at[j] == a and entails(gamma + list(t.g), f_rc('>=', a.args[0])):
                g = GE((Term(t.c, t.bv, t.g, [x for k, x in enumerate(t.at) if k not in (i, j)]),)) * a.args[0]
                return list(g.terms)
    return None
def exact(h):
    h.c.memo['exact roots'] = True
    h.c.rules.custom.append(roots)
def products(h, X, Y, n, value):
    """lemma: X Y = Y X = sum of coefficient * matrix for (coefficient, matrix name or None for the identity) in value"""
    n = IP.of(n)
    def f(t, gamma):
        for i, a in enumerate(t.at):
            if a.name not in (X, Y): continue
            for j, b in enumerate(t.at):
                if i == j or b.name != (Y if a.name == X else X): continue
                k = IP.of(a.args[1])
                if k != IP.of(b.args[0]): continue
                w = next((x for x in t.bv if k == IP.sym(x)), None)
                if w is None or w in IP.of(a.args[0]).syms() or w in IP.of(b.args[1]).syms(): continue
                others = [x for l, x in enumerate(t.at) if l not in (i, j)]
                if any(w in x.syms() for x in others): continue
                rest = core.bv_region(t, w, IP0, n, gamma)
                if rest is None: continue
                base = GE((Term(t.c, [x for x in t.bv if x != w], rest, others),))
                out = GE0
                for c, nm in value: out = out + base * c * (GE.atom(nm, a.args[0], b.args[1]) if nm else GE1.guard(f_same(a.args[0], b.args[1])))
                return list(out.terms)
        return None
    h.c.rules.custom.append(f)
VALUES = {}      # atoms that stand for rational functions
def canonical(x):
    """the same value, as an atom (or a number)"""
    import sympy
    e = sympy.cancel(rational(to_real(x).ge))
    if e.is_Rational: return SReal(GE.const(Fraction(int(e.p), int(e.q))), 'float')
    nm = 'q%d' % len(VALUES)
    VALUES[nm] = e
    return SReal(GE.atom(nm), 'float')
def rational(g):
    """the expression in sympy of an expression made of atoms, products and reciprocals"""
    import sympy
    def atom(a):
        if a.name in VALUES: return VALUES[a.name]
        if a.name == 'inv': return 1 / rational(a.args[0])
        if a.name == 'sqrt': return sympy.sqrt(sympy.cancel(rational(a.args[0])))
        return sympy.Symbol(str(a), positive=True)
    out = sympy.Integer(0)
    for t in g.terms:
        if t.bv or t.g: raise Unsupported('rational expression with conditions: %s' % g)
        x = sympy.Rational(t.c.numerator, t.c.denominator)
        for a in t.at: x = x * atom(a)
        out = out + x
    return out
def positive(x):
    """a rational expression whose numerator and denominator have positive coefficients (in positive unknowns)"""
    import sympy
    a, b = sympy.fraction(sympy.cancel(x))
    pos = lambda e: all(c > 0 for c in sympy.Poly(e, *e.free_symbols).coeffs()) if e.free_symbols else e > 0
    return bool(pos(a) and pos(b)) or bool(pos(-a) and pos(-b))
def divisors(g):
    for t in g.terms:
        for a in t.at:
            if a.name == 'inv':
                yield a.args[0]
                yield from divisors(a.args[0])
def at(Mx, i, j): return Mx.entry(IP.of(i), IP.of(j)).light()
def expressions(Mx, n):
    """the entries of an n x n matrix, as rational functions of the positive unknowns whose divisors are not null"""
    if not (Mx.rows_ == IP.of(n) and Mx.cols_ == IP.of(n)): raise Unsupported('the size is %s x %s' % (Mx.rows_, Mx.cols_))
    for i in range(n):
        for j in range(n):
            for d in divisors(at(Mx, i, j)):
                if not positive(rational(d)): raise ValueError('entry (%d, %d): the divisor %s may be null' % (i, j, d))
    return [[rational(at(Mx, i, j)) for j in range(n)] for i in range(n)]
def chain(h, name, Ms, n, fn):
    """the product of the matrices Ms (n x n) is fn(i, j)"""
    import sympy
    def th():
        try: X = [expressions(x, n) for x in Ms]
        except ValueError as e: return str(e)
        P = X[0]
        for Y in X[1:]: P = [[sympy.cancel(sum(P[i][k] * Y[k][j] for k in range(n))) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                if sympy.cancel(P[i][j] - fn(i, j)) != 0: return 'entry (%d, %d) is %s' % (i, j, P[i][j])
        return True
    h.c.oblige(name, th)
def alphas(h, n):
    al = [h.real('alpha%d' % i) for i in range(n)]
    for a in al: h.c.assume(f_rc('>', a.ge))
    def Phi(i, j):
        g = GE0
        for a in range(n):
            if a + 1 < n: g = g + al[a].ge.guard(f_and(f_same(i, a), f_same(j, a + 1))) - al[a].ge.guard(f_and(f_same(i, a + 1), f_same(j, a)))
        return g - al[n - 1].ge.guard(f_and(f_same(i, n - 1), f_same(j, n - 1)))
    return al, mx(n, n, Phi)
def imaginary(t, gamma):
    k = [i for i, a in enumerate(t.at) if a.name == 'I']
    if len(k) < 2: return None
    return [Term(-t.c, t.bv, t.g, [a for i, a in enumerate(t.at) if i not in k[:2]])]
def eliminate(h, target, value):
    """the product of the atoms of target (texts) is value"""
    def f(t, gamma):
        left, at = list(target), []
        for a in t.at:
            if str(a) in left: left.remove(str(a))
            else: at.append(a)
        if left: return None
        return list((GE((Term(t.c, t.bv, t.g, at),)) * value).terms)
    h.c.rules.custom.append(f)
class Points:
    """contract of inv and of the draws in the interpolation of L_in: n points, where the transfer functions of (Phi, K, L) and of
    (Phi_in, K_in, L*) are the same, L* real; the vectors (c I - Phi_in)^-1 K_in are linearly independent at different points"""
    def __init__(self, h, n, Phi, K, L, al):
        self.h, self.n, self.Phi, self.K, self.L, self.al, self.keys, self.known, self.draws = h, n, Phi, K, L, al, {}, [], 0
        h.c.memo['complex names'] = {'I': 'I'}
        h.c.rules.custom.append(imaginary)
    def uniform(self, a, b):
        self.draws += 1
        x = self.h.real('draw%d' % self.draws)
        if self.draws % 2 == 0:
            z = lambda k: GE.atom('draw%d' % (k - 1)) + GE.atom('I') * GE.atom('draw%d' % k)
            for k in range(2, self.draws, 2): self.h.c.assume(f_not(f_rc('==', z(self.draws) - z(k))))
        return x
    def tri(self, i, j):
        a = lambda k: self.al[k].ge
        if j == i + 1: return a(i)
        if i == j + 1: return -a(j)
        return -a(i) if i == j == self.n - 1 else GE0
    def inv(self, X):
        n, h = self.n, self.h
        if not (X.rows_ == IP.of(n) and X.cols_ == IP.of(n)): raise Unsupported('inverse of a matrix of another size')
        zero = lambda g: ge_zero(g, h.c.all(), h.c.rules) is True
        z = lambda f: all(zero(f(i, j)) for i in range(n) for j in range(n))
        for nm, Y in (('R', self.tri), ('Y', lambda i, j: at(self.Phi, i, j))):
            c = (at(X, 0, 0) + Y(0, 0)).light()
            if z(lambda i, j: at(X, i, j) + Y(i, j) - (c if i == j else GE0)):
                if c.names() - {'I'} - {'draw%d' % k for k in range(1, self.draws + 1)}: raise Unsupported('interpolation at %s' % c)
                key = next((k for k, (d, _) in self.keys.items() if zero(d - c)), None)
                if key is None:
                    key = len(self.keys)
                    self.keys[key] = (c, set())
                used = self.keys[key][1]
                used.add(nm)
                i_ = GE.atom('I')
                # Lstar R K_in = L Y K at this point
                if used == {'R', 'Y'}:
                    for x in 'ri':
                        rest = GE0
                        for m in range(n): rest = rest + GE.atom('L*', m) * GE.atom('R%d%s' % (key, x), m, n - 1) * self.last
                        for a in range(n):
                            for b in range(n):
                                if (a, b) != (0, 0): rest = rest - at(self.L, 0, a) * GE.atom('Y%d%s' % (key, x), a, b) * at(self.K, b, 0)
                        eliminate(h, [str(y) for g in (at(self.L, 0, 0), GE.atom('Y%d%s' % (key, x), 0, 0), at(self.K, 0, 0)) for y in g.terms[0].at], rest)
                    used.add('linked')
                return SMat.gen(n, n, lambda i, j: GE.atom('%s%dr' % (nm, key), i, j) + i_ * GE.atom('%s%di' % (nm, key), i, j), X.tag, 'complex')
        # the matrix of the vectors (c I - Phi_in)^-1 K_in
        cols = []
        for j in range(n):
            k = next((k for k in self.keys if all(zero(at(X, i, j) - self.last * (GE.atom('R%dr' % k, i, n - 1) + GE.atom('I') * GE.atom('R%di' % k, i, n - 1))) for i in range(n))), None)
            if k is None or k in cols: raise Unsupported('inverse of a matrix that is not the one of the responses of the states at different points')
            cols.append(k)
        for r in range(n):
            for j in range(n):
                g = lambda x, i: GE.atom('G' + x, i, j)
                R = lambda x, i: GE.atom('R%d%s' % (cols[i], x), r, n - 1)
                s = GE.atom('1/last')
                re, im = (s if r == j else GE0) + R('i', 0) * g('i', 0), -(R('i', 0) * g('r', 0))
                for i in range(1, n):
                    re = re - R('r', i) * g('r', i) + R('i', i) * g('i', i)
                    im = im - R('r', i) * g('i', i) - R('i', i) * g('r', i)
                for x, v in (('r', re), ('i', im)):
                    eliminate(h, [str(y) for q in (R('r', 0), g(x, 0)) for y in q.terms[0].at], v)
        eliminate(h, ['1/last'] + [str(y) for y in self.last.terms[0].at], GE.const(1 / self.last.terms[0].c))
        self.known.append(cols)
        return SMat.gen(n, n, lambda i, j: GE.atom('Gr', i, j) + GE.atom('I') * GE.atom('Gi', i, j), X.tag, 'complex')
class Poly:
    """contract of numpy.poly1d and polydiv: polynomials, the leading coefficient is not null"""
    def __init__(self, c):
        c = [canonical(x) for x in c]
        while len(c) > 1 and c[0].ge == GE0: c = c[1:]
        if len(c) > 1 and not positive(rational(c[0].ge)): raise Unsupported('the sign of a leading coefficient is not known: %s' % c[0])
        self.c = c
    def __len__(self): return len(self.c) - 1
    @property
    def order(self): return len(self)
    o = order
    @property
    def coeffs(self): return list(self.c)
    coef = coefficients = c_ = coeffs
    def __getitem__(self, k): return self.c[len(self) - k] if 0 <= k <= len(self) else 0
    def __add__(self, o): return Poly([Poly.get(self, k) + Poly.get(o, k) for k in range(max(len(self), len(o)), -1, -1)])
    def get(self, k): return to_real(self[k])
    def __sub__(self, o): return Poly([Poly.get(self, k) - Poly.get(o, k) for k in range(max(len(self), len(o)), -1, -1)])
def polydiv(u, w):
    u, w = [x if isinstance(x, Poly) else Poly(x) for x in (u, w)]
    r, q = list(u.c), []
    while len(r) >= len(w.c):
        k = canonical(r[0] / w.c[0])
        q.append(k)
        r = [canonical(SReal(r[i].ge - (k.ge * w.c[i].ge if i < len(w.c) else GE0), 'float')) for i in range(1, len(r))]
    Q = Poly.__new__(Poly); Q.c = q or [to_real(0.0)]
    R = Poly.__new__(Poly)
    r = r or [to_real(0.0)]
    while len(r) > 1 and r[0].ge == GE0: r = r[1:]
    R.c = r
    return Q, R
class Over:
    """a module, with other definitions of some of its names"""
    def __init__(self, m, **k): self.__dict__.update(k); self.m_ = m
    def __getattr__(self, x): return getattr(self.__dict__['m_'], x)
def characteristic(al):
    """coefficients of det(x I - Phi_in), highest degree first"""
    n = len(al)
    P = [[GE1]]
    for k in range(n):
        a = P[-1] + [GE0]                                    # x P(k)
        if k == n - 1: a = [x + y for x, y in zip(a, [GE0] + [c * al[k].ge for c in P[-1]])]
        if k: a = [x + y for x, y in zip(a, [GE0, GE0] + [c * al[k - 1].ge * al[k - 1].ge for c in P[-2]])]
        P.append([x.light() for x in a])
    return P[-1]
class Token:
    def __init__(self, *t): self.t = t
    def __eq__(self, o): return isinstance(o, Token) and self.t == o.t
    def __hash__(self): return hash(self.t)
    def __repr__(self): return '%s(%s)' % (self.t[0], ', '.join(map(repr, self.t[1:])))
def point(h):
    """z and s = (z - 1) / (z + 1): zz = z + 1, and s"""
    zz = GE.atom('z+1')
    h.c.assume(f_not(f_rc('==', zz)))
    return zz, GE1 - sym.ge_inv(zz).scale(2), sym.ge_inv(zz)
def units(v):
    def body(h):
        m = mod(h)
        exact(h)
        n = h.int('n', 1)
        N = IP.of(n)
        W, Wi = regular(h, 'A+I', n)
        A = sub(W, I)
        s = NS(A=mx(n, n, A), B=h.mat('B', n, 1), C=h.mat('C', 1, n), D=h.mat('D', 1, 1))
        Phi, K, L, D = m.PhiKLD(s)
        h.shape('Phi', Phi, n, n); h.shape('K', K, n, 1); h.shape('L', L, 1, n); h.shape('D', D, 1, 1)
        r2 = to_real(m.sqrt(2)).ge
        B, C = E(s.B), E(s.C)
        same(h, '(A + I) Phi = A - I', mul(N, W, E(Phi)), sub(A, I), N, N)
        same(h, '(A + I) K = sqrt(2) B', mul(N, W, E(K)), scale(r2, B), N, 1)
        same(h, 'L (A + I) = sqrt(2) C', mul(N, E(L), W), scale(r2, C), 1, N)
        same(h, 'D = D - C (A + I)^-1 B', E(D), sub(E(s.D), mul(N, C, Wi, B)), 1, 1)
        P2 = sub(I, scale(2, Wi))
        same(h, 'Phi = I - 2 (A + I)^-1', E(Phi), P2, N, N)
        # X = (z I - A)^-1
        zz, sp, iz = point(h)
        X = lambda i, j: GE.atom('(zI-A)^-1', i, j)
        products(h, '(zI-A)^-1', 'A+I', N, [(zz, '(zI-A)^-1'), (GE.const(-1), None)])
        products(h, '(zI-A)^-1', 'A+I^-1', N, [(iz, '(zI-A)^-1'), (iz, 'A+I^-1')])
        V = scale(zz.scale(Fraction(1, 2)), mul(N, X, W))
        same(h, 'V = (z + 1) / 2 (z I - A)^-1 (A + I) is the inverse of s I - Phi', sub(scale(sp, V), mul(N, V, P2)), I, N, N)
        same(h, 'L (s I - Phi)^-1 K + D = C (z I - A)^-1 B + D for s = (z - 1) / (z + 1)', add(mul(N, E(L), V, E(K)), E(D)), add(mul(N, C, X, B), E(s.D)), 1, 1)
    v.unit('PhiKLD', body)
    def body(h):
        m = mod(h)
        exact(h)
        n = h.int('n', 1)
        N = IP.of(n)
        W, Wi = regular(h, 'I-Phi', n)
        P = sub(I, W)
        h.inverse_candidate(n, lambda i, j: W(i, j).scale(Fraction(1, 2)))
        K, L, D = h.mat('K', n, 1), h.mat('L', 1, n), h.mat('D', 1, 1)
        A, B, C, d = m.ABCd_in(mx(n, n, P), K, L, D)
        h.shape('A', A, n, n); h.shape('B', B, n, 1); h.shape('C', C, 1, n); h.shape('d', d, 1, 1)
        r2 = to_real(m.sqrt(2)).ge
        same(h, 'A (I - Phi) = I + Phi', mul(N, E(A), W), add(I, P), N, N)
        same(h, '(I - Phi) A = I + Phi', mul(N, W, E(A)), add(I, P), N, N)
        same(h, 'sqrt(2) B = (A + I) K', scale(r2, E(B)), mul(N, add(E(A), I), E(K)), N, 1)
        same(h, 'sqrt(2) C = L (A + I)', scale(r2, E(C)), mul(N, E(L), add(E(A), I)), 1, N)
        A2 = sub(scale(2, Wi), I)
        same(h, 'A = 2 (I - Phi)^-1 - I', E(A), A2, N, N)
        zz, sp, iz = point(h)
        X = lambda i, j: GE.atom('(zI-A)^-1', i, j)
        half = Fraction(1, 2)
        products(h, '(zI-A)^-1', 'I-Phi^-1', N, [(zz.scale(half), '(zI-A)^-1'), (GE.const(-half), None)])
        products(h, '(zI-A)^-1', 'I-Phi', N, [(iz.scale(2), '(zI-A)^-1'), (iz, 'I-Phi')])
        same(h, '(z I - A)^-1 is the inverse of z I - A', sub(scale(zz - GE1, X), mul(N, X, A2)), I, N, N)
        V = scale(zz, mul(N, X, Wi))
        same(h, 'V = (z + 1) (z I - A)^-1 (I - Phi)^-1 is the inverse of s I - Phi', sub(scale(sp, V), mul(N, V, P)), I, N, N)
        same(h, 'C (z I - A)^-1 B + d = L (s I - Phi)^-1 K + D for s = (z - 1) / (z + 1)', add(mul(N, E(C), X, E(B)), E(d)), add(mul(N, E(L), V, E(K)), E(D)), 1, 1)
        same(h, 'A = (I + Phi) (I - Phi)^-1', E(A), mul(N, add(I, P), Wi), N, N)
        # the transposed form of LCW
        As, Bs, Cs, ds = m.ABCd_star(A, B, C, d, mx(n, n, P), K)
        h.shape('A*', As, n, n); h.shape('B*', Bs, n, 1); h.shape('C*', Cs, 1, n); h.shape('d*', ds, 1, 1)
        T = lambda f: lambda i, j: f(j, i)
        same(h, 'A* = transpose of A', E(As), T(E(A)), N, N)
        same(h, 'A* = 2 (I - transpose of Phi)^-1 - I', E(As), sub(scale(2, T(Wi)), I), N, N)
        same(h, 'C* (z I - A*)^-1 B* + d* = C (z I - A)^-1 B + d', add(mul(N, E(Cs), T(X), E(Bs)), E(ds)), add(mul(N, E(C), X, E(B)), E(d)), 1, 1)
    v.unit('ABCd_in, ABCd_star', body)
    sizes = (2, 3, 4, 5, 6) + ((7, 8) if v.tier == 'thorough' else ())
    for n in sizes:
        for kind in ('LGS', 'LCW'):
            def body(h, n=n, kind=kind):
                m = mod(h)
                al, Phi = alphas(h, n)
                Ad = getattr(m, 'A_decomposition_' + kind)(list(al), Phi)
                h.ensure('number of factors', len(Ad) == (3 * n - 2 if kind == 'LGS' else 3 * n - 3))
                T = list(Ad)
                if kind == 'LGS':
                    h.matrix_is('the last factor is I + Phi', T[-1], n, n, add(I, E(Phi)))
                    T = T[:-1]
                for F in T:
                    h.shape('the factors are n x n', F, n, n)
                W = sub(I, (lambda i, j: at(Phi, j, i)) if kind == 'LCW' else E(Phi))
                chain(h, 'the product of the factors is the inverse of ' + ('I - Phi' if kind == 'LGS' else 'the transpose of I - Phi'), T[::-1] + [mx(n, n, W)], n, lambda i, j: int(i == j))
            v.unit('A_decomposition_%s, order %d' % (kind, n), body)
    for kind in ('LGS', 'LCW'):
        for nn in [3 * x - (2 if kind == 'LGS' else 3) for x in sizes]:
            def body(h, nn=nn, kind=kind):
                m = mod(h)
                n = h.int('n', 2)
                N = IP.of(n)
                Ad = [h.mat('U%d' % i, n, n) for i in range(nn)]
                B, C, d = h.mat('B', n, 1), h.mat('C', 1, n), h.mat('d', 1, 1)
                A = h.mat('A', n, n)
                J, K, L, Mm, Nn, P, Q, R, S = getattr(m, 'Matrice_JtoS_' + kind)(list(Ad), A, B, C, d)
                l = N * nn
                for nm, X, r, c in (('J', J, l, l), ('K', K, N, l), ('L', L, 1, l), ('M', Mm, l, N), ('N', Nn, l, 1), ('P', P, N, N), ('Q', Q, N, 1), ('R', R, 1, N), ('S', S, 1, 1)): h.shape(nm, X, r, c)
                t, x = (lambda i, j=0: GE.atom('t', i)), (lambda i, j=0: GE.atom('x', i))
                two = GE.const(2 if kind == 'LCW' else 1)
                r = IP.sym(fresh('r'))
                def eq(name, f, g):
                    h.c.oblige(name, lambda: ge_zero(f(r) - g(r), h.c.all() + [f_ge(r), f_lt(r, N)], h.c.rules))
                k = fresh('k')
                by = lambda X, y, row, hi: (X.entry(row, IP.sym(k)) * y(IP.sym(k))).sum(k, 0, hi)
                for b in range(nn):
                    prev = (lambda b: lambda i: GE.atom('t', i + N * (b - 1)))(b)
                    eq('row %d of J t' % b, lambda r: by(J, t, r + N * b, l), lambda r: t(r + N * b) - (by(Ad[b], prev, r, N) if b else GE0))
                    eq('row %d of M x' % b, lambda r: by(Mm, x, r + N * b, N), lambda r: by(Ad[0], x, r, N) * two if b == 0 else GE0)
                eq('K t is the last intermediate vector', lambda r: by(K, t, r, l), lambda r: t(r + N * (nn - 1)))
                eq('P x', lambda r: by(P, x, r, N), lambda r: -x(r) if kind == 'LCW' else GE0)
                h.matrix_is('L = 0', L, 1, l, lambda i, j: GE0); h.matrix_is('N = 0', Nn, l, 1, lambda i, j: GE0)
                for nm, X, Y, a, b in (('Q', Q, B, N, 1), ('R', R, C, 1, N), ('S', S, d, 1, 1)): h.matrix_is(nm, X, a, b, E(Y))
                i, j = fresh('i'), fresh('j')
                h.c.oblige('J is lower triangular with ones on its diagonal', lambda: ge_zero(J.entry(IP.sym(i), IP.sym(j)) - I(IP.sym(i), IP.sym(j)), h.c.all() + [f_ge(IP.sym(i)), f_le(IP.sym(i), IP.sym(j)), f_lt(IP.sym(j), l)], h.c.rules))
            v.unit('Matrice_JtoS_%s, %d factors' % (kind, nn), body)
    for n in sizes[:4 if v.tier == 'quick' else 6]:
        def body(h, n=n):
            m = mod(h)
            exact(h)
            al, T = alphas(h, n)
            Phi, K, L, D = h.mat('Phi', n, n), h.mat('K', n, 1), h.mat('L', 1, n), h.mat('D', 1, 1)
            pt = Points(h, n, Phi, K, L, al)
            pt.last = to_real(m.sqrt(2 * al[n - 1])).ge
            old = {k: getattr(m, k) for k in ('inv', 'rd', 'la')}
            try:
                m.inv, m.rd = pt.inv, NS(uniform=pt.uniform, random=lambda: pt.uniform(0, 1))
                m.la = NS(eig=lambda X: ([], None), inv=pt.inv)
                P, Ki, Li, Di = m.PhiKLD_in(list(al), Phi, K, L, D)
            finally:
                for k, x in old.items(): setattr(m, k, x)
            h.matrix_is('Phi_in is the tridiagonal matrix of the alphas', P, n, n, E(T))
            h.matrix_is('K_in = (0, ..., 0, sqrt(2 alpha))', Ki, n, 1, lambda i, j: pt.last.guard(f_same(i, n - 1)))
            h.matrix_is('D', Di, 1, 1, E(D))
            def th():
                import sympy
                F, v = sympy.Matrix(n, n, lambda i, j: rational(at(P, i, j))), sympy.Matrix(n, 1, lambda i, j: rational(at(Ki, i, 0)))
                V = [v]
                while len(V) < n: V.append(F * V[-1])
                d = sympy.expand(sympy.Matrix.hstack(*V).det())
                return True if d != 0 and len(sympy.Add.make_args(d)) == 1 else 'the determinant is %s' % d
            h.c.oblige('(Phi_in, K_in) is controllable', th)
            h.shape('L_in', Li, 1, n)
            for j in range(n): h.zero('L_in[%d] is the one that realizes the transfer function' % j, at(Li, 0, j) - GE.atom('L*', j))
        v.unit('PhiKLD_in, order %d' % n, body)
    for n in sizes:
        def body(h, n=n):
            import sympy
            m = mod(h)
            exact(h)
            al, T = alphas(h, n)
            ch = characteristic(al)
            def th():
                x = sympy.Symbol('x')
                p = sympy.Matrix(n, n, lambda i, j: rational(at(T, i, j))).charpoly(x).all_coeffs()
                return True if all(sympy.expand(a - rational(b)) == 0 for a, b in zip(p, ch)) and len(p) == len(ch) else 'the characteristic polynomial'
            h.c.oblige('characteristic polynomial of Phi_in', th)
            old = m.np
            m.np = Over(old, poly1d=Poly, polydiv=polydiv)
            try: r = m.JSS_trans(SMat.gen(n + 1, 1, lambda i, j: ch[i.value], 'array', 'float', 1))
            finally: m.np = old
            h.ensure('number of coefficients', len(r) == n)
            for i in range(n):
                h.c.oblige('alpha %d' % i, (lambda i: lambda: True if sympy.simplify(rational(to_real(r[i]).ge) - rational(al[i].ge)) == 0 else 'it is %s' % rational(to_real(r[i]).ge))(i))
        v.unit('JSS_trans, order %d' % n, body)
    for kind in ('LGS', 'LCW'):
        def body(h, kind=kind):
            m = mod(h)
            names = ('PhiKLD', 'JSS_trans', 'PhiKLD_in', 'ABCd_in', 'ABCd_star', 'A_decomposition_LGS', 'A_decomposition_LCW', 'Matrice_JtoS_LGS', 'Matrice_JtoS_LCW')
            old = {x: getattr(m, x) for x in names + ('signal',)}
            parts = lambda what, names, *a: tuple(Token(x, what, *a) for x in names.split())
            m.PhiKLD = lambda s: parts(Token('PhiKLD', s), 'Phi K L D')
            m.signal = NS(ss2tf=lambda A, B, C, D: (Token('num', A, B, C, D), Token('characteristic polynomial', A)))
            m.JSS_trans = lambda D: Token('alpha', D)
            m.PhiKLD_in = lambda alpha, Phi, K, L, D: (Token('Phi_in', alpha), Token('K_in', alpha), Token('L_in', alpha, Phi, K, L), D)
            m.ABCd_in = lambda Phi, K, L, D: parts(Token('ABCd_in', Phi, K, L, D), 'A B C d')
            m.ABCd_star = lambda A, B, C, d, Phi, K: parts(Token('ABCd_star', A, B, C, Phi, K), 'A B C') + (d,)
            m.A_decomposition_LGS = lambda alpha, Phi_in: Token('factors LGS', alpha, Phi_in)
            m.A_decomposition_LCW = lambda alpha, Phi_in: Token('factors LCW', alpha)
            m.Matrice_JtoS_LGS = lambda Ad, A_in, B_in, C_in, d: Token('SIF LGS', Ad, B_in, C_in, d)
            m.Matrice_JtoS_LCW = lambda Ad, As, Bs, Cs, d: Token('SIF LCW', Ad, Bs, Cs, d)
            try:
                for o in ({}, dict(transposed=False), dict(transposed=True)):
                    got = getattr(m, 'make' + kind)(NS(dSS='dSS', dTF='dTF'), **o)
                    Phi, K, L, D = m.PhiKLD('dSS')
                    al = m.JSS_trans(Token('characteristic polynomial', Phi))
                    Pi, Ki, Li, Di = m.PhiKLD_in(al, Phi, K, L, D)
                    X = m.ABCd_in(Pi, Ki, Li, Di)
                    if kind == 'LCW': X = m.ABCd_star(*X, Pi, Ki)
                    want = getattr(m, 'Matrice_JtoS_' + kind)(getattr(m, 'A_decomposition_' + kind)(al, Pi), *X)
                    h.ensure('the matrices are made of the decomposition of the filter %s' % (o or ''), list(got) == ['JtoS'] and got['JtoS'] == want)
            finally:
                for x, y in old.items(): setattr(m, x, y)
        v.unit('make' + kind, body)
    for stable in (True, False):
        def body(h, stable=stable):
            m = mod(h)
            n, p, q = h.int('n', 1), h.int('p', 1), h.int('q', 1)
            lti = h.load('fixif.LTI')
            F = lti.Filter(A=h.mat('A', n, n), B=h.mat('B', n, q), C=h.mat('C', p, n), D=h.mat('D', p, q), stable=stable)
            want = f_and(f_same(IP.of(p), 1), f_same(IP.of(q), 1), f_le(2, IP.of(n)))
            for S in (m.LGS, m.LCW):
                for o in ({}, dict(transposed=True)):
                    r = bool(S.canAcceptFilter(F, **o))
                    h.ensure('it accepts the stable filters of order at least 2, with one input and one output', h.c.entails(want if r else f_not(want)) if stable else not r)
        v.unit('acceptance, stable=%s' % stable, body)
