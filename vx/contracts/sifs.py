"""specifications shared by the contracts on the implicit form"""
from vx.contract import *
from vx.contracts.lti import *

NAMES = 'JKLMNPQRS'
def dims(l, n, p, q): return dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, q), P=(n, n), Q=(n, q), R=(p, n), S=(p, q))
def sizes(h, l=None):
    return [IP.of(h.int('l', 1) if l is None else l)] + [IP.of(h.int(x, 1)) for x in ('n', 'p', 'q')]
def unit_lower(h, J, l):
    """J is lower triangular with ones on its diagonal; its inverse is J + 'i' """
    a = at(J)
    l = IP.of(l)
    h.assume(('all', ('u0',), f_implies(f_and(f_ge('u0'), f_lt('u0', l)), f_rc('==', a(IP.sym('u0'), IP.sym('u0')) - 1))))
    h.assume(('all', ('u0', 'u1'), f_implies(f_and(f_ge('u0'), f_lt('u0', 'u1'), f_lt('u1', l)), f_rc('==', a(IP.sym('u0'), IP.sym('u1'))))))
    h.c.rules.inv.append((J, J + 'i', l))
def blocks(h, s, l, n, p, q, tag='matrix', lower=True):
    """arbitrary blocks J..S"""
    d = dims(l, n, p, q)
    if lower: unit_lower(h, 'J' + s, l)
    return [h.mat(x + s, *d[x], tag) for x in NAMES]
def entry(nm, r, c):
    """entry function, null outside of the block"""
    return lambda i, j: GE.atom(nm, i, j).guard(f_and(f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c)))
class Form:
    """an implicit form: sizes and entry functions of its blocks; `Ji`: inverse of J"""
    def __init__(self, l, n, p, q, B, Ji):
        self.l, self.n, self.p, self.q, self.B, self.Ji = IP.of(l), IP.of(n), IP.of(p), IP.of(q), dict(B), Ji
    @staticmethod
    def atoms(s, l, n, p, q): return Form(l, n, p, q, {x: at(x + s) for x in NAMES}, at('J' + s + 'i'))
    def tvec(self, x, u):
        """temporaries: t = inv(J) (M x + N u)"""
        k, w = IP.sym('k?'), IP.sym('w?')
        rhs = lambda i: (self.B['M'](i, w) * x(w)).sum('w?', 0, self.n) + (self.B['N'](i, w) * u(w)).sum('w?', 0, self.q)
        return lambda i: (self.Ji(i, k) * rhs(k)).sum('k?', 0, self.l)
    def step(self, x, u, t=None):
        """(next states, outputs)"""
        t = t or self.tvec(x, u)
        k = IP.sym('m?')
        o = lambda K, P, Q: lambda i: (K(i, k) * t(k)).sum('m?', 0, self.l) + (P(i, k) * x(k)).sum('m?', 0, self.n) + (Q(i, k) * u(k)).sum('m?', 0, self.q)
        B = self.B
        return o(B['K'], B['P'], B['Q']), o(B['L'], B['R'], B['S'])
def vec(nm): return lambda i: GE.atom(nm, i)
def entries_equal(h, name, f, g, r, c=1):
    def th():
        i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
        one = [f_ge(i), f_lt(i, r)]
        if c == 1: return ge_zero(f(i) - g(i), h.c.all() + one, h.c.rules)
        return ge_zero(f(i, j) - g(i, j), h.c.all() + one + [f_ge(j), f_lt(j, c)], h.c.rules)
    h.c.oblige(name, th)
def ss_of(h, name, S, F):
    """the state-space S = (A, B, C, D) is the one of the implicit form F"""
    n, p, q = F.n, F.p, F.q
    for nm, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q)): h.shape('%s: size of %s' % (name, nm), getattr(S, nm), r, c)
    x, u, k = vec('x'), vec('u'), IP.sym('v?')
    X, Y = F.step(x, u)
    o = lambda A, B: lambda i: (A.entry(i, k) * x(k)).sum('v?', 0, n) + (B.entry(i, k) * u(k)).sum('v?', 0, q)
    entries_equal(h, name + ': x+ = K t + P x + Q u with J t = M x + N u', o(S.A, S.B), X, n)
    entries_equal(h, name + ': y = L t + R x + S u with J t = M x + N u', o(S.C, S.D), Y, p)
def coherent(h, name, R, F):
    """the blocks, Z and the state-space of the realization R are those of F"""
    l, n, p, q = F.l, F.n, F.p, F.q
    d = dims(l, n, p, q)
    h.ensure(name + ': dimensions', f_and(*[f_same(IP.of(a), b) for a, b in ((R.l, l), (R.n, n), (R.p, p), (R.q, q))]))
    for x in NAMES:
        X = getattr(R, x)
        h.matrix_is('%s: %s' % (name, x), X, *d[x], F.B[x])
    Z = R.Z
    h.shape(name + ': size of Z', Z, l + n + p, l + n + q)
    off = dict(J=(0, 0), M=(0, l), N=(0, l + n), K=(l, 0), P=(l, l), Q=(l, l + n), L=(l + n, 0), R=(l + n, l), S=(l + n, l + n))
    for x in NAMES:
        r, c = d[x]
        a, b = map(IP.of, off[x])
        entries_equal(h, '%s: block %s of Z' % (name, x), lambda i, j: Z.entry(i + a, j + b), (lambda i, j: F.B[x](i, j).scale(-1 if x == 'J' else 1)), r, c if c != 1 else IP.of(1)) if not (c == IP1) else None
    ss_of(h, name + ': state-space', R.dSS, F)
    for x in 'ABCD': h.eq('%s: %sZ is %s of the state-space' % (name, x, x), getattr(R, x + 'Z'), getattr(R.dSS, x))
def system_is(h, name, S, n, p, q, X, Y):
    """the state-space S with the state x and the input u goes to the state X and has the output Y"""
    for nm, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q)): h.shape('%s: size of %s' % (name, nm), getattr(S, nm), r, c)
    x, u, k = vec('x'), vec('u'), IP.sym('v?')
    o = lambda A, B: lambda i: (A.entry(i, k) * x(k)).sum('v?', 0, n) + (B.entry(i, k) * u(k)).sum('v?', 0, q)
    entries_equal(h, name + ': states', o(S.A, S.B), X, n)
    entries_equal(h, name + ': outputs', o(S.C, S.D), Y, p)
def stack(F, t, x, y):
    l, n = F.l, F.n
    return lambda i: t(i).guard(f_and(f_ge(i), f_lt(i, l))) + x(i - l).guard(f_and(f_le(l, i), f_lt(i, l + n))) + y(i - l - n).guard(f_le(l + n, i))
def hu_is(h, R, F):
    """from the input to (t, x+, y)"""
    x, u = vec('x'), vec('u')
    t = F.tvec(x, u)
    X, Y = F.step(x, u, t)
    system_is(h, 'Hu', R.Hu, F.n, F.l + F.n + F.p, F.q, X, stack(F, t, X, Y))
def hzeta_is(h, R, F):
    """from the input to (t, x, y)"""
    x, u = vec('x'), vec('u')
    t = F.tvec(x, u)
    X, Y = F.step(x, u, t)
    system_is(h, 'Hzeta', R.Hzeta, F.n, F.l + F.n + F.p, F.q, X, stack(F, t, x, Y))
def errors_step(F):
    """implicit form whose only inputs are one additive error on each temporary, state and output"""
    x, e = vec('x'), vec('u')
    l, n, k = F.l, F.n, IP.sym('k?')
    w = IP.sym('w?')
    rhs = lambda i: (F.B['M'](i, w) * x(w)).sum('w?', 0, n) + e(i)
    t = lambda i: (F.Ji(i, k) * rhs(k)).sum('k?', 0, l)
    X, Y = F.step(x, lambda i: GE0, t)
    return (lambda i: X(i) + e(i + l)), (lambda i: Y(i) + e(i + l + n))
def hepsilon_is(h, R, F, S=None, name='Hepsilon'):
    X, Y = errors_step(F)
    system_is(h, name, R.Hepsilon if S is None else S, F.n, F.p, F.l + F.n + F.p, X, Y)
def gramians_are(h, R, F):
    A, B, C = [getattr(R.dSS, x).entry for x in 'ABC']
    h.lyapunov('Wo', R.Wo, F.n, lambda i, j: A(j, i), lambda i, j: (C('t?', i) * C('t?', j)).sum('t?', 0, F.p))
    h.lyapunov('Wc', R.Wc, F.n, A, lambda i, j: (B(i, 't?') * B(j, 't?')).sum('t?', 0, F.q))
def lt_inverse_contract(h):
    """the callers of mpf_matrix_lt_inverse rely on its contract (C02): the exact inverse of a unit lower triangular matrix"""
    def f(**k):
        L = next(iter(k.values()))
        if not isinstance(L, SMat): return NotImplemented
        g = libs.known_inverse(L)
        if g is None: return NotImplemented
        return SMat.gen(L.rows_, L.cols_, g, 'mp', 'mpf')
    h.c.contracts['fixif.func_aux.mpf_matrix_lt_inverse.mpf_matrix_lt_inverse'] = f
def no_rounding(h, name, *Ms):
    def th():
        for M in Ms:
            bad = [x for x in M.entry(IP.sym('i?'), IP.sym('j?')).names() if x in ('rnd', 'dbl', 'rd53', 'rd2w')]
            if bad: return 'a rounded value'
        return True
    h.c.oblige(name, th)
