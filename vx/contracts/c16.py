"""C16: simulation, algorithm texts and C code of a realization"""
import sys, os
from vx.contract import *
from vx.contracts.sifs import *
from vx.contracts.texts import *

ASSUME = ['machine arithmetic is treated as real arithmetic', 'the algorithm with time indices; the C function is read with the semantics of C restricted to double assignments']
TRUSTED = ['jinja2, latex.jinja2 and pylatexenc (run as they are, on the texts)', 'ctypes and the C compiler (checked on generated inputs only)']
BOUND = 'dimensions at most (l, n, p, q) = (3, 3, 2, 2), all coefficients'
BOUNDED = [('SoP', 'at most 4 terms, all coefficients'), ('algorithm', BOUND), ('C function', BOUND)]

class Filt:
    """what the generators read of the filter"""
    def __init__(self, siso): self.siso = siso
    name = 'F'; dTF = 'H(z)'; dSS = 'a state-space'
    def isSISO(self): return self.siso

class Real:
    """a realization of concrete dimensions; pattern(x, i, j) -> 'c' (any coefficient but 0, 1 and -1), '?' (any) or a number"""
    def __init__(self, h, l, n, p, q, pattern, ek='float'):
        self.h, self.size = h, (l, n, p, q)
        h.c.memo['lazy vectorize'] = True        # the trivial coefficients are another matter (C17)
        B = {}
        for x, (r, c) in dims(l, n, p, q).items():
            e = {}
            for i in range(r):
                for j in range(c):
                    k = pattern(x, i, j)
                    if x == 'J' and i <= j: k = int(i == j)
                    if k in ('c', '?'):
                        g = GE.atom(x, i, j)
                        if k == 'c':
                            for v in (0, 1, -1): h.assume(f_not(f_rc('==', g - v)))
                    else: g = GE.const(k)
                    e[i, j] = g
            B[x] = e
        self.B = B
        self.mats = tuple(SMat.gen(r, c, lambda i, j, x=x: self.B[x].get((i.value, j.value), GE0), 'matrix', ek) for x, (r, c) in dims(l, n, p, q).items())
        self.R = h.load('fixif.SIF').Realization(Filt(p == 1 and q == 1), self.mats)
    def rows(self):
        """[(variable, {variable: coefficient})]; variables: ('t', i), ('x', i), ('u', i), ('x+', i), ('y', i)"""
        l, n, p, q = self.size
        out = []
        for k, (T, X, U) in (('t', 'JMN'), ('x+', 'KPQ'), ('y', 'LRS')):
            for i in range({'t': l, 'x+': n, 'y': p}[k]):
                c = {('t', j): (-self.B[T][i, j] if k == 't' else self.B[T][i, j]) for j in range(l) if k != 't' or j != i}
                c.update({('x', j): self.B[X][i, j] for j in range(n)}); c.update({('u', j): self.B[U][i, j] for j in range(q)})
                out.append(((k, i), {v: g for v, g in c.items() if g.light().terms}))
        return out
    def expected(self, x0, u0):
        val = {}
        l, n, p, q = self.size
        val.update({('x', i): x0(i) for i in range(n)}); val.update({('u', i): u0(i) for i in range(q)})
        for v, c in self.rows():
            if v[0] == 't':
                val[v] = GE0
                for w, g in c.items(): val[v] = val[v] + g * val[w]
        for v, c in self.rows():
            if v[0] != 't':
                val[v] = GE0
                for w, g in c.items(): val[v] = val[v] + g * val[w]
        return val
    def names(self, f):
        """{text of a variable: variable}"""
        l, n, p, q = self.size
        return {f(k, i, m): (k, i) for k, m in (('t', l), ('x', n), ('u', q), ('x+', n), ('y', p)) for i in range(m)}
    def canonical(self, text):
        """the next value of a state is also named xp"""
        return re.sub(r'\bx(\d*)p\(k\+1\)', r'x\1(k+1)', text)

def timed(k, i, m):
    return k[0] + (str(i + 1) if m > 1 else '') + {'t': '(k+1)', 'x+': '(k+1)'}.get(k, '(k)')
def unlatex(text):
    m = re.search(r'\\Begin\{(.*)\}\s*\\end\{algorithm\}', text, flags=re.S)
    if not m: raise Bad('no algorithm in the LaTeX text')
    s = re.sub(r'\\tcp\{[^}]*\}', ' ', m[1]).replace('\\\\', '\n')
    return re.sub(r'_\{(\d+)\}', r'\1', s.replace('$\\leftarrow$', '<-').replace('\\leftarrow', '<-').replace('$', ''))
X0, U0 = (lambda i: GE.atom('x', i)), (lambda i: GE.atom('u', i))

def check(h, name, what, run):
    """reading errors are violations"""
    try: return run()
    except Bad as e:
        h.fail(name + ': the text is read', str(e))
def same_terms(h, name, R, log, N):
    """each non null coefficient appears once with its variable, in the row of the variable it defines"""
    want = {v: sorted(c) for v, c in R.rows()}
    got = {N.get(v, v): sorted(N.get(w, w) for w in used) for v, used in log}
    h.c.oblige(name + ': each term appears once, null ones are dropped', lambda: True if got == want else 'computed: %s, expected: %s' % (got, want))

def check_text(h, name, R, text, f=timed, clean=None):
    if not isinstance(text, str): return h.fail(name, 'not a text')
    N = R.names(f)
    inv = {v: s for s, v in N.items()}
    def run():
        body = '\n'.join(l for l in text.split('\n') if not re.fullmatch(r'/ [A-Za-z ]+ /', l.strip())) if clean is None else clean(text)
        env = {s: R0[v] for s, v in N.items() if v in R0}
        log = run_text(R.canonical(body), env)
        return env, log
    R0 = {k: v for k, v in R.expected(X0, U0).items() if k[0] in 'xu' and k[0] != 'x+'}
    r = check(h, name, text, run)
    if r is None: return
    env, log = r
    val = R.expected(X0, U0)
    for v, s in inv.items():
        if v[0] in 'xu': continue
        h.eq('%s: %s' % (name, s), SReal(env[s]) if s in env else 'not computed', SReal(val[v]))
    same_terms(h, name, R, log, N)

def check_untimed(h, name, R, text, swapped=None, clean=None):
    """the text without time: temporaries and next states are those of the recurrence when the lines are executed in order, the states
    being updated in place only when all of them can be"""
    if not isinstance(text, str): return h.fail(name, 'not a text')
    l, n, p, q = R.size
    f = lambda k, i, m: k[0] + (str(i + 1) if m > 1 else '')
    ini = {f(k, i, m): g(i) for k, m, g in (('x', n, X0), ('u', q, U0)) for i in range(m)}
    body = '\n'.join(s for s in text.split('\n') if not re.fullmatch(r'/ [A-Za-z ]+ /', s.strip())) if clean is None else clean(text)
    r = check(h, name, text, lambda: run_inplace(body, ini))
    if r is None: return
    env, log, swap = r
    new = {v for v, used in log}
    nxt = [f('x', i, n) + 'p' for i in range(n)]
    p_ = any(v in new for v in nxt)
    if swapped is not None: h.c.oblige(name + ': the next states are copied at the end if they have other names', lambda: True if swap == p_ else 'copied: %s' % swap)
    val = R.expected(X0, U0)
    for i in range(l): h.eq('%s: t%d' % (name, i + 1), SReal(env.get(f('t', i, l), GE.atom('not computed'))), SReal(val['t', i]))
    for i in range(n): h.eq('%s: next x%d' % (name, i + 1), SReal(env.get(nxt[i] if p_ else f('x', i, n), GE.atom('not computed'))), SReal(val['x+', i]))
    for i in range(p): h.eq('%s: y%d with the states before their update' % (name, i + 1), SReal(env.get(f('y', i, p), GE.atom('not computed'))), SReal(val['y', i]))

def Z(k): return (lambda x, i, j: k)
def mixed(s):
    vals = ['c', 0, 1, 'c', -1, 'c', 0, 'c', 1, 'c', 'c']
    def f(x, i, j): return vals[(7 * ord(x) + 5 * i + 3 * j + s) % len(vals)]
    return f
def ptri(kind):
    def f(x, i, j):
        if x != 'P': return 'c'
        if kind == 'upper' and i > j or kind == 'strict' and i >= j or kind == 'lower' and i < j or kind == 'zero' or kind == 'corner' and (i, j) != (2, 0) and i > j: return 0
        return 1 if kind == 'identity' and i == j else 0 if kind == 'identity' else 'c'
    return f
CASES = [('generic', Z('c'), (2, 2, 1, 1)), ('generic', Z('c'), (1, 2, 2, 2)), ('generic', Z('c'), (3, 1, 1, 2)), ('generic', Z('c'), (0, 2, 2, 1)), ('generic', Z('c'), (0, 1, 1, 1)), ('generic', Z('c'), (1, 3, 1, 1)),
         ('identity P', ptri('identity'), (1, 3, 1, 1)), ('upper P', ptri('upper'), (2, 2, 2, 1)), ('strictly upper P', ptri('strict'), (1, 3, 1, 2)), ('lower P', ptri('lower'), (1, 2, 1, 1)), ('null P', ptri('zero'), (1, 2, 1, 1)), ('corner', ptri('corner'), (1, 3, 1, 1)),
         ('null', Z(0), (1, 2, 2, 1)), ('ones', Z(1), (2, 2, 1, 2)), ('opposites', Z(-1), (2, 2, 1, 1))] + [('mixed %d' % s, mixed(s), d) for s, d in ((0, (2, 2, 1, 1)), (1, (2, 3, 2, 2)), (2, (3, 2, 1, 1)), (3, (2, 3, 1, 2)), (4, (1, 2, 2, 1)), (5, (0, 3, 1, 1)))]
def tag(c): return '%s, (l, n, p, q) = %s' % (c[0], c[2])

def units(v):
    # ---- simulation
    for tg in ('matrix', 'array'):
        def body(h, tg=tg):
            l, n, p, q = sizes(h)
            T = h.int('T', 1)
            R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q)))
            F = Form.atoms('', l, n, p, q)
            u = h.mat('u', q, T, tg)
            t, i = IP.sym('t$'), IP.sym('i$')
            U = lambda tt: (lambda j: GE.atom('u', j, tt))
            Xs = lambda tt: (lambda j: GE.atom('X', tt, j))
            nm = h.recurrence('X', ('i$',), GE0, F.step(Xs(t - 1), U(t - 1))[0](i))
            X = lambda tt: (lambda j: GE.atom(nm, tt, j))
            y = R.simulate(u)
            for s in list(h.c.rules.defs):
                ps = h.c.rules.defs[s][0]
                if s == nm: continue
                for last in (T, IP.of(T) - 1, IP.of(T) - 2):
                    if len(ps) == 3 and h.same_sequence(s, lambda t, i, j: X(t)(i), ps, lambda i, j: [f_lt(i, n), f_eq(j)], last): break
                    elif len(ps) == 2 and h.same_sequence(s, lambda t, i: X(t)(i), ps, lambda i: [f_lt(i, n)], last): break
            h.matrix_is('y(k) = L t + R x(k) + S u(k) with J t = M x + N u and x(k+1) = K t + P x + Q u', y, p, T, lambda i, k: F.step(X(k), U(k))[1](i))
            h.entries('the input is not changed', u, at('u'))
        v.unit('simulate(%s)' % tg, body)
    def body(h):
        l, n, p, q = sizes(h)
        R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q)))
        q2 = h.int('q2', 1)
        h.assume(f_not(f_same(q, q2)))
        h.raises('ValueError', ValueError, R.simulate, h.mat('u', q2, h.int('T', 1)))
    v.unit('simulate: wrong number of inputs', body)
    # ---- sums of products
    for ek in ('float', 'int'):
        for m in (1, 2, 3) if ek == 'float' else (2,):
            def body(h, m=m, ek=ek):
                cs = [h.real('c%d' % i, ek) for i in range(m)]
                nv = ['a%d(k)' % i for i in range(m)]
                for res in ('y(k)', 'a0(k)'):
                    s = h.load('fixif.SoP').SoP(cs, nv, res).toAlgoStr()
                    val = GE0
                    for c, x in zip(cs, nv): val = val + c.ge * GE.atom('v', x)
                    if s == '':
                        h.zero('SoP(%s): no text only if the result is the variable' % res, val - GE.atom('v', res)); continue
                    env = {x: GE.atom('v', x) for x in nv}
                    def run(s=s, env=env):
                        (w, ts), = statements(s, '<-')
                        r, used = Reader(ts), []
                        x = r.expr(env, used)
                        if r.peek()[0] != 'end': raise Bad('unexpected %r' % (r.peek()[1],))
                        return w, x, used
                    r = check(h, 'SoP', s, run)
                    if r is None: return
                    w, x, used = r
                    h.c.oblige('SoP: the result is %s' % res, lambda: w == res)
                    h.zero('SoP(%s): the sum of the products' % res, x - val)
                    for c, a in zip(cs, nv):
                        k = used.count(a)
                        h.ensure('SoP(%s): a term appears once if its coefficient is not null, otherwise not at all' % res, f_implies(f_rc('==', c.ge), T if k == 0 else F))
                        h.ensure('SoP(%s): a non null term appears once' % res, f_implies(f_not(f_rc('==', c.ge)), T if k == 1 else F))
            v.unit('SoP.toAlgoStr, %d terms, %s' % (m, ek), body)
    def body(h):
        h.raises('ValueError', ValueError, h.load('fixif.SoP').SoP, [1.0, 2.0], ['a'], 'y')
    v.unit('SoP: lists of different sizes are refused', body)
    # ---- algorithm texts
    for case in CASES:
        def body(h, case=case):
            R = Real(h, *case[2], case[1])
            check_text(h, 'algorithmTxt', R, R.R.algorithmTxt())
            check_text(h, 'algorithmTxt(comments=False)', R, R.R.algorithmTxt(comments=False))
            check_text(h, 'algorithmTxt(coefFormat)', R, R.R.algorithmTxt(coefFormat='%.20g'))
            check_text(h, 'algorithmLaTeX', R, R.R.algorithmLaTeX(withTime=True), clean=unlatex)
        v.unit('algorithm text, ' + tag(case), body)
        def body(h, case=case):
            R = Real(h, *case[2], case[1])
            check_untimed(h, 'algorithmTxt(withTime=False)', R, R.R.algorithmTxt(withTime=False))
            check_untimed(h, 'algorithmLaTeX', R, R.R.algorithmLaTeX(), True, unlatex)
        v.unit('algorithm text without time, ' + tag(case), body)
    def body(h, full=False):
        l, n, p, q = sizes(h)
        B = blocks(h, '', l, n, p, q)
        if full:
            i, j = h.int('i0', 0), h.int('j0', 0)
            h.assume(f_and(f_lt(j, i), f_lt(i, n), f_not(f_rc('==', GE.atom('P', i, j)))))
        else:
            h.assume(('all', ('u0', 'u1'), f_implies(f_and(f_ge('u0'), f_lt('u0', 'u1'), f_lt('u1', n)), f_rc('==', GE.atom('P', 'u1', 'u0')))))
        r = h.load('fixif.SIF').SIF(tuple(B)).isPnut()
        h.ensure('isPnut says whether an entry of P below its diagonal is not null', f_same(1 if full else 0, int(bool(r))))
    v.unit('isPnut: no entry below the diagonal', body)
    v.unit('isPnut: an entry below the diagonal', lambda h: body(h, True))
    for d in ((0, 1, 1, 1),):
        def body(h, d=d):
            R = Real(h, *d, Z('?'))
            s = R.R.algorithmTxt()
            N = R.names(timed)
            env = {x: {'x': X0, 'u': U0}[k[0]](k[1]) for x, k in N.items() if k[0] in ('x', 'u')}
            r = check(h, 'algorithmTxt', s, lambda: run_text(R.canonical('\n'.join(l for l in s.split('\n') if not l.startswith('/'))), env))
            if r is None: return
            val = R.expected(X0, U0)
            for x, k in N.items(): h.zero('%s' % x, env.get(x, GE.atom('not computed')) - val[k])
        v.unit('algorithm text, any coefficient, (l, n, p, q) = %s' % (d,), body)
    def body(h):
        R = Real(h, 1, 2, 1, 1, Z('c'), 'int')
        check_text(h, 'algorithmTxt', R, R.R.algorithmTxt())
    v.unit('algorithm text, integer coefficients', body)
    # ---- C function
    for case in CASES + [('integers', Z('c'), (1, 2, 1, 1))]:
        def body(h, case=case):
            l, n, p, q = case[2]
            R = Real(h, *case[2], case[1], 'int' if case[0] == 'integers' else 'float')
            code = R.R.implementCdouble('myFunc')
            check_c(h, R, code, 'myFunc')
        v.unit('C function, ' + tag(case), body)
    # ---- execution of the C function
    for q1 in (True, False):
        for p1 in (True, False):
            for ek in ('float', 'int'):
                def body(h, q1=q1, p1=p1, ek=ek):
                    n, p, q, T = h.int('n', 1), 1 if p1 else h.int('p', 2), 1 if q1 else h.int('q', 2), h.int('T', 1)
                    Cls = h.load('fixif.SIF').Realization
                    R = Cls.__new__(Cls)
                    R._l, R._n, R._p, R._q, R._Cdouble = 1, n, p, q, None
                    A, B, C, D = [at(x) for x in 'ABCD']
                    def made(self):
                        self._Cdouble = cfunction(h, n, p, q, A, B, C, D)
                    h.c.contracts['fixif.SIF.Realization_implementation.R_implementation.makeCdouble'] = made
                    u = h.mat('u', q, T, 'matrix', ek)
                    t, i, k = IP.sym('t$'), IP.sym('i$'), IP.sym('k?')
                    nm = h.recurrence('X', ('i$',), GE0, (A(i, k) * GE.atom('X', t - 1, k)).sum('k?', 0, n) + (B(i, k) * GE.atom('u', k, t - 1)).sum('k?', 0, q))
                    X = lambda tt: (lambda j: GE.atom(nm, tt, j))
                    for again in ('', ' (second call)'):
                        y = R.runCdouble(u)
                        for s in list(h.c.rules.defs):
                            ps = h.c.rules.defs[s][0]
                            if s == nm: continue
                            if len(ps) == 3: h.same_sequence(s, lambda t, i, j: X(t)(i), ps, lambda i, j: [f_lt(i, n), f_eq(j)], T)
                            elif len(ps) == 2: h.same_sequence(s, lambda t, i: X(t)(i), ps, lambda i: [f_lt(i, n)], T)
                        h.matrix_is('runCdouble: outputs of the C function, called in turn from null states' + again, y, p, T, lambda i, t: (C(i, k) * X(t)(k)).sum('k?', 0, n) + (D(i, k) * GE.atom('u', k, t)).sum('k?', 0, q))
                v.unit('runCdouble, %s, %s, %s' % ('one input' if q1 else 'inputs', 'one output' if p1 else 'outputs', ek), body)
def cfunction(h, n, p, q, A, B, C, D):
    """contract of the generated function (established above): y = C x + D u, x <- A x + B u"""
    Pointer = libs.Pointer
    k = IP.sym('k?')
    def f(*args):
        args = list(args)
        if len(args) != (2 if entails_one(p) else 3): raise TypeError('wrong number of arguments')
        def array(a, r):
            if not isinstance(a, Pointer): raise TypeError('a pointer is expected')
            if not h.c.entails(f_and(f_same(a.m.rows_, r), f_same(a.m.cols_, 1))): raise Unsupported('pointer on an array of another size')
            return a.m
        yv = None if entails_one(p) else array(args.pop(0), p)
        if entails_one(q):
            if isinstance(args[0], Pointer): raise TypeError('a number is expected')
            ug = sym.to_real(args[0]).ge
            ue = lambda j: ug
        else:
            um = array(args[0], q)
            ue = lambda j: um.entry(j, IP0)
        x = array(args[1], n)
        o = lambda A, B: lambda i, j: (A(i, k) * x.entry(k, IP0)).sum('k?', 0, n) + (B(i, k) * ue(k)).sum('k?', 0, q)
        y1 = SMat.gen(p, 1, o(C, D), 'array'); x1 = SMat.gen(n, 1, o(A, B), 'array')
        x[:, :] = x1
        if yv is None: return y1.scal(0, 0)
        yv[:, :] = y1
    return f
def entails_one(p): return not isinstance(p, sym.SInt) and p == 1
def check_c(h, R, code, name):
    l, n, p, q = R.size
    args = {'xk': ('array', {i: X0(i) for i in range(n)}, n), 'u': ('scalar', U0(0)) if q == 1 else ('array', {i: U0(i) for i in range(q)}, q)}
    if p > 1: args['y'] = ('array', {}, p)
    r = check(h, 'C', code, lambda: run_c(code, name, args))
    if r is None: return
    ret, params, value, env, log = r
    h.c.oblige('C: type and parameters of the function', lambda: True if (ret, params) == (('double', ['u', 'xk']) if p == 1 else ('void', ['y', 'u', 'xk'])) else '%s %s' % (ret, params))
    val = R.expected(X0, U0)
    if p == 1: h.zero('C: value returned', (value if value is not None else GE.atom('nothing')) - val['y', 0])
    else:
        for i in range(p): h.zero('C: y[%d]' % i, env.get('y[%d]' % i, GE.atom('nothing')) - val['y', i])
    for i in range(n): h.zero('C: xk[%d] is the next state' % i, env['xk[%d]' % i] - val['x+', i])
    for i in range(q):
        s = 'u' if q == 1 else 'u[%d]' % i
        h.zero('C: the input is not changed', env[s] - U0(i))
