"""C19: fixed-point formats deduced from the worst case peak gains"""
from vx.contract import *
from vx.sym import SList, SReal
from vx import sym, interp

ASSUME = ['machine arithmetic, and the logarithms, are treated as real arithmetic']
TRUSTED = ['the worst case peak gains are the ones of an external library: any positive matrix', 'definitions of the logarithm and of the integer parts: log2(z) <= e iff z <= 2^e; ceil and floor are the nearest integers above and below; a sum of positive terms is positive']
BOUNDED = [('data of the optimization problem', 'dimensions (l, n, p) in (0,1,1), (1,2,1), (0,1,2), (2,1,2)')]
M = 'fixif.SIF.Realization_FxP'
at = lambda nm: (lambda *a: GE.atom(nm, *a))
def fake(h, l, n, p, q, **systems):
    """any object with the dimensions and systems of a realization"""
    h.load('fixif.SIF')
    R = h.ver.loader.mods[M].R_FxP
    class Obj(R):
        pass
    o = Obj()
    o.l, o.n, o.p, o.q = l, n, p, q
    for k, x in systems.items(): setattr(o, k, x)
    h.c.memo['real parts'] = True
    h.c.memo['log precision'] = []
    return o
class System:
    """a system of which only the worst case peak gain is known"""
    def __init__(self, W): self.W, self.calls = W, []
    def WCPG(self, output_info=None):
        self.calls.append(output_info)
        return self.W
def parts(h, X, e, *more):
    """definitions of ceil and floor, for the numbers found in X, and an integer e"""
    for g in X:
        for t in g.terms:
            for a in t.at:
                if a.name not in ('ceil', 'floor'): continue
                x, v = a.args[0], GE.atom(a.name, *a.args)
                h.assume(f_rc('>=', v - x) if a.name == 'ceil' else f_rc('>=', x - v))
                h.assume(f_rc('>', x + 1 - v) if a.name == 'ceil' else f_rc('>', v + 1 - x))
                for k in (e,) + more:
                    if a.name == 'floor': h.assume(f_implies(f_rc('>=', x - k), f_rc('>=', v - k)))
                    else: h.assume(f_implies(f_rc('>=', k - x), f_rc('>=', k - v)))
def log(z): return GE.atom('log2', z.light())
def def_log(h, z, e):
    """log2(z) <= e iff z <= 2^e"""
    a, b = f_rc('>=', e - log(z)), f_rc('>=', sym.pow2(e) - z)
    h.assume(f_implies(a, b)); h.assume(f_implies(b, a))
def precise(h):
    P = list(h.c.memo.get('log precision', ()))
    h.ensure('the logarithms are computed with more bits than the gains have', len(P) > 0 and all(isinstance(x, int) and x >= 96 for x in P))
def extremes(h, g):
    """definition of the extreme values found in g: each is the one of an element, and bounds all of them"""
    for a in {a for t in g.light().terms for a in t.at if a.name in interp.EXTREMES}:
        mn, n, f = interp.EXTREMES[a.name]
        k = fresh('q')
        d = {'$%d' % x: y for x, y in enumerate(a.args)}
        n, f = n.subst(d), f.subst(dict(d, **{'$i': IP.sym(k)}))
        v = GE((Term(Fraction(1), (), (), (a,)),))
        dom = f_and(f_ge(IP.sym(k)), f_lt(k, n))
        h.assume(('all', (k,), f_implies(dom, f_rc('>=', f - v if mn else v - f))))
        h.assume(f_not(('all', (k,), f_implies(dom, f_rc('>', f - v if mn else v - f)))))
def split(h, g):
    """a number given by cases, in each of its cases"""
    g = g.light()
    for f in sorted({f for t in g.terms for f in t.g}, key=f_str): h.c.decide(f)
    return GE(tuple(Term(t.c, t.bv, tuple(f for f in t.g if f_syms(f) & set(t.bv) or not h.c.entails(f)), t.at) for t in g.terms if not any(h.c.entails(f_not(f)) for f in t.g))).light()
def gain(W, u, i, q):
    s = IP.sym('s?')
    return (W(i, s) * u(s, IP0)).sum('s?', 0, q)

def units(v):
    def setting(h):
        l, n, p, q = h.int('l', 0), h.int('n', 1), h.int('p', 1), h.int('q', 1)
        N = IP.of(l) + IP.of(n) + IP.of(p)
        S = System(h.mat('W', N, q))
        u = h.mat('u', q, 1)
        z = lambda i: gain(at('W'), at('u'), i, q)
        k = fresh('z')
        h.assume(('all', (k,), f_implies(f_and(f_ge(IP.sym(k)), f_lt(IP.sym(k), N)), f_rc('>', z(IP.sym(k))))))
        return fake(h, l, n, p, q, Hzeta=S), S, u, N, z
    def elem(h, what, L, N):
        h.ensure(what + ': one per variable', f_same(len(L) if isinstance(L, list) else L.count(), N))
        i = IP.sym(fresh('i'))
        h.assume(f_and(f_ge(i), f_lt(i, N)))
        e = sym.to_real(L[mk_int(i)])
        h.ensure(what + ': integers', e.kind == 'int')
        return i, e.ge.light()
    def body(h):
        o, S, u, N, z = setting(h)
        oi = {}
        L = o.computeNaiveMSB(u, oi)
        precise(h)
        h.ensure('one computation of the gain, with the informations asked', len(S.calls) == 1 and S.calls[0] is oi)
        i, m = elem(h, 'MSB', L, N)
        parts(h, [m], m, m - 1)
        for e in (m, m - 1): def_log(h, z(i), e)
        h.ensure('2^MSB is at least the bound', f_rc('>=', sym.pow2(m) - z(i)))
        h.ensure('2^(MSB-1) is not', f_rc('>', z(i) - sym.pow2(m - 1)))
        h.entries('the bounds of the inputs are not changed', u, at('u'))
    v.unit('computeNaiveMSB', body)
    def body(h):
        o, S, u, N, z = setting(h)
        k = IP.sym('zz?')
        up = lambda i: sym.pow2(GE.atom('ceil', log(z(i))))
        k = fresh('z')
        h.assume(('all', (k,), f_implies(f_and(f_ge(IP.sym(k)), f_lt(IP.sym(k), N)), f_rc('>', up(IP.sym(k)) - z(IP.sym(k))))))
        L = o._w_tilde(u)
        precise(h)
        i, t = elem(h, 'threshold', L, N)
        m = GE.atom('ceil', log(z(i)))
        w = GE.ofint(IP.sym(fresh('w')))
        gap = up(i) - z(i)
        k = m + 1 - w
        parts(h, [t], k)
        a, b = f_rc('>=', log(gap) - k), f_rc('>=', gap - sym.pow2(k))
        h.assume(f_implies(a, b)); h.assume(f_implies(b, a))
        h.ensure('from the threshold, one unit in the last place separates the bound from the power of two', f_implies(f_rc('>=', w - t), b))
        h.ensure('under the threshold, it does not', f_implies(b, f_rc('>=', w - t)))
    v.unit('_w_tilde', body)

    def naive(h, l, n, p, W, E=None):
        """the MSB and the thresholds are the ones of their contracts: integers m(i), t(i)"""
        N = IP.of(l) + IP.of(n) + IP.of(p)
        u = object()
        def result(nm):
            def f(self, u_bar, output_info=None):
                h.ensure('%s: the bounds of the inputs are given' % nm, u_bar is u)
                return SList(mk_int(N), lambda i: SReal(GE.atom(nm, IP.of(i)), 'int'))
            return f
        h.c.contracts[M + '.R_FxP.computeNaiveMSB'] = result('m')
        h.c.contracts[M + '.R_FxP._w_tilde'] = result('t')
        return fake(h, l, n, p, None, Hepsilon=System(W)), u, N
    def body(h):
        l, n, p = h.int('l', 0), h.int('n', 1), h.int('p', 1)
        W = h.mat('W', p, IP.of(l) + IP.of(n) + IP.of(p))
        eps = h.mat('eps', p, 1)
        o, u, N = naive(h, l, n, p, W)
        w = sym.to_real(o.optimalUniformWL(u, eps))
        h.ensure('an integer', w.kind == 'int')
        w = split(h, w.ge)
        dom = lambda j: f_and(f_ge(j), f_lt(j, p))
        def err(j, e, some=None):
            """error of output j with words of e bits, whose weight doubles under the threshold"""
            s = IP.sym('s?')
            x = at('W')(j, s) * sym.pow2(at('m')(s) - e)
            under = x.guard(f_rc('>', at('t')(s) - e))
            return (under if some == 'under' else x if some == 'all' else x + under).sum('s?', 0, N)
        E = lambda j: at('eps')(j, IP0)
        k = fresh('j')
        j = IP.sym(k)
        X = log(err(j, GE0, 'all')) - log(E(j))
        def every(f): h.assume(('all', (k,), f_implies(dom(j), f)))
        every(f_rc('>=', GE.atom('ceil', X) - X)); every(f_rc('>', X + 1 - GE.atom('ceil', X)))
        for e in (w, w - 1, w - 2):
            a, b = f_rc('>=', e - X), f_rc('>=', E(j) - err(j, e, 'all'))
            every(f_implies(a, b)); every(f_implies(b, a))
            every(f_rc('>=', err(j, e, 'under'))); every(f_rc('>=', err(j, e, 'all') - err(j, e, 'under')))
        y = IP.sym(fresh('j'))
        h.assume(dom(y))
        h.ensure('the errors are at most the bounds', f_rc('>=', E(y) - err(y, w)))
        h.ensure('they are not under the bounds with one bit less', f_not(('all', (k,), f_implies(dom(j), f_rc('>', E(j) - err(j, w - 1))))))
        h.entries('the bounds are not changed', eps, at('eps'))
    v.unit('optimalUniformWL', body)

    def files(h):
        """the template is the one of the repository; what is written is kept"""
        written = {}
        class File:
            def __init__(self, name): self.name = name
            def __enter__(self): return self
            def __exit__(self, *a): return False
            def write(self, t): written[self.name] = written.get(self.name, '') + t
            def close(self): pass
        def fopen(name, mode='r', *a, **k):
            if 'w' in mode: return File(name)
            return open(name, mode)
        h.c.memo['open'] = fopen
        return written
    def body(h, one):
        l, n = h.int('l', 0), h.int('n', 1)
        p = 1 if one else h.int('p', 2)
        W = h.mat('W', p, IP.of(l) + IP.of(n) + IP.of(p))
        eps = h.mat('eps', p, 1)
        o, u, N = naive(h, l, n, p, W)
        files(h)
        h.c.contracts[M + '.generateAMPLParam'] = lambda **k: 'param'
        L = o.optimalWL(u, eps)
        i, w = elem(h, 'word-lengths', L, N)
        k = fresh('j')
        j = IP.sym(k)
        share = lambda j: at('W')(j, i) * sym.pow2(at('m')(i)) * GE.ofint(N)
        E = lambda j: at('eps')(j, IP0)
        X = lambda j: log(share(j)) - log(E(j))
        every = lambda f: h.assume(('all', (k,), f_implies(dom(j), f)))
        dom = lambda j: f_and(f_ge(j), f_lt(j, p))
        extremes(h, w)
        every(f_rc('>=', GE.atom('ceil', X(j)) - X(j))); every(f_rc('>', X(j) + 1 - GE.atom('ceil', X(j))))
        for e in (w, w - 1):
            a, b = f_rc('>=', e - X(j)), f_rc('>=', E(j) - share(j) * sym.pow2(-e))
            every(f_implies(a, b)); every(f_implies(b, a))
        y = IP.sym(fresh('j'))
        h.assume(dom(y))
        h.ensure('no output has more than its share of the error', f_rc('>=', E(y) - share(y) * sym.pow2(-w)))
        h.ensure('with one bit less, an output would', f_not(('all', (k,), f_implies(dom(j), f_rc('>=', E(j) - share(j) * sym.pow2(1 - w))))))
        h.entries('the bounds are not changed', eps, at('eps'))
    v.unit('optimalWL: one output', lambda h: body(h, True))
    v.unit('optimalWL: several outputs', lambda h: body(h, False))

    def parse(t):
        """the parameters of an AMPL data file: name -> value, or {indices: value}"""
        import re
        t = re.sub(r'#[^\n]*', '', t)
        if t.split(None, 1)[0] != 'data;': raise ValueError('no data')
        val = lambda x: sym.Ctx.cur.ints[x][0] if x in sym.Ctx.cur.ints else SReal(sym.text_value(x))
        r = {}
        for st in t.split(None, 1)[1].split(';'):
            if not st.strip(): continue
            head, body = st.split(':=')
            kw, name, *cols = head.replace(':', ' : ').split()
            body = body.split()
            if kw != 'param' or name in r: raise ValueError('param')
            if cols:
                cols = [int(x) for x in cols[1:]]
                if len(body) % (len(cols) + 1): raise ValueError('a row is not complete')
                r[name] = {(int(body[i]), c): val(body[i + 1 + x]) for i in range(0, len(body), len(cols) + 1) for x, c in enumerate(cols)}
                if len(r[name]) != len(body) // (len(cols) + 1) * len(cols): raise ValueError('an index appears twice')
            elif len(body) == 1: r[name] = val(body[0])
            else:
                if len(body) % 2: raise ValueError('an index has no value')
                r[name] = {(int(body[i]),): val(body[i + 1]) for i in range(0, len(body), 2)}
                if len(r[name]) != len(body) // 2: raise ValueError('an index appears twice')
        return r
    def body(h, l, n, p):
        N = l + n + p
        W = h.mat('W', p, N)
        eps = h.mat('eps', p, 1)
        o, u, _ = naive(h, l, n, p, W)
        F = files(h)
        wmax = h.int('wmax', 1)
        o.optimalWL(u, eps, AMPLfilename='a.dat', AMPLpath='there', wmax=wmax)
        h.ensure('one file is written', list(F) == ['there/a.dat'])
        try: D = parse(F['there/a.dat'])
        except (ValueError, KeyError, IndexError) as e:
            h.fail('the file is one of AMPL data', str(e))
            return
        h.ensure('the parameters of the model', sorted(D) == ['E', 'eps', 'np', 'p', 'u', 'wtilde'])
        def same(nm, d):
            x = D.get(nm)
            x = x if isinstance(x, dict) else {(): x}
            h.ensure('the indices of %s' % nm, sorted(x) == sorted(d))
            for k in sorted(d):
                if k in x: h.eq('%s%s' % (nm, list(k)), sym.to_real(x[k]).ge, d[k])
        same('p', {(): GE.const(p)}); same('np', {(): GE.const(N)})
        same('u', {(i + 1,): GE.ofint(IP.of(wmax)) for i in range(N)})
        c = IP.const
        same('wtilde', {(i + 1,): at('t')(c(i)) for i in range(N)})
        same('eps', {(j + 1,): at('eps')(c(j), c(0)) for j in range(p)})
        same('E', {(j + 1, i + 1): at('W')(c(j), c(i)) * sym.pow2(at('m')(c(i))) for j in range(p) for i in range(N)})
    for d in ((0, 1, 1), (1, 2, 1), (0, 1, 2), (2, 1, 2)):
        v.unit('optimalWL: data of the optimization problem %d+%d+%d' % d, lambda h, d=d: body(h, *d))
