"""C26: random systems, filters and specifications"""
from vx.contract import *
from vx.contracts.lti import *

BOUNDED = [(', poles', 'at most 5 states (6 in the thorough tier), all draws, masks that keep everything'), ('random_dSS(', 'at most 2 states, all draws, any numbers of inputs and outputs'), ('iter_', 'two objects'), ('random_Filter, name', 'three names')]
ASSUME = ['rand, random_sample draw in the open interval (0, 1): a draw that is exactly null (probability 2^-53) gives the pole -1',
          'randn draws no null value', 'T \\ A ends: the loops that draw again are proved for the draws after which they end',
          'machine arithmetic is treated as real arithmetic (the similarity of A to its poles is exact)']
TRUSTED = ['numpy.random: after seed(s), the k-th draw is a function of s and k; randint(a, b) draws in [a, b) and uniform(a, b) between a and b',
           'scipy.signal.butter and ellip are functions of their arguments']

def circle(t, gamma):
    """cos(x)^2 + sin(x)^2 = 1"""
    for i, a in enumerate(t.at):
        if a.name != 'sin': continue
        for j in range(i + 1, len(t.at)):
            if t.at[j].name == 'sin' and str(t.at[j]) == str(a):
                rest = [x for k, x in enumerate(t.at) if k not in (i, j)]
                return [Term(t.c, t.bv, t.g, rest), Term(-t.c, t.bv, t.g, rest + [Atom('cos', a.args)] * 2)]
    return None
def coefficients(g, P, Q, n, i, j):
    """g = sum over a, b of P(i, a) * L[a][b] * Q(b, j): L, or None"""
    L = [[[] for _ in range(n)] for _ in range(n)]
    for t in expand(g):
        p = [k for k, a in enumerate(t.at) if a.name == P]
        q = [k for k, a in enumerate(t.at) if a.name == Q]
        if len(p) != 1 or len(q) != 1 or t.bv: return None
        (u, x), (y, w) = [IP.of(z) for z in t.at[p[0]].args], [IP.of(z) for z in t.at[q[0]].args]
        if not (x.isconst and y.isconst and u == IP.of(i) and w == IP.of(j)): return None
        L[x.value][y.value].append(Term(t.c, t.bv, t.g, [a for k, a in enumerate(t.at) if k not in (p[0], q[0])]))
    return [[GE(x) for x in r] for r in L]
def is_similar(h, name, A, n):
    """there are a regular matrix T (the drawn one, or its inverse) and a matrix L made of blocks (pole) and [a b; -b a] of poles inside
    of the unit circle such that A = T^-1 L T"""
    c = h.c
    def ok(f): return c.entails(f)
    def blocks(L):
        i = 0
        Z = lambda g: ok(f_rc('==', g))
        while i < n:
            two = i < n - 1 and not (Z(L[i][i + 1]) and Z(L[i + 1][i]))
            w = 2 if two else 1
            for k in range(n):
                for r in range(i, i + w):
                    if not i <= k < i + w and not (Z(L[r][k]) and Z(L[k][r])): return 'the entries (%d, %d) of the blocks are not null' % (r, k)
            if not two:
                if not (ok(f_rc('>', GE1 - L[i][i])) and ok(f_rc('>', GE1 + L[i][i]))): return 'the pole %s is not inside of the unit circle' % L[i][i]
            else:
                a, b = L[i][i], L[i][i + 1]
                if not (Z(L[i + 1][i + 1] - a) and Z(L[i + 1][i] + b)): return 'the block %d is not [a b; -b a]' % i
                if not ok(f_rc('>', GE1 - norm(c, a * a + b * b))): return 'the poles %s +- i %s are not inside of the unit circle' % (a, b)
            i += w
        return True
    def th():
        c.gamma += [f for i in range(n) for j in range(n) for t in A.entry(IP.of(i), IP.of(j)).terms for x in t.at if x.name in ('cos', 'sin') for f in (f_rc('>=', GE1 - GE([Term(1, (), (), (x,))])), f_rc('>=', GE1 + GE([Term(1, (), (), (x,))])))]
        E = [[A.entry(IP.of(i), IP.of(j)) for j in range(n)] for i in range(n)]
        why = 'A is not T^-1 L T for a drawn matrix T'
        if n == 1: 
            r = blocks([[norm(c, E[0][0])]])
            if r is True: return True
            why = r
        for M, Inv in c.memo.get('invs', ()):
            if not (M.rows_ == IP.of(n)): continue
            inv = Inv if isinstance(Inv, str) else next(iter(Inv(IP0, IP0).names()))
            for T in M.entry(IP.sym('$i'), IP.sym('$j')).names():
                for P, Q in ((inv, T), (T, inv)):
                    L = coefficients(E[0][0], P, Q, n, 0, 0)
                    if L is None: continue
                    if all(ok(f_rc('==', E[i][j] - sum_((GE.atom(P, i, a) * L[a][b] * GE.atom(Q, b, j) for a in range(n) for b in range(n))))) for i in range(n) for j in range(n)):
                        r = blocks([[norm(c, x) for x in y] for y in L])
                        if r is True: return True
                        why = r
        return why
    c.oblige(name, th)
def sum_(it):
    s = GE0
    for x in it: s = s + x
    return s
def norm(c, g):
    """a * inv(a) = 1, cos(x)^2 + sin(x)^2 = 1, when they show"""
    todo, out = list(g.terms), []
    while todo:
        t = todo.pop()
        for i, a in enumerate(t.at):
            if a.name == 'inv' and len(a.args[0].terms) == 1:
                u = a.args[0].terms[0]
                k = [j for j, x in enumerate(t.at) if len(u.at) == 1 and str(x) == str(u.at[0])]
                if k and not u.bv and not u.g and c.entails(f_not(f_rc('==', a.args[0]))):
                    todo.append(Term(t.c / u.c, t.bv, t.g, [x for j, x in enumerate(t.at) if j not in (i, k[0])]))
                    break
        else:
            r = circle(t, None)
            if r: todo += r
            else: out.append(t)
    return GE(out).light()
def expand(g): return g.terms

def sizes(h, S, n, p, q):
    for x, r, c in (('A', n, n), ('B', n, q), ('C', p, n), ('D', p, q)): h.shape('size of ' + x, getattr(S, x), r, c)
def not_null(h, name, M, mask=None):
    """some entry of M is not null (the draws of randn are not)"""
    i, j = fresh('i'), fresh('j')
    r, q = M.rows_, M.cols_
    h.c.oblige(name, lambda: True if h.c.entails(f_not(('all', (i, j), f_or(f_lt(IP.sym(i), 0), f_le(r, IP.sym(i)), f_lt(IP.sym(j), 0), f_le(q, IP.sym(j)), f_rc('==', M.entry(IP.sym(i), IP.sym(j))))))) else 'all the entries of the matrix may be masked')
def units(v):
    A_IS = 'A is similar to a matrix made of its poles, inside of the unit circle'
    for n in (1, 2, 3, 4, 5) if v.tier == 'quick' else (1, 2, 3, 4, 5, 6):
        def body(h, n=n):
            h.c.memo['complex names'] = {'I': 'I'}
            h.c.rules.custom.append(circle)
            p, q = h.int('p', 1), h.int('q', 1)
            k = {} if n < 3 else dict(pBCmask=1, pDzero=1)
            S = h.load('fixif.LTI').random_dSS(n, p, q, **k)
            sizes(h, S, n, p, q)
            is_similar(h, A_IS, S.A, n)
            if n < 3:
                not_null(h, 'B is not null', S.B)
                not_null(h, 'C is not null', S.C)
        v.unit('random_dSS(%d, p, q)%s' % (n, '' if n < 3 else ', poles'), body)
    for bad in ((0, 1, 1), (1, 0, 1), (1, 1, 0), (1.5, 1, 1), (2, 0.5, 1), (2, 1, 2.5)):
        def body(h, bad=bad):
            h.raises('ValueError', ValueError, h.load('fixif.LTI').random_dSS, *[h.int('k') if x == 0 and h.assume(h.int('k') <= 0) is None else x for x in bad])
        v.unit('random_dSS refuses the sizes %s' % (tuple('<= 0' if x == 0 else x for x in bad),), body)

    # ---- callers of random_dSS: its contract gives a system of the sizes asked which is a function of the draws
    def drawn_system(h):
        calls = []
        def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzero=0.5):
            key, k = h.c.memo.get('rng', ('start', 0))
            pr = (pRepeat, pReal, pBCmask, pDmask, pDzero)
            what = '[%s,%d|%s|%s]' % (key, k, (IP.of(n), IP.of(p), IP.of(q)), pr)
            h.c.memo['rng'] = (key + ' after ' + what, 0)
            calls.append((n, p, q) + pr)
            M = lambda x, r, c: SMat.gen(IP.of(r), IP.of(c), lambda i, j: GE.atom(x + what, i, j), 'array', 'float')
            return h.load('fixif.LTI').dSS(M('A', n, n), M('B', n, q), M('C', p, n), M('D', p, q))
        h.c.contracts['fixif.LTI.dSS.random_dSS'] = random_dSS
        return calls
    def same_system(h, name, S, T):
        for x in 'ABCD':
            M, N = getattr(S, x), getattr(T, x)
            h.shape('%s: size of %s' % (name, x), N, M.rows_, M.cols_)
            h.entries('%s: %s' % (name, x), N, lambda i, j: M.entry(i, j))
    def mix(h):
        h.c.memo['rng'] = (fresh('other'), 0)
    def sizes_in(h, name, x, r):
        if isinstance(r, int): h.ensure(name, x == r)
        else:
            h.ensure(name + ' (at least)', x >= r[0])
            h.ensure(name + ' (at most)', x < r[1])
    def span(h, x, lo=None, strict=True):
        a, b = h.real(x + '0'), h.real(x + '1')
        h.assume(a < b)
        return a, b
    def ints(h, x):
        a, b = h.int(x + '0', 1), h.int(x + '1', 1)
        h.assume(a < b)
        return a, b

    for seed in ('any', None):
        def body(h, seed=seed):
            drawn_system(h)
            L = h.load('fixif.LTI')
            n, p, q = h.int('n', 1), h.int('p', 1), h.int('q', 1)
            s = h.int('s', 0) if seed else None
            F = L.random_Filter(n, p, q, seed=s)
            sizes(h, F.dSS, n, p, q)
            h.ensure('stable', F.isStable() is True)
            if seed:
                mix(h)
                G = L.random_Filter(n, p, q, seed=s)
                same_system(h, 'drawn again from its seed', F.dSS, G.dSS)
        v.unit('random_Filter(n, p, q, seed=%s)' % ('s' if seed else None), body)
    for n, p, q, s in ((3, 2, 1, 0), (10, 1, 12, 4294967295), (1, 1, 1, 7)):
        def body(h, n=n, p=p, q=q, s=s):
            drawn_system(h)
            L = h.load('fixif.LTI')
            F = L.random_Filter(n, p, q, seed=s)
            h.ensure('the name tells the sizes and the seed', F.name == 'RandomFilter-%d/%d/%d-%d' % (n, p, q, s))
            mix(h)
            G = L.random_Filter(name=F.name)
            same_system(h, 'drawn again from its name', F.dSS, G.dSS)
            h.ensure('same name', G.name == F.name)
            h.ensure('stable', G.isStable() is True)
        v.unit('random_Filter, name %d/%d/%d-%d' % (n, p, q, s), body)
    for bad in ('RandomFilter', 'RandomFilter-3/1-12', 'filter'):
        def body(h, bad=bad):
            drawn_system(h)
            h.raises('ValueError', ValueError, lambda: h.load('fixif.LTI').random_Filter(name=bad))
        v.unit('random_Filter refuses the name %s' % bad, body)
    for ft in ('SISO', 'SIMO', 'MISO', 'MIMO', 'all'):
        for seeded in (True, False):
            def body(h, ft=ft, seeded=seeded):
                calls = drawn_system(h)
                n, p, q = ints(h, 'n'), ints(h, 'p'), ints(h, 'q')
                L = h.load('fixif.LTI')
                Fs = list(L.iter_random_Filter(2, n=n, p=p, q=q, seeded=seeded, ftype=ft))
                h.ensure('number of filters', len(Fs) == 2)
                for F in Fs:
                    S = F.dSS
                    sizes_in(h, 'number of states', S.n, n)
                    if ft == 'all':
                        h.ensure('number of outputs', f_or(form_of(S.p == 1), f_and(form_of(S.p >= p[0]), form_of(S.p < p[1]))))
                        h.ensure('number of inputs', f_or(form_of(S.q == 1), f_and(form_of(S.q >= q[0]), form_of(S.q < q[1]))))
                    else:
                        sizes_in(h, 'number of outputs', S.p, 1 if ft in ('SISO', 'MISO') else p)
                        sizes_in(h, 'number of inputs', S.q, 1 if ft in ('SISO', 'SIMO') else q)
                    h.ensure('stable', F.isStable() is True)
            v.unit('iter_random_Filter(ftype=%s, seeded=%s)' % (ft, seeded), body)
    # ---- designed filters
    for cls in ('Butter', 'Elliptic'):
        def designed(h, cls=cls):
            seen = []
            L = h.load('fixif.LTI')
            md = h.ver.loader.mods[getattr(L, cls).__module__]
            def result(*a):
                seen.append(a)
                n = h.int('order%d' % len(seen), 1)
                return (SMat.gen(IP.of(n) + 1, IP1, lambda i, j: GE.atom('b%d' % len(seen), i), 'array', 'float', 1),
                        SMat.gen(IP.of(n) + 1, IP1, lambda i, j: GE1.guard(f_eq(i)) + GE.atom('a%d' % len(seen), i).guard(f_le(1, i)), 'array', 'float', 1))
            if cls == 'Butter': md.butter = lambda N, Wn, btype='low': result(N, Wn, btype)
            else: md.ellip = lambda N, rp, rs, Wn, btype='low': result(N, rp, rs, Wn, btype)
            return L, seen, getattr(L, 'random_' + cls), getattr(L, 'iter_random_' + cls)
        def check_design(h, F, args, form, n, Wc, W1, W2, even, rp=None, rs=None):
            if rp is None: (N, W, t), extra = args, ()
            else:
                (N, r, a, W, t), extra = args, ((0, rp, 'ripple'), (1, rs, 'attenuation'))
                for x, b, nm in ((r, rp, 'ripple'), (a, rs, 'attenuation')):
                    h.ensure(nm, f_and(form_of(x >= b[0]), form_of(x <= b[1])))
            h.ensure('type', t == form if form else t in ('lowpass', 'highpass', 'bandpass', 'bandstop'))
            h.ensure('order (at least)', N >= n[0])
            if even:
                h.ensure('even order', N % 2 == 0)
                h.ensure('order (at most)', N <= n[1])
            else: h.ensure('order (at most)', N < n[1])
            if t in ('bandpass', 'bandstop'):
                h.ensure('two critical frequencies', len(W) == 2)
                for w, b in zip(W, (W1, W2)): h.ensure('critical frequencies', f_and(form_of(w >= b[0]), form_of(w <= b[1])))
                h.ensure('critical frequencies in order', W[0] < W[1])
            else: h.ensure('critical frequency', f_and(form_of(W >= Wc[0]), form_of(W <= Wc[1])))
            h.ensure('stable', F.isStable() is True)
        def requests(h, cls=cls):
            n, Wc, W1, W2 = ints(h, 'n'), span(h, 'Wc'), span(h, 'W1_'), span(h, 'W2_')
            h.assume(W1[0] < W2[1])
            k = dict(n=n, Wc=Wc, W1=W1, W2=W2)
            if cls == 'Elliptic': k.update(rp=span(h, 'rp'), rs=span(h, 'rs'))
            return k
        def equal_args(h, name, a, b):
            h.ensure(name + ': same number of arguments', len(a) == len(b))
            for x, y in zip(a, b):
                if isinstance(x, str): h.ensure(name + ': type', x == y)
                elif isinstance(x, (list, tuple)): equal_args(h, name, x, y)
                else: h.eq(name, x, y)
        for form in (None, 'lowpass', 'bandpass'):
            for even in ((True, False) if cls == 'Butter' else (False,)):
                kw = dict(onlyEven=even) if cls == 'Butter' else {}
                for seed in ('s', 0, None):
                    def body(h, cls=cls, form=form, even=even, seed=seed, kw=kw, designed=designed, check=check_design, requests=requests, equal_args=equal_args):
                        L, seen, one, many = designed(h)
                        k = requests(h)
                        s = h.int('s', 0) if seed == 's' else seed
                        F = one(form=form, seed=s, **k, **kw)
                        h.ensure('designed once', len(seen) == 1)
                        check(h, F, seen[0], form, even=even, **k)
                        if seed is not None:
                            mix(h)
                            G = one(form=form, seed=s, **k, **kw)
                            equal_args(h, 'drawn again from its seed', seen[0], seen[1])
                        if seed == 0: h.ensure('the seed is in the name', F.name.endswith('-0') and G.name == F.name)
                    v.unit('random_%s(form=%s%s, seed=%s)' % (cls, form, ', onlyEven=%s' % even if kw else '', seed), body)
                    if seed == 0: continue
                    def body(h, cls=cls, form=form, even=even, seed=seed, kw=kw, designed=designed, check=check_design, requests=requests):
                        L, seen, one, many = designed(h)
                        k = requests(h)
                        Fs = list(many(2, form=form, seeded=seed is not None, **k, **kw))
                        h.ensure('number of filters', len(Fs) == len(seen) == 2)
                        for F, a in zip(Fs, seen): check(h, F, a, form, even=even, **k)
                    if form: v.unit('iter_random_%s(form=%s%s, seeded=%s)' % (cls, form, ', onlyEven=%s' % even if kw else '', seed is not None), body)
        def body(h, cls=cls, designed=designed, requests=requests):
            L, seen, one, many = designed(h)
            a = h.real('a')
            h.raises('ValueError', ValueError, one, form='bandpass', W1=(a, a + 1), W2=(a - 1, a))
        v.unit('random_%s refuses bands that are not in order' % cls, body)
    # ---- transfer functions
    for T in ('dTF', 'dTFmp'):
        for eq in (True, False):
            def body(h, T=T, eq=eq):
                L = h.load('fixif.LTI')
                o = ints(h, 'n')
                if eq: o = (o[0], o[0])
                f = getattr(h.ver.loader.mods['fixif.LTI.' + T], 'random_' + T) if hasattr(h.ver.loader.mods['fixif.LTI.' + T], 'random_' + T) else getattr(L, 'random_' + T)
                H = f(o)
                h.ensure('order (at least)', H.order >= o[0])
                h.ensure('order (at most)', H.order <= o[0] if eq else H.order < o[1])
                for nm in ('num', 'den'):
                    M = getattr(H, nm)
                    a, b = M.rows_, M.cols_
                    h.ensure('number of coefficients of ' + nm, f_and(f_same(a, 1), f_same(b, IP.of(H.order) + 1)) if b != IP1 else f_same(a, IP.of(H.order) + 1))
            v.unit('random_%s, orders %s' % (T, 'equal' if eq else 'in a range'), body)
    # ---- systems, one after another
    for stable in (True, False):
        for one in ('', 'p', 'q', 'pq'):
            for mp in (False, True):
                if mp and one: continue
                def body(h, stable=stable, one=one, mp=mp):
                    calls = drawn_system(h)
                    n, p, q = ints(h, 'n'), 1 if 'p' in one else ints(h, 'p'), 1 if 'q' in one else ints(h, 'q')
                    L = h.load('fixif.LTI')
                    pr = [h.real('P%d' % i) for i in range(5)]
                    Ss = list((L.iter_random_dSSmp if mp else L.iter_random_dSS)(2, stable, n, p, q, *pr))
                    h.ensure('number of systems', len(Ss) == 2)
                    for S in Ss:
                        sizes_in(h, 'number of states', S.n, n)
                        sizes_in(h, 'number of outputs', S.p, p)
                        sizes_in(h, 'number of inputs', S.q, q)
                        sizes(h, S, S.n, S.p, S.q)
                    if stable:
                        h.ensure('drawn by random_dSS', len(calls) == 2)
                        for x in calls:
                            for a, b in zip(x[3:], pr): h.eq('probabilities', a, b)
                v.unit('iter_random_dSS%s(stable=%s%s)' % ('mp' if mp else '', stable, ''.join(', %s=1' % x for x in one)), body)
    # ---- specifications
    for seed in ('s', 0, None):
        for form in (None, 'lowpass'):
            def body(h, seed=seed, form=form):
                L = h.load('fixif.LTI')
                s = h.int('s', 0) if seed == 's' else seed
                G = L.random_Gabarit(form, seed=s)
                b = G.bands
                h.ensure('two bands', len(b) == 2)
                h.ensure('a pass band then a stop band', bool(b[0].isPassBand) and not b[1].isPassBand)
                h.ensure('the first band starts at 0', b[0].F1 == 0)
                h.ensure('bands in order', f_and(form_of(b[0].F1 < b[0].F2), form_of(b[0].F2 < b[1].F1), form_of(b[1].F1 < b[1].F2)))
                h.ensure('the last band ends at Fs/2', b[1].F2 * 2 == b[1].Fs)
                h.ensure('pass gains in order', b[0].passGains[0] < b[0].passGains[1])
                if seed is not None: h.ensure('seed', G.seed == s)
                mix(h)
                G2 = L.random_Gabarit(form, seed=G.seed)
                c = G2.bands
                for x, y in zip(b, c):
                    for a in ('Fs', 'F1', 'F2'): h.eq('drawn again from its seed: ' + a, getattr(x, a), getattr(y, a))
                h.eq('drawn again from its seed: stop gain', b[1].stopGain, c[1].stopGain)
                for k in (0, 1): h.eq('drawn again from its seed: pass gain', b[0].passGains[k], c[0].passGains[k])
            v.unit('random_Gabarit(%s, seed=%s)' % (form, seed), body)
    def body(h):
        h.raises('ValueError', ValueError, h.load('fixif.LTI').random_Gabarit, 'nothing')
        Gs = list(h.load('fixif.LTI').iter_random_Gabarit(2))
        h.ensure('number of specifications', len(Gs) == 2)
    v.unit('random_Gabarit refuses a form, iter_random_Gabarit', body)
