"""C18: each structure realizes the filter it is given"""
from vx.contract import *
from vx.contracts.lti import *
from vx.contracts.c09 import tf
from vx.contracts.sifs import NAMES, dims, ss_of, Form
from vx.core import bv_region
from vx.sym import ge_div
from vx import libs

ASSUME = ['machine arithmetic is treated as real arithmetic']
TRUSTED = ['a one-input one-output implicit form and its transposed one have the same transfer function',
           'scipy.signal.tf2ss returns the controller canonical form of num/den (documented contract)',
           'SoP.generateNames returns names (C21)']

def names(h):
    """contract of generateNames: only gives names"""
    h.load('fixif.SIF')
    f = lambda *a, **k: ['name']
    for m in ('fixif.SoP.VarName.generateNames', 'fixif.SoP.generateNames', 'fixif.SIF.Realization.generateNames'): h.c.contracts[m] = f
V = lambda e: GE.atom('v', e)
def io(n, num, den):
    k, r = IP.sym('k0'), IP.sym('r?')
    u = lambda k: (den(r) * V(k - r)).sum('r?', 0, n + 1)
    y = lambda k: (num(r) * V(k - r)).sum('r?', 0, n + 1)
    return u, y
def realizes_form(h, name, R, n, num, den, ghosts, transposes=(False, True), facts=lambda i: []):
    """The implicit form R (l, N, 1, 1) has the transfer function num/den. For an arbitrary sequence v (null in the past), u = den * v and
    y = num * v: the given sequences of temporaries and states satisfy the equations of the form, or those of the transposed form."""
    l, N = IP.of(R.l), IP.of(R.n)
    k = IP.sym('k0')
    u, y = io(n, num, den)
    h.ensure(name + ': one input, one output', f_and(f_same(IP.of(R.p), 1), f_same(IP.of(R.q), 1)))
    for x, (a, b) in dims(l, N, 1, 1).items(): h.shape('%s: size of %s' % (name, x), getattr(R, x), a, b)
    B = {x: getattr(R, x).entry for x in NAMES}
    tr = lambda f: (lambda i, j: f(j, i))
    r = IP.sym('w?')
    def tries():
        why = None
        for t in transposes:
            F = B if not t else dict(J=tr(B['J']), K=tr(B['M']), M=tr(B['K']), L=tr(B['N']), N=tr(B['L']), P=tr(B['P']), Q=tr(B['R']), R=tr(B['Q']), S=B['S'])
            for gl, gn, T, X in ghosts:
                if not h.c.entails(f_and(f_same(l, gl), f_same(N, gn))):
                    continue
                i = IP.sym(fresh('i'))
                rows = lambda a, b, c: (F[a](i, r) * T(r, k)).sum('w?', 0, l) + (F[b](i, r) * X(r, k)).sum('w?', 0, N) + F[c](i, IP0) * u(k)
                eqs = [(rows('L', 'R', 'S').subst({list(i.syms())[0]: IP0}) - y(k), []),
                       ((F['J'](i, r) * T(r, k)).sum('w?', 0, l) - (F['M'](i, r) * X(r, k)).sum('w?', 0, N) - F['N'](i, IP0) * u(k), [f_ge(i), f_lt(i, l)]),
                       (rows('K', 'P', 'Q') - X(i, k + 1), [f_ge(i), f_lt(i, N)] + facts(i))]
                for what, (e, g) in zip(('output', 'temporaries', 'states'), eqs):
                    w = ge_zero(e, h.c.all() + g, h.c.rules)
                    if w is not True: w = '%s%s: %s' % (what, ' (transposed)' if t else '', w); break
                if w is True: return True
                why = why + '\n' + w if why else w
        return why or 'dimensions: l = %s, n = %s' % (l, N)
    h.c.oblige(name + ': the transfer function is the one of the filter', tries)
    i, j = IP.sym('i?'), IP.sym('j?')
    h.c.oblige(name + ': J is lower triangular, with a unit diagonal', lambda: ge_zero(R.J.entry(i, j) - GE1.guard(f_same(i, j)), h.c.all() + [f_ge(i), f_le(i, j), f_lt(j, l)], h.c.rules))
def at_(lst):
    """sequence of the vector which is the concatenation of the given blocks (size, entry function)"""
    def f(i, k):
        s, o = GE0, IP0
        for n, g in lst:
            s = s + g(i - o, k).guard(f_and(f_le(o, i), f_lt(i, o + n)))
            o = o + n
        return s
    return f
def filters(h, order=None):
    """a filter given by an arbitrary transfer function of order n"""
    names(h)
    n = h.int('n', 1) if order is None else order
    T, m, num, den = tf(h, '', n)
    return h.load('fixif.LTI').Filter(tf=T), IP.of(n), num, den
def opts(names_, *values):
    from itertools import product
    for v in product(*values): yield dict((k, x) for k, x in zip(names_, v) if x != 'default')
def txt(o): return ', '.join('%s=%s' % x for x in o.items()) or 'default'
def same_filter(h, R, F):
    h.ensure('the filter of the realization', R.filter is F)
def units(v):
    for o in opts(('nbSum', 'transposed'), ('default', 1, 2), ('default', False, True)):
        def body(h, o=o):
            F, n, num, den = filters(h)
            R = h.load('fixif.Structures').DFI(F, **o)
            same_filter(h, R, F)
            u, y = io(n, num, den)
            # non transposed: the states are the former inputs and outputs
            past = lambda s: lambda i, k: s(k - 1 - i)
            rev = lambda s: lambda i, k: s(k - n + i)
            xs = [[(n, a), (n, b)] for m in (rev, past) for a, b in ((m(y), m(u)), (m(u), m(y)))]
            r = IP.sym('z?')
            sb = lambda k: (num(r) * u(k - r)).sum('z?', 0, n + 1)
            sp = lambda k: (num(r) * u(k - r)).sum('z?', 1, n + 1)
            if o.get('nbSum') == 2: ts = [(IP.of(2), lambda i, k: b(k).guard(f_eq(i)) + y(k).guard(f_same(i, 1))) for b in (sb,)] + [(IP.of(2), lambda i, k: y(k).guard(f_eq(i)) + b(k).guard(f_same(i, 1))) for b in (sb,)]
            else: ts = [(IP1, lambda i, k: y(k))]
            g = [(a, n * 2, t, at_(x)) for a, t in ts for x in xs]
            realizes_form(h, 'DFI', R, n, num, den, g)
        v.unit('DFI(%s)' % txt(o), body)
    for o in opts(('transposed',), ('default', False, True)):
        def body(h, o=o):
            F, n, num, den = filters(h)
            R = h.load('fixif.Structures').DFII(F, **o)
            same_filter(h, R, F)
            g = [(IP1, n, lambda i, k: V(k), x) for x in (lambda i, k: V(k - 1 - i), lambda i, k: V(k - n + i))]
            realizes_form(h, 'DFII', R, n, num, den, g)
        v.unit('DFII(%s)' % txt(o), body)
    for form in ('default', None, 'ctrl', 'obs'):
        o = {} if form == 'default' else dict(form=form)
        def body(h, o=o):
            F, n, num, den = filters(h)
            R = h.load('fixif.Structures').State_Space(F, **o)
            same_filter(h, R, F)
            h.ensure('no temporary', f_same(IP.of(R.l), 0))
            realizes(h, 'state-space', R.dSS, n, num, den)
            for x, z in zip('ABCD', 'PQRS'): h.eq('%s is %s' % (z, x), getattr(R, z), getattr(R.dSS, x))
        v.unit('State_Space(%s), from a transfer function' % txt(o), body)
    for o in ({}, dict(form=None)):
        def body(h, o=o):
            names(h)
            n, p, q = [h.int(x, 1) for x in 'npq']
            d = (n, n), (n, q), (p, n), (p, q)
            F = h.load('fixif.LTI').Filter(**{x: h.mat(x, *s) for x, s in zip('ABCD', d)})
            R = h.load('fixif.Structures').State_Space(F, **o)
            same_filter(h, R, F)
            h.ensure('no temporary', f_same(IP.of(R.l), 0))
            for x, z, s in zip('ABCD', 'PQRS', d): h.matrix_is('%s is %s' % (z, x), getattr(R, z), *s, at(x))
        v.unit('State_Space(%s), from a state-space system' % txt(o), body)

    # ------------------------------------------------------------------ rho direct form II
    def rho(gamma, Delta, o):
        def body(h):
            F, n, num, den = filters(h)
            gm = (lambda i: GE.atom('gam', IP0, i)) if gamma else (lambda i: GE1)
            def scaled_delta(i):
                # scaling: whatever the (non null) values chosen by the code, which are the factors of its products
                ts = [t for kind, t in libs.TEMPLATES.values() if kind == 'Prod' and t.names() & {'sqrt', 'floor2'}]
                return ts[-1].subst({'$k': i}) if ts else GE1
            dl = (lambda i: GE.atom('del', IP0, i)) if Delta else scaled_delta if o.get('scaling') else (lambda i: GE1)
            slc = lambda f, i: SMat.gen(n - i, IP1, lambda k, _: f(i + k), 'array', 'float', 1)
            poly = lambda i, k: libs._poly_symbolic(slc(gm, IP.of(i))).entry(k)
            prod = lambda i: sym.to_real(libs._prod_symbolic(slc(dl, IP.of(i)), 'float')).ge
            def tbar(scaled):
                """row i: coefficients of (z - gamma_i)...(z - gamma_(n-1)) / (Delta_i...Delta_(n-1)), in the powers n, .., 0 of z"""
                d = (lambda i: ge_div(GE1, prod(i)).guard(f_lt(i, n)) + GE1.guard(f_same(i, n))) if scaled else (lambda i: GE1)
                return lambda i, m: (GE1.guard(f_same(i, m)) + poly(i, m - i).guard(f_lt(i, m))).guard(f_and(f_ge(i), f_le(i, m), f_le(m, n))) * d(i)
            spec = lambda i, m: tbar(True)(i, m) * prod(0)
            h.c.memo['ghost matrices'] = ((n + 1, tbar(False), 'Ui' if Delta or o.get('scaling') else 'Ti', lambda: GE1), (n + 1, spec, 'Ti', lambda: GE1), (n + 1, tbar(True), 'Ti', lambda: prod(0)))
            h.c.rules.inv.append(('T', 'Ti', n + 1))
            k = dict(o)
            h.load('fixif.Structures')
            h.c.contracts['fixif.Structures.rhoDFIIt.rhoDFIIt.floor2'] = lambda *a, **k: SReal(GE.atom('floor2', sym.to_real(list(a + tuple(k.values()))[0]).ge))
            if gamma: k['gamma'] = h.mat('gam', 1, n)
            if Delta:
                k['Delta'] = h.mat('del', 1, n)
            # the scaling factors (given, or chosen by the code) are not null
            h.c.rules.nonzero |= {'del', 'sqrt', 'floor2'}
            prod(0)
            if Delta or o.get('scaling'): h.c.rules.nonzero |= {'Prod$%d' % i for i in range(20)}
            R = h.load('fixif.Structures').rhoDFII(F, **k)
            same_filter(h, R, F)
            # the ghost matrix T (T = Ka Tbar)
            T, Ti = at('T'), at('Ti')
            i, m, j = IP.sym(fresh('i')), IP.sym(fresh('m')), IP.sym(fresh('j'))
            rng = [f_ge(i), f_lt(i, n), f_ge(m), f_le(m, n)]
            ones = (Delta or o.get('scaling')) and h.c.entails(('all', ('u0',), f_implies(f_and(f_ge('u0'), f_lt('u0', n)), f_rc('==', dl(IP.sym('u0')) - 1))))
            D = (lambda i: GE1) if ones else dl
            h.c.memo['product length'] = n - i
            rules = h.c.rules.copy(); rules.custom.append(libs.product_rule(i))
            nxt = lambda f, i, m: f(i + 1, m + 1).guard(f_lt(m, n)) - gm(i) * f(i + 1, m)
            h.c.oblige('rows of T: the next one is the product by (z - gamma_i) / Delta_i', lambda: ge_zero(spec(i, m) * dl(i) - nxt(spec, i, m), h.c.all() + rng, rules))
            h.c.oblige('T is upper triangular', lambda: ge_zero(spec(j, m), h.c.all() + [f_ge(m), f_lt(m, j), f_le(j, n)], h.c.rules))
            h.c.oblige('T(0, 0) = 1', lambda: ge_zero(spec(IP0, IP0) - 1, h.c.all(), h.c.rules))
            # (T = spec: definition); the first column of the inverse is the one of T
            all_ = lambda vs, r, e: ('all', vs, f_implies(f_and(*r), f_rc('==', e)))
            a, b = IP.sym('u0'), IP.sym('u1')
            h.assume(all_(('u0', 'u1'), [f_ge(b), f_lt(b, a), f_le(a, n)], GE.atom('T', a, b)))
            h.assume(all_(('u0',), [f_ge(a), f_le(a, n)], GE.atom('Ti', a, IP0) - GE1.guard(f_eq(a))))
            def facts(i):
                c = dict(vs=('u1',), r=[f_ge(b), f_le(b, n)])
                return [all_(c['vs'], c['r'], GE.atom('T', i, b) - ge_div(GE1, D(i)) * nxt(T, i, b))]
            def minus_first(t, gamma):
                """sum over 1 <= i <= n of Ti(r, i) T(i, m)"""
                for x, A in enumerate(t.at):
                    for y, B in enumerate(t.at):
                        if A.name != 'Ti' or B.name != 'T' or A.args[1] != B.args[0]: continue
                        e = A.args[1]
                        v = next((w for w in t.bv if e.lincoef(w) == 1 and w not in (e - IP.sym(w)).syms()), None)
                        if v is None or v in A.args[0].syms() or v in B.args[1].syms(): continue
                        others = [z for l, z in enumerate(t.at) if l not in (x, y)]
                        if any(v in z.syms() for z in others): continue
                        off = IP.sym(v) - e
                        rest = bv_region(t, v, off + 1, off + n + 1, gamma)
                        if rest is None: continue
                        bv = [z for z in t.bv if z != v]
                        return [Term(t.c, bv, rest + [f_same(A.args[0], B.args[1])], others),
                                Term(-t.c, bv, rest, others + [Atom('Ti', (A.args[0], IP0)), Atom('T', (IP0, B.args[1]))])]
            h.c.rules.custom.append(minus_first)
            r = IP.sym('z?')
            t = lambda i, k: (T(i, r) * V(k - r)).sum('z?', 0, n + 1)
            x = lambda i, k: t(i + 1, k)
            g = [(l, n, t, x) for l in (n, IP1, IP0)]
            realizes_form(h, 'rho', R, n, num, den, g, facts=facts)
        return body
    for o in opts(('transposed', 'equiv_dSS'), ('default', False, True), ('default', True)):
        for gamma in (False, True):
            for Delta in (False, True):
                v.unit('rhoDFII(%s)%s%s' % (txt(o), ', gamma' if gamma else '', ', Delta' if Delta else ''), rho(gamma, Delta, o))
    for sc in ('l2', 'l2-relaxed'):
        for o in opts(('transposed', 'equiv_dSS'), (False, True), ('default', True)):
            v.unit('rhoDFII(scaling=%s, %s)' % (sc, txt(o)), rho(True, False, dict(o, scaling=sc)))

    # ------------------------------------------------------------------ options, acceptance, construction by name
    def bad(name, S, **o):
        def body(h):
            F, n, num, den = filters(h)
            h.raises('%s is rejected' % txt(o), ValueError, lambda: getattr(h.load('fixif.Structures'), S)(F, **o))
        v.unit('%s(%s) is rejected' % (S, txt(o)), body)
    for x in (0, 3, -1): bad('', 'DFI', nbSum=x)
    bad('', 'State_Space', form='other')
    bad('', 'rhoDFII', scaling='other')
    for S in ('DFI', 'DFII', 'rhoDFII', 'State_Space'):
        def body(h, S=S):
            names(h)
            n, p, q = [h.int(x, 1) for x in 'npq']
            h.assume(f_or(f_lt(1, IP.of(p)), f_lt(1, IP.of(q))))
            F = h.load('fixif.LTI').Filter(**{x: h.mat(x, *s) for x, s in zip('ABCD', ((n, n), (n, q), (p, n), (p, q)))})
            st = getattr(h.load('fixif.Structures'), S)
            for o in ({},) if S != 'State_Space' else (dict(form='ctrl'), dict(form='obs')):
                h.raises('%s %s: a filter with several inputs or outputs is rejected' % (S, txt(o)), ValueError, lambda: st(F, **o))
                h.ensure('%s %s does not accept it' % (S, txt(o)), not st.canAcceptFilter(F, **o))
            if S == 'State_Space': h.ensure('State_Space accepts every filter', st.canAcceptFilter(F, form=None))
        v.unit('%s of a filter with several inputs or outputs' % S, body)
    def body(h):
        F, n, num, den = filters(h)
        st = h.load('fixif.Structures')
        h.ensure('DFI and DFII accept the filters with one input and one output', bool(st.DFI.canAcceptFilter(F)) and bool(st.DFII.canAcceptFilter(F)))
        h.ensure('State_Space accepts them, for all forms', all(bool(st.State_Space.canAcceptFilter(F, form=x)) for x in (None, 'ctrl', 'obs')))
        for x in ('DFI', 'DFII', 'rhoDFII'): h.ensure('%s is the structure of this name' % x, st.Structure.Structure.getFromName(getattr(st, x)._shortName) is getattr(st, x))
        h.raises('unknown structure', ValueError, lambda: st.Structure.Structure.getFromName('unknown'))
        seen = {}
        def make(*a, **k):
            seen['a'] = a, k
            return 'R'
        S = st.Structure.Structure('made', 'Made structure', make=lambda filt, **o: seen.update(f=filt, o=o) or {'JtoS': 1}, accept=lambda filt, **o: o.get('x') != 2, options={'x': (1, 2), 'y': ('a', 'b')})
        h.c.contracts['fixif.SIF.Realization.Realization.__init__'] = lambda *a, **k: seen.update(r=(a, k))
        for o, want in (({}, dict(x=1, y='a')), (dict(y='b'), dict(x=1, y='b')), (dict(x=2, z=3), dict(x=2, y='a', z=3))):
            st.makeARealization(F, 'made', **o)
            h.ensure('options %s: the first values by default' % txt(o), seen['o'] == want and seen['f'] is F)
        every = [(s._shortName, dict(o or {})) for s, o in st.iterStructuresAndOptions(F)]
        h.ensure('all the options accepted are iterated', [o for s, o in every if s == 'made'] == [dict(x=1, y='a'), dict(x=1, y='b')])
    v.unit('structures by name, options by default', body)
