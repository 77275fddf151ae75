"""C21: names of the variables"""
import itertools
from vx.contract import *
from vx.contracts.sifs import *
from vx.contracts.lti import *
from vx.contracts.c09 import tf
from vx.contracts.c16 import Filt
from vx.contracts.texts import run_text, Bad
from vx import sym
from vx.sym import int_token, text_same, SReal, SList

ASSUME = ['the code only concatenates and compares the given names and surnames (names are arbitrary, but not a digit at the end)', 'the decimal texts of two different integers are different']
TRUSTED = ['pylatexenc.utf8tolatex gives different LaTeX texts to different names']
BOUNDED = [('algorithm with the given names', 'orders 1 to 3, all coefficients')]

def mod(h):
    h.load('fixif.SIF')
    m = h.load('fixif.SoP.VarName')
    m.utf8tolatex = lambda s: 'latex(%s)' % s
    return m
def text(name, index=None, shift=None, suffix='', latex=False):
    """shift None: without time"""
    s = 'latex(%s)' % name if latex else name
    if index is not None: s += '_{%s}' % int_token(index) if latex else int_token(index)
    s += suffix
    if shift is not None: s += '(k)' if Ctx.cur.decide(f_rc('==', sym.to_real(shift).ge)) else '(k%s)' % int_token(shift, '+')
    return '$' + s + '$' if latex else s
def int_token(x, spec=''): return format(x, spec) if isinstance(x, int) else sym.int_token(x, spec)
def same(h, name, a, b): h.c.oblige(name, lambda: text_same(a, b))
OPT = dict(index=(None, 'i'), surname=(None, 'v', 'other'), latex=(False, True), withTime=(True, False), withSurname=(False, True), suffix=('', 'p'))
def atomi(n, *i): return SReal(GE.atom(n, *i), 'int')

def units(v):
    for o in itertools.product(*OPT.values()):
        o = dict(zip(OPT, o))
        def body(h, o=o):
            m = mod(h)
            i, j, s0, s = (h.int(x) for x in ('i', 'j', 's0', 's'))
            ix = None if o['index'] is None else i
            if o['surname'] is None: V, sn, si, sh = m.VarName('NAME', ix, shift=s0), 'NAME', None, s0
            elif o['surname'] == 'v': V, sn, si, sh = m.VarName('NAME', ix, surname='SURNAME', index=j, shift=s0), 'SURNAME', j, s0
            else: V, sn, si, sh = m.VarName('NAME', ix, surname='SURNAME', shift=s0), 'SURNAME', None, s0
            h.ensure('name', V.name == 'NAME')
            t = V.toStr(withTime=o['withTime'], shift=s, withSurname=o['withSurname'], suffix=o['suffix'], LaTeX=o['latex'])
            w = text(sn, si, sh + s if o['withTime'] else None, o['suffix'], o['latex']) if o['withSurname'] else text('NAME', ix, s if o['withTime'] else None, o['suffix'], o['latex'])
            same(h, 'name, index, suffix and time of the text', t, w)
            r = V.hasSurnameWithIndex()
            h.ensure('surname with a shift', f_implies(form_of(r), f_and(T if sn != 'NAME' else F, f_not(f_same(s0, 0)))))
            h.ensure('surname with a shift (reciprocal)', f_implies(f_and(T if sn != 'NAME' else F, f_not(f_same(s0, 0))), form_of(r)))
        v.unit('toStr: %s' % ', '.join('%s=%s' % x for x in o.items()), body)
    def body(h):
        m = mod(h)
        same(h, 'text by default', m.VarName('NAME').toStr(), 'NAME(k)')
        V = m.VarName('NAME', 2, surname='SURNAME', index=3, shift=-1)
        same(h, 'text by default, with an index', V.toStr(), 'NAME2(k)')
        same(h, 'surname', V.toStr(withSurname=True), 'SURNAME3(k-1)')
        same(h, 'surname and shift', V.toStr(withSurname=True, shift=2), 'SURNAME3(k+1)')
        same(h, 'surname, shift cancelled', V.toStr(withSurname=True, shift=1), 'SURNAME3(k)')
    v.unit('toStr: default values', body)
    # ---- lists of names
    def check_list(h, what, L, base, n, sur=None):
        """L: the n names of the variables base1.. basen (or base); sur(i): (surname, index, shift)"""
        if isinstance(L, list): h.ensure(what + ': number of names', f_same(len(L), n))
        else:
            h.c.oblige(what + ': a list', lambda: True if isinstance(L, SList) else 'not a list: %r' % (L,))
            h.ensure(what + ': number of names', f_same(L.count(), n))
        if IP.of(n).isconst: ks = range(n)
        else:
            k = IP.sym(fresh('k'))
            h.assume(f_ge(k)); h.assume(f_lt(k, n))
            ks = [k]
        for k in ks:
            V = L[k] if isinstance(L, list) else L.elem(k)
            k = mk_int(IP.of(k))
            one = h.c.entails(f_same(n, 1))
            idx = None if one else k + 1
            for lat in (False, True):
                for wt in (False, True):
                    same(h, what + ': text of the k-th name', V.toStr(withTime=wt, LaTeX=lat), text(base, idx, 0 if wt else None, latex=lat))
                    sn, si, sh = sur(k) if sur else (base, idx, 0)
                    same(h, what + ': surname of the k-th variable', V.toStr(withTime=wt, withSurname=True, LaTeX=lat), text(sn, si, sh if wt else None, latex=lat))
        if not IP.of(n).isconst and isinstance(L, SList):
            a, b = IP.sym(fresh('a')), IP.sym(fresh('b'))
            def th():
                """two names: the same texts around two integers"""
                for wt in (False, True):
                    for ws in (False,) if sur else (False, True):
                        for lat in (False, True):
                            x, y = (sym.text_parts(L.elem(q).toStr(withTime=wt, withSurname=ws, LaTeX=lat)) for q in (a, b))
                            xi, yi = [p[0] for p in x if isinstance(p, tuple)], [p[0] for p in y if isinstance(p, tuple)]
                            if len(xi) != 1 or len(yi) != 1: return 'the texts do not show one integer'
                            if not entails(h.c.all() + [f_ge(a), f_lt(a, b), f_lt(b, n)], f_not(f_rc('==', sym.to_real(xi[0]).ge - sym.to_real(yi[0]).ge))): return 'the same text for two variables'
                return True
            h.c.oblige(what + ': the texts of two variables are different', th)
    for n in (0, 1, 2, 3, 'n'):
        for kind in ('no surname', 'surnames', 'surnames with index and shift'):
            def body(h, n=n, kind=kind):
                m = mod(h)
                N = h.int('n', 2) if n == 'n' else n
                if kind == 'no surname':
                    L, sur = (m.generateNames('NAME', N, None) if n == 'n' else m.generateNames('NAME', N)), None
                elif kind == 'surnames':
                    sl = ['S'] * n if n != 'n' else SList(IP.of(N), lambda i: 'S')
                    L, sur = m.generateNames('NAME', N, sl), lambda k: ('S', None, 0)
                else:
                    f = lambda i: ('S', atomi('I', IP.of(i)), atomi('H', IP.of(i)))
                    sl = [f(i) for i in range(n)] if n != 'n' else SList(IP.of(N), f)
                    L, sur = m.generateNames('NAME', N, surnames=sl), f
                check_list(h, 'generateNames', L, 'NAME', N, sur)
            v.unit('generateNames(n = %s), %s' % (n, kind), body)
    def body(h):
        m = mod(h)
        n, k = h.int('n', 0), h.int('k', 1)
        h.assume(f_not(f_same(n, k)))
        h.raises('ValueError', ValueError, m.generateNames, 'NAME', n, SList(IP.of(k), lambda i: ('S', None, 0)))
    v.unit('generateNames: a wrong number of surnames is refused', body)
    def body(h):
        h.load('fixif.SIF')
        g = h.load('fixif.SIF.Realization_implementation').genCvarNames
        h.c.oblige('one variable', lambda: True if g('NAME', 1) == ['NAME'] else 'not its name')
        n = h.int('n', 2)
        L = g('NAME', n)
        h.c.oblige('a list', lambda: True if isinstance(L, SList) else 'not a list: %r' % (L,))
        h.ensure('number of names', f_same(L.count(), n))
        k = IP.sym('k'); h.assume(f_ge(k)); h.assume(f_lt(k, n))
        same(h, 'the k-th cell of the array', L.elem(k), 'NAME[%s]' % int_token(mk_int(k)))
    v.unit('genCvarNames', body)
    # ---- names of a realization
    for ll, one in ((None, False), (0, False), (None, True), (1, True)):
        def body(h, ll=ll, one=one):
            mod(h)
            l = h.int('l', 2) if ll is None else ll
            n, p, q = (1, 1, 1) if one else (h.int('n', 2), h.int('p', 2), h.int('q', 2))
            R = h.load('fixif.SIF').Realization(Filt(one), tuple(blocks(h, '', l, n, p, q)))
            for L, b, k in ((R._varNameT, 't', l), (R._varNameX, 'x', n), (R._varNameU, 'u', q), (R._varNameY, 'y', p)): check_list(h, 'names of ' + b, L, b, k)
        v.unit('names of a realization, l %s, n, p, q %s' % ('>= 2' if ll is None else '= %d' % ll, '= 1' if one else '>= 2'), body)
    # ---- direct forms: the surnames are the signals
    for name in ('DFI', 'DFII'):
        for o in [dict(nbSum=b, transposed=t) for b in (1, 2) for t in (False, True)] if name == 'DFI' else (dict(transposed=False), dict(transposed=True)):
            def body(h, name=name, o=o):
                mod(h)
                n = h.int('n', 1)
                T_, m_, num, den = tf(h, '', n)
                Fl = h.load('fixif.LTI').Filter(tf=T_)
                h.load('fixif.Structures')
                d = getattr(h.load('fixif.Structures.DirectForms.' + name), 'make' + name)(Fl, **o)
                X, Tn = d.get('surnameVarX'), d.get('surnameVarT')
                if o.get('transposed'): h.ensure('no surname', X is None and Tn is None)
                if o.get('transposed'): return
                B = dict(zip(NAMES, d['JtoS']))
                nx = 2 * n if name == 'DFI' else n
                h.ensure('one surname per state', f_same(IP.of(slen(X)), nx))
                i = IP.sym('i'); h.assume(f_ge(i)); h.assume(f_lt(i, nx))
                S = X.elem(i)
                l = B['J'].rows
                j = IP.sym('j')
                rows = lambda i: [('K', l, 'state'), ('P', nx, 'state'), ('Q', 1, 'state')]
                first = [(0, n, 'y')] + [(n, 2 * n, 'u')] if name == 'DFI' else [(0, n, 'v')]
                for lo, hi, sig in first:
                    if not h.c.decide(f_and(f_le(lo, i), f_lt(i, IP.of(hi)))): continue
                    hi_ = IP.of(hi)
                    h.c.oblige('x_i(k) = %s(k - (%s - i))' % (sig, hi), lambda: True if S[0] == sig and S[1] is None else 'surname %r' % (S,))
                    h.ensure('x_i(k) = %s(k - (%s - i)): the shift' % (sig, hi), f_same(S[2], i - hi_))
                    if h.c.decide(f_lt(i + 1, hi_)):         # the next value is the next signal
                        h.entries('%s: the next value of a state is the next one of the signal' % sig, B['P'], lambda a, b: GE1.guard(f_same(b, a + 1)), lambda a, b: f_same(a, i))
                        for M in 'KQ': h.entries('%s: and nothing else' % sig, B[M], lambda a, b: GE0, lambda a, b: f_same(a, i))
                    elif sig == 'u':
                        for M, e in (('K', GE0), ('P', GE0), ('Q', GE1)): h.entries('x(k+1) = u(k)', B[M], lambda a, b, e=e: e, lambda a, b: f_same(a, i))
                    elif sig == 'y':
                        for M, Y in (('K', 'L'), ('P', 'R'), ('Q', 'S')): h.entries('x(k+1) = y(k)', B[M], lambda a, b, Y=Y: B[Y].entry(IP0, b), lambda a, b: f_same(a, i))
                    else:
                        h.c.oblige('t(k+1) = v(k)', lambda: True if [tuple(x) for x in Tn] == [('v', None, -1)] else 'surname %r' % (Tn,))
                        for M, e in (('K', GE1), ('P', GE0), ('Q', GE0)): h.entries('x(k+1) = t(k+1)', B[M], lambda a, b, e=e: e, lambda a, b: f_same(a, i))
            v.unit('surnames of %s(%s)' % (name, ', '.join('%s=%s' % x for x in o.items())), body)
    # ---- algorithms written with the surnames
    def direct(h, name, o, n):
        h.c.memo['lazy vectorize'] = True
        h.load('fixif.SIF'); h.load('fixif.Structures')
        T_, m_, num, den = tf(h, '', n)
        for k in range(n + 1):
            for x in (num, den):
                g = x(IP.const(k)).light()
                if g.isconst: continue
                for w in (0, 1, -1): h.assume(f_not(f_rc('==', g - GE.const(w))))
        d = getattr(h.load('fixif.Structures.DirectForms.' + name), 'make' + name)(h.load('fixif.LTI').Filter(tf=T_), **o)
        R = h.load('fixif.SIF').Realization(Filt(True), d['JtoS'], surnameVarT=d.get('surnameVarT'), surnameVarX=d.get('surnameVarX'))
        return R, num, den
    for n in (1, 2, 3):
        for name, o in [('DFI', dict(nbSum=b, transposed=False)) for b in (1, 2)] + [('DFII', dict(transposed=False))]:
            def body(h, n=n, name=name, o=o):
                R, num, den = direct(h, name, o, n)
                s = R.algorithmTxt(withSurname=True, comments=False)
                V = lambda e: GE.atom('v', IP.const(e))
                at = lambda x, j: '%s(k-%d)' % (x, j) if j else x + '(k)'
                sig = lambda c, j: sum((c(IP.const(i)) * V(-j - i) for i in range(n + 1)), GE0)
                # for any sequence v: u = den * v and y = num * v satisfy the recurrence
                env = {at('u', j): sig(den, j) for j in range(n + 1)}
                if name == 'DFI': env.update({at('y', j): sig(num, j) for j in range(1, n + 1)})
                else: env.update({at('v', j): V(-j) for j in range(1, n + 1)})
                try: run_text(s, env)
                except Bad as e: return h.fail('the text is read', str(e))
                h.zero('y(k)', env.get('y(k)', GE.atom('not computed')) - sig(num, 0))
            v.unit('algorithm with the given names, %s(%s), order %d' % (name, ', '.join('%s=%s' % x for x in o.items()), n), body)
    for name in ('DFI', 'DFII'):
        def body(h, name=name):
            R, num, den = direct(h, name, dict(transposed=False), 2)
            h.raises('ValueError', ValueError, R.algorithmTxt, withSurname=True, withTime=False)
            h.raises('ValueError', ValueError, R.algorithmLaTeX, withSurname=True, withTime=False)
        v.unit('algorithm with the given names, without time, is refused: %s' % name, body)
    for k in range(3):
        def body(h, k=k):
            h.c.memo['lazy vectorize'] = True
            h.load('fixif.SIF')
            x = [('a', None, 0), ('b', None, 0), ('c', None, 0)]
            s = h.int('s'); h.assume(f_not(f_same(s, 0)))
            x[k] = (x[k][0], None, s)
            l, n = 1, 2
            B = tuple(h.mat(w, r, c) if w != 'J' else SMat.gen(IP1, IP1, lambda i, j: GE1, 'matrix', 'float') for w, (r, c) in dims(l, n, 1, 1).items())
            R = h.load('fixif.SIF').Realization(Filt(True), B, surnameVarT=x[:1], surnameVarX=x[1:])
            h.raises('ValueError', ValueError, R.algorithmTxt, withSurname=True, withTime=False)
        v.unit('algorithm without time is refused when the surname of variable %d has a shift' % k, body)
def slen(L): return L.count() if isinstance(L, SList) else len(L)
