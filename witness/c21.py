from witness.sifs import *
from witness.c16 import Filt, run as run_text

def text(name, index, shift, suffix='', latex=False):
    from pylatexenc.latexencode import utf8tolatex
    s = utf8tolatex(name) if latex else name
    if index is not None: s += '_{%d}' % index if latex else '%d' % index
    s += suffix
    if shift is not None: s += '(k)' if shift == 0 else '(k+%d)' % shift if shift > 0 else '(k-%d)' % -shift
    return '$%s$' % s if latex else s
NAME = ['x', 't', 'u', 'y', 'v', 'ab', '\u03b1', '\u00e9t\u00e9', 'a_b', 'z%']
def idx(rng): return rng.choice([None, None, 0, 1, 2, 9, 10, 11, rng.randint(0, 1000)])
def sh(rng): return rng.choice([0, 0, 1, -1, 2, -3, 10, -12, rng.randint(-50, 50)])

@check('C21', 20)
def tostr(rng):
    from fixif.SoP import VarName
    nm, i, s0, j = rng.choice(NAME), idx(rng), sh(rng), idx(rng)
    sn = rng.choice([None, nm, rng.choice(NAME)])
    V = VarName(nm, i, surname=sn, index=j, shift=s0)
    need(V.name == nm, 'name', got=V.name)
    for wt in (True, False):
        for ws in (True, False):
            for lat in (True, False):
                s, suf = sh(rng), rng.choice(['', '', 'p'])
                if rng.random() < .2: s = -s0
                want = text((sn or nm) if ws else nm, j if ws else i, (s + (s0 if ws else 0)) if wt else None, suf, lat)
                got = V.toStr(withTime=wt, shift=s, withSurname=ws, suffix=suf, LaTeX=lat)
                need(got == want, 'toStr', args=(nm, i, sn, j, s0), call=dict(withTime=wt, shift=s, withSurname=ws, suffix=suf, LaTeX=lat), got=got, want=want)
    need(bool(V.hasSurnameWithIndex()) == (sn is not None and sn != nm and s0 != 0), 'hasSurnameWithIndex', args=(nm, i, sn, j, s0))

@check('C21', 10)
def lists(rng):
    from fixif.SoP import generateNames
    n = rng.choice([0, 1, 2, 3, 5, 10, 11, 12, 30])
    kind = rng.randrange(3)
    sur = None if kind == 0 else [rng.choice(NAME) for _ in range(n)] if kind == 1 else [(rng.choice(NAME), idx(rng), sh(rng)) for _ in range(n)]
    L = generateNames('x', n, sur) if sur is not None or rng.random() < .5 else generateNames('x', n)
    need(len(L) == n, 'number of names', n=n, got=len(L))
    for lat in (False, True):
        ts = [V.toStr(LaTeX=lat) for V in L]
        want = [text('x', i + 1 if n > 1 else None, 0, latex=lat) for i in range(n)]
        need(ts == want, 'names', n=n, got=ts, want=want)
        ts = [V.toStr(LaTeX=lat, withSurname=True) for V in L]
        if kind == 1: want = [text(s, None, 0, latex=lat) for s in sur]
        if kind == 2: want = [text(*s, latex=lat) for s in sur]
        need(ts == want, 'surnames', n=n, surnames=sur, got=ts, want=want)
    if n:
        expect(ValueError, lambda: generateNames('x', n, ['a'] * (n + rng.choice([-1, 1, 2]))), 'a wrong number of surnames is refused', n=n)

@check('C21', 2)
def realizations(rng):
    from fixif.SIF import Realization
    from fixif.SIF.Realization_implementation import genCvarNames
    d = l, n, p, q = (rng.choice([0, 1, 2, 3, 12]),) + tuple(size(rng, 12) for _ in range(3))
    R = Realization(Filt(p == 1 and q == 1), tuple(rnd_blocks(rng, *d)[x] for x in NAMES))
    every = []
    for L, b, k in ((R._varNameT, 't', l), (R._varNameX, 'x', n), (R._varNameU, 'u', q), (R._varNameY, 'y', p)):
        got = [v.toStr(withTime=False) for v in L]
        need(got == [text(b, i + 1 if k > 1 else None, None) for i in range(k)], 'names of a realization', dims=d, got=got)
        every += got
        c = genCvarNames(b, k)
        need(c == ([b] if k == 1 else ['%s[%d]' % (b, i) for i in range(k)]), 'names in C', n=k, got=c)
    need(len(set(every)) == len(every), 'two variables have the same name', dims=d, names=every)

@check('C21', 2)
def surnames(rng):
    from fixif.LTI import Filter
    from fixif.Structures import DFI, DFII
    n = rng.randint(1, 6)
    c = lambda: rng.choice([3.0, 5.0, 7.0, -2.0, 0.5, 1.0, -1.0, rng.randint(2, 30) / 8.0])
    num, den = [c() for _ in range(n + 1)], [1.0] + [c() for _ in range(n)]
    S, o = rng.choice([(DFI, dict(nbSum=1, transposed=False)), (DFI, dict(nbSum=2, transposed=False)), (DFII, dict(transposed=False))])
    R = S.makeRealization(Filter(num=num, den=den), **o)
    s = R.algorithmTxt(withSurname=True, comments=False, coefFormat='%.20g')
    V = [Fraction(rng.randint(-9, 9)) for _ in range(2 * n + 2)]
    f = lambda c, j: sum((frac(c[i]) * V[j + i] for i in range(n + 1)), Fraction(0))
    at = lambda x, j: '%s(k-%d)' % (x, j) if j else x + '(k)'
    env = {at('u', j): f(den, j) for j in range(n + 1)}
    if S is DFI: env.update({at('y', j): f(num, j) for j in range(1, n + 1)})
    else: env.update({at('v', j): V[j] for j in range(1, n + 1)})
    env0 = dict(env)
    # a temporary or state line with one variable only may be the name of the output
    run_text(s, env)
    need(env.get('y(k)') == f(num, 0), 'algorithm with the given names: y(k)', num=num, den=den, structure=S.__class__.__name__ if not hasattr(S, 'name') else S.name, options=o, text=s, got=env.get('y(k)'), want=f(num, 0))
    expect(ValueError, lambda: R.algorithmTxt(withSurname=True, withTime=False), 'names with surnames and without time are refused', num=num, den=den, options=o)
