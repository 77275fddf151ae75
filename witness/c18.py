from witness.sifs import *
from witness.c09 import rnd_coefs, shaped
from witness.c08 import conv

def stable_den(rng, n):
    d = [Fraction(1)]
    while len(d) <= n:
        if n + 1 - len(d) >= 2 and rng.random() < .5:
            r = Fraction(rng.randint(1, 14), 16); c = Fraction(rng.randint(-15, 15), 16)
            d = conv(d, [Fraction(1), -2 * r * c, r * r])
        else: d = conv(d, [Fraction(1), -Fraction(rng.randint(-14, 14), 16)])
    return [float(x) for x in d]
def rnd_filter(rng, n, stable):
    from fixif.LTI import Filter
    b = rnd_coefs(rng, n + 1)
    a = stable_den(rng, n) if stable else [rng.choice([1.0, 1.0, 2.0, -0.5, 3.0])] + rnd_coefs(rng, n)
    if rng.random() < .2 and n > 1: b = b[:rng.randint(1, n)]          # a shorter numerator
    if a[0] != 1.0 and stable is False: pass
    return a, b, Filter(num=shaped(rng, b), den=shaped(rng, a))
def impulse(num, den, K):
    h = []
    for k in range(K):
        s = num[k] if k < len(num) else Fraction(0)
        s -= sum((den[r] * h[k - r] for r in range(1, min(k, len(den) - 1) + 1)), Fraction(0))
        h.append(s / den[0])
    return h
def impulse_of(R, K):
    F = {x: fmat(numpy.atleast_2d(numpy.asarray(getattr(R, x)))) if getattr(R, x).size else [] for x in NAMES}
    l, n = R.l, R.n
    if l == 0: F['K'], F['L'], F['M'], F['N'], F['J'] = [[]] * n, [[]], [], [], []
    x, out = [Fraction(0)] * n, []
    for k in range(K):
        t, x, y = step(F, x, [Fraction(int(k == 0))])
        out.append(y[0])
    return out
def same(R, a, b, n, what, tol=1e-7):
    inp = dict(num=b, den=a)
    need(R.p == 1 and R.q == 1, '%s: one input and one output' % what, p=R.p, q=R.q, **inp)
    for x, s in dims(R.l, R.n, 1, 1).items(): need(getattr(R, x).shape == s, '%s: size of %s' % (what, x), got=getattr(R, x).shape, want=s, **inp)
    J = fmat(R.J) if R.l else []
    need(all(J[i][j] == int(i == j) for i in range(R.l) for j in range(i, R.l)), '%s: J is not lower triangular with a unit diagonal' % what, J=R.J, **inp)
    K = 2 * n + 4
    w = impulse([Fraction(x) for x in b], [Fraction(x) for x in a], K)
    g = impulse_of(R, K)
    s = max([1] + [abs(x) for x in w] + [abs(Fraction(x)) for x in list(a) + list(b)])
    need(all(abs(x - y) <= Fraction(tol) * s for x, y in zip(w, g)), '%s: impulse response' % what, got=[float(x) for x in g], want=[float(x) for x in w], **inp)
def order(rng): return rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6])

@check('C18', 3)
def direct_forms(rng):
    from fixif.Structures import DFI, DFII
    n = order(rng); a, b, F = rnd_filter(rng, n, False)
    n = F.dTF.order
    if n < 1: return
    if rng.random() < .5:
        o = rng.choice([{}, dict(nbSum=1), dict(nbSum=2)])
        o = dict(o, **rng.choice([{}, dict(transposed=True), dict(transposed=False)]))
        same(DFI(F, **o), a, b, n, 'DFI %s' % o)
    else:
        o = rng.choice([{}, dict(transposed=True), dict(transposed=False)])
        same(DFII(F, **o), a, b, n, 'DFII %s' % o)
@check('C18', 1)
def state_spaces(rng):
    from fixif.Structures import State_Space
    n = order(rng); a, b, F = rnd_filter(rng, n, False)
    n = F.dTF.order
    if n < 1: return
    m = max([abs(x / a[0]) for x in b + [0]])
    if any(0 < abs(x / a[0]) <= 1e-12 for x in b): return
    o = rng.choice([{}, dict(form=None), dict(form='ctrl'), dict(form='obs')])
    R = State_Space(F, **o)
    need(R.l == 0, 'temporaries', l=R.l)
    same(R, a, b, n, 'State_Space %s' % o)
@check('C18', 1)
def state_space_of_a_state_space(rng):
    from fixif.LTI import Filter
    from fixif.Structures import State_Space
    n, p, q = [size(rng, 3) for _ in range(3)]
    M = {x: rnd_np(rng, *s, fn=lambda r: small(r)) for x, s in dict(A=(n, n), B=(n, q), C=(p, n), D=(p, q)).items()}
    R = State_Space(Filter(**M))
    for x, z in zip('ABCD', 'PQRS'): need(fmat(getattr(R, z)) == fmat(M[x]), '%s is not %s' % (z, x), got=getattr(R, z), want=M[x])
    need(R.l == 0, 'temporaries', l=R.l)
@check('C18', 4)
def rho_forms(rng):
    from fixif.Structures import rhoDFII
    n = order(rng)
    sc = rng.choice([None, None, 'l2', 'l2-relaxed'])
    a, b, F = rnd_filter(rng, n, sc is not None)
    n = F.dTF.order
    if n < 1: return
    if sc is not None and not any(b): return
    o = dict(transposed=rng.random() < .5, equiv_dSS=rng.random() < .5, scaling=sc)
    k = dict(o)
    if rng.random() < .6: k['gamma'] = [rng.randint(-8, 8) / 8.0 for _ in range(n)]
    if sc is None and rng.random() < .6: k['Delta'] = rng.choice([numpy.matrix, numpy.array])([[rng.choice([-1, 1, 1]) * 2.0 ** rng.randint(-3, 2) * rng.choice([1, 1, 1.25, .75]) for _ in range(n)]])
    with numpy.errstate(all='ignore'):
        try: R = rhoDFII(F, **k)
        except Exception:
            if sc is not None: return          # null scaling factors (not controllable)
            raise
    if not all(numpy.isfinite(numpy.asarray(getattr(R, x), dtype=float)).all() for x in NAMES): 
        need(sc is not None, 'rhoDFII %s: infinite coefficient' % k, a=a, b=b)
        return
    same(R, a, b, n, 'rhoDFII %s' % k, tol=1e-5 if sc else 1e-6)
@check('C18', 1, once=False)
def rejected(rng):
    from fixif.LTI import Filter
    from fixif.Structures import DFI, DFII, State_Space, rhoDFII, Structure, makeARealization
    a, b, F = rnd_filter(rng, 2, True)
    x = rng.choice([0, 3, -1, 4])
    expect(ValueError, lambda: DFI(F, nbSum=x), 'DFI, nbSum=%s' % x)
    expect(ValueError, lambda: State_Space(F, form='other'), 'State_Space, form=other')
    expect(ValueError, lambda: rhoDFII(F, scaling='other'), 'rhoDFII, scaling=other')
    expect(ValueError, lambda: makeARealization(F, 'unknown'), 'unknown structure')
    n, (p, q) = size(rng, 3), rng.choice([(1, 2), (2, 1), (2, 2)])
    M = {x: rnd_np(rng, *s, fn=lambda r: small(r)) for x, s in dict(A=(n, n), B=(n, q), C=(p, n), D=(p, q)).items()}
    G = Filter(**M)
    for S in (DFI, DFII, rhoDFII):
        expect(ValueError, lambda: S(G), '%s of a filter with several inputs or outputs' % S.name, p=p, q=q)
        need(not S.canAcceptFilter(G), '%s accepts a filter with several inputs or outputs' % S.name, p=p, q=q)
    if F.dTF.order >= 1:
        R = makeARealization(F, 'DFII', transposed=True)
        same(R, a, b, F.dTF.order, 'makeARealization DFII')
