from witness.common import *
import signal, numpy, random as pyrandom

class Slow(Exception): pass
def limited(fn, seconds=4):
    """the value of fn(), or Slow"""
    def stop(*a): raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try: return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
def mats(S): return [numpy.array(x, dtype=float) for x in (S.A, S.B, S.C, S.D)]
def mix(rng): numpy.random.seed(rng.randrange(2**31)); pyrandom.seed(rng.random())

@check('C26', 2)
def random_systems(rng):
    from fixif.LTI import random_dSS
    n, p, q = rng.choice([1, 1, 2, 3, 4, 5, 8]), rng.randint(1, 4), rng.randint(1, 4)
    pr = dict(pRepeat=rng.choice([0.01, .5, .9]), pReal=rng.choice([0, .5, .5, 1]), pBCmask=rng.choice([.9, .5, 1, 1]), pDmask=rng.choice([.8, .5]), pDzero=rng.choice([.5, 0, 1]))
    if rng.random() < .3: pr = {}
    s = rng.randrange(2**31)
    numpy.random.seed(s)
    inp = dict(n=n, p=p, q=q, probabilities=pr, numpy_seed=s)
    try: S = limited(lambda: random_dSS(n, p, q, **pr))
    except Slow: need(False, 'random_dSS does not end', **inp)
    A, B, C, D = mats(S)
    need((A.shape, B.shape, C.shape, D.shape) == ((n, n), (n, q), (p, n), (p, q)), 'sizes', got=[x.shape for x in (A, B, C, D)], **inp)
    need(all(numpy.isfinite(x).all() for x in (A, B, C, D)), 'a value is not finite', **inp)
    w, V = numpy.linalg.eig(A)
    if numpy.linalg.cond(V) < 1e7: need(max(abs(w)) < 1 + 1e-7, 'the system is not stable', poles=[complex(x) for x in w], **inp)
    need(B.any() and C.any(), 'all the entries of B or C are masked', B=B, C=C, **inp)
    if pr.get('pBCmask') == 1: need(B.all() and C.all(), 'entries are masked though the probability that they are not is 1', B=B, C=C, **inp)
    numpy.random.seed(s)
    S2 = random_dSS(n, p, q, **pr)
    need(all((x == y).all() for x, y in zip(mats(S), mats(S2))), 'the same draws give another system', **inp)
@check('C26', 1)
def iterated_systems(rng):
    from fixif.LTI import iter_random_dSS, iter_random_dSSmp
    mix(rng)
    n, p, q = [(a, a + rng.randint(1, 3)) for a in (rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3))]
    mp = rng.random() < .4
    if not mp:
        if rng.random() < .3: p = 1
        if rng.random() < .3: q = 1
    st, k = rng.random() < .6, rng.randint(0, 3)
    inp = dict(number=k, stable=st, n=n, p=p, q=q, multiple_precision=mp)
    L = list((iter_random_dSSmp if mp else iter_random_dSS)(k, st, n, p, q))
    need(len(L) == k, 'number of systems', got=len(L), **inp)
    for S in L:
        need(all(x == 1 if r == 1 else r[0] <= x < r[1] for x, r in ((S.n, n), (S.p, p), (S.q, q))), 'sizes', got=(S.n, S.p, S.q), **inp)
        shp = [(x.rows, x.cols) if mp else x.shape for x in (S.A, S.B, S.C, S.D)]
        need(shp == [(S.n, S.n), (S.n, S.q), (S.p, S.n), (S.p, S.q)], 'sizes of the matrices', got=shp, **inp)
        if st and not mp:
            w, V = numpy.linalg.eig(mats(S)[0])
            if numpy.linalg.cond(V) < 1e7: need(max(abs(w)) < 1 + 1e-7, 'the system is not stable', poles=[complex(x) for x in w], **inp)
@check('C26', 1)
def refused_sizes(rng):
    from fixif.LTI import random_dSS
    d = [rng.randint(1, 3) for _ in range(3)]
    d[rng.randrange(3)] = rng.choice([0, -1, -3, 1.5, .5])
    try: random_dSS(*d)
    except ValueError: return
    need(False, 'random_dSS accepts these sizes', n_p_q=d)
SYS = lambda F: mats(F.dSS)
@check('C26', 1)
def random_filters(rng):
    from fixif.LTI import random_Filter, iter_random_Filter
    mix(rng)
    n, p, q = rng.randint(1, 6), rng.randint(1, 3), rng.randint(1, 3)
    s = rng.choice([0, 1, 7, rng.randrange(2**31), rng.randrange(2**31)])
    inp = dict(n=n, p=p, q=q, seed=s)
    F = random_Filter(n, p, q, seed=s)
    need((F.dSS.n, F.dSS.p, F.dSS.q) == (n, p, q), 'sizes', **inp)
    need(F.isStable() is True, 'the filter is not announced stable', **inp)
    mix(rng)
    for what, G in (('its seed', lambda: random_Filter(n, p, q, seed=s)), ('its name', lambda: random_Filter(name=F.name))):
        G = G()
        need(all(x.shape == y.shape and (x == y).all() for x, y in zip(SYS(F), SYS(G))), 'the filter drawn again from %s is not the same' % what, name=F.name, **inp)
        need(G.name == F.name, 'the name differs', names=(F.name, G.name), **inp)
    mix(rng)
    G = random_Filter(n, p, q)
    need((G.dSS.n, G.dSS.p, G.dSS.q) == (n, p, q), 'sizes (no seed)', **inp)
    for bad in ('RandomFilter-3/1-12', 'Filter', 'RandomFilter'):
        try: random_Filter(name=bad)
        except ValueError: continue
        need(False, 'the name %r is accepted' % bad)
    rn, rp, rq = [(a, a + rng.randint(1, 3)) for a in (rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3))]
    ft = rng.choice(['SISO', 'SIMO', 'MISO', 'MIMO', 'all'])
    sd = rng.random() < .6
    L = list(iter_random_Filter(3, n=rn, p=rp, q=rq, seeded=sd, ftype=ft))
    inp = dict(n=rn, p=rp, q=rq, ftype=ft, seeded=sd)
    need(len(L) == 3, 'number of filters', **inp)
    for F in L:
        S = F.dSS
        need(rn[0] <= S.n < rn[1], 'number of states', got=S.n, **inp)
        one = {'SISO': (1, 1), 'SIMO': (0, 1), 'MISO': (1, 0), 'MIMO': (0, 0)}
        ok = [f for f, (a, b) in one.items() if (S.p == 1 if a else rp[0] <= S.p < rp[1]) and (S.q == 1 if b else rq[0] <= S.q < rq[1])]
        need(ok if ft == 'all' else ft in ok, 'numbers of inputs and outputs', got=(S.p, S.q), **inp)
        if sd:
            mix(rng)
            need(all((x == y).all() for x, y in zip(SYS(F), SYS(random_Filter(name=F.name)))), 'a filter drawn again from its name is not the same', name=F.name, **inp)
def span(rng, lo, hi):
    a, b = sorted((rng.uniform(lo, hi), rng.uniform(lo, hi)))
    return (a, b)
def within(x, r): return r[0] <= x <= r[1]
@check('C26', 1)
def random_designs(rng):
    from fixif.LTI import random_Butter, random_Elliptic, iter_random_Butter, iter_random_Elliptic
    mix(rng)
    ell = rng.random() < .5
    n = (lambda a: (a, a + rng.randint(1, 4)))(rng.randint(1, 6))
    k = dict(n=n, Wc=span(rng, .1, .8), W1=span(rng, .1, .4), W2=span(rng, .42, .8), form=rng.choice([None, 'lowpass', 'highpass', 'bandpass', 'bandstop']))
    if rng.random() < .4:    # one range holds the other
        x = sorted(rng.uniform(.1, .85) for _ in range(4))
        k.update(W1=(x[1], x[2]), W2=(x[0], x[3]))
    if ell: k.update(rp=span(rng, .5, 5), rs=span(rng, 20, 50))
    else: k['onlyEven'] = rng.random() < .5
    one, many = (random_Elliptic, iter_random_Elliptic) if ell else (random_Butter, iter_random_Butter)
    s = rng.choice([None, 0, 1, 5, rng.randrange(2**31), rng.randrange(2**31)])
    inp = dict(k, seed=s, design='elliptic' if ell else 'Butterworth')
    sd = rng.random() < .5
    L = [one(seed=s, **k)] + list(many(2, seeded=sd, **k))
    for i, F in enumerate(L):
        t = F.etype if ell else F.btype
        need(t == k['form'] if k['form'] else t in ('lowpass', 'highpass', 'bandpass', 'bandstop'), 'type of the filter', got=t, **inp)
        need(n[0] <= F.n < n[1] or (F.n == n[1] and k.get('onlyEven')), 'order', got=F.n, **inp)
        o = F.n * (2 if t in ('bandpass', 'bandstop') else 1)
        need(max(F.dTF.num.shape[1], F.dTF.den.shape[1]) == o + 1, 'order of the transfer function', got=max(F.dTF.num.shape[1], F.dTF.den.shape[1]) - 1, want=o, **inp)
        if k.get('onlyEven'): need(F.n % 2 == 0, 'an odd order though only even ones are asked', got=F.n, **inp)
        if t in ('bandpass', 'bandstop'):
            need(within(F.Wn[0], k['W1']) and within(F.Wn[1], k['W2']) and F.Wn[0] < F.Wn[1], 'critical frequencies', got=list(F.Wn), **inp)
        else: need(within(F.Wn, k['Wc']), 'critical frequency', got=F.Wn, **inp)
        if ell: need(within(F.rp, k['rp']) and within(F.rs, k['rs']), 'ripple and attenuation', got=(F.rp, F.rs), **inp)
        need(F.isStable() is True, 'the filter is not announced stable', **inp)
        seed = s if i == 0 else int(F.name.split('-')[-1]) if sd else None
        if seed is not None:
            mix(rng)
            G = one(seed=seed, **k)
            need(F.name == G.name and F.dTF.num.shape == G.dTF.num.shape and (F.dTF.num == G.dTF.num).all() and (F.dTF.den == G.dTF.den).all(), 'the filter drawn again from its seed is not the same', names=(F.name, G.name), **inp)
            need(F.name.split('-')[-1] == str(seed), 'the seed is in the name', name=F.name, **inp)
@check('C26', 1)
def random_transfer_functions(rng):
    from fixif.LTI import random_dTF, iter_random_dTF, iter_random_dTFmp
    from fixif.LTI.dTFmp import random_dTFmp
    mix(rng)
    a = rng.randint(1, 6)
    o = (a, a + rng.randint(0, 3))
    for f, L in (('random_dTF', [random_dTF(o)] + list(iter_random_dTF(2, o))), ('random_dTFmp', [random_dTFmp(o)] + list(iter_random_dTFmp(2, o)))):
        need(len(L) == 3, 'number of transfer functions', order=o)
        for H in L:
            k = max(H.num.shape if f == 'random_dTF' else (H.num.rows, H.num.cols)) - 1
            need(o[0] <= k < max(o[1], o[0] + 1), f + ': order', got=k, order=o)
@check('C26', 1)
def random_specifications(rng):
    from fixif.LTI.Gabarit import random_Gabarit, iter_random_Gabarit
    mix(rng)
    s = rng.choice([None, 0, 1, rng.randrange(2**24)])
    G = random_Gabarit(rng.choice([None, 'lowpass']), seed=s)
    for g in [G] + list(iter_random_Gabarit(2)):
        (a, b), (c, d) = [(x.F1, x.F2) for x in g.bands]
        need(0 == a < b < c < d == g.bands[0].Fs / 2, 'the bands are in order', seed=s, bands=[(a, b), (c, d)], Fs=g.bands[0].Fs)
        need(g.bands[0].isPassBand and not g.bands[1].isPassBand, 'kinds of the bands', seed=s, got=str(g))
        need(g.bands[0].passGains[0] <= g.bands[0].passGains[1], 'the pass gains are in order', seed=s, got=str(g))
        if s is not None: need(g is not G or g.seed == s, 'the seed is kept', seed=s, got=g.seed)
        mix(rng)
        h = random_Gabarit(seed=g.seed)
        need([(x.F1, x.F2) for x in g.bands] == [(x.F1, x.F2) for x in h.bands] and str(g.bands) == str(h.bands), 'the specification drawn again from its seed is not the same', seed=g.seed, asked=s)
    try: random_Gabarit('nothing')
    except ValueError: return
    need(False, 'an unknown form is accepted')
