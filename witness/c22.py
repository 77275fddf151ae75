from witness.common import *
import numpy, itertools

def val(rng): return rng.choice([0, 0, -1, 3, -20, 5.5, rng.randint(-80, 20), round(rng.uniform(-60, 10), 3)])
def gain(rng, isp, typ=tuple):
    if not isp: return val(rng)
    a, b = val(rng), val(rng)
    return typ((a, b))
def layout(rng, k, Fs):
    """k bands with increasing edges"""
    top = Fs / 2.0 if Fs else 1.0
    e = sorted(rng.sample(range(1, 400), 2 * k - 1))
    e = [0 if rng.random() < .5 else e[0] * top / 400] + [x * top / 400 for x in e[1:]] + [None if rng.random() < .5 else top * .999]
    if k == 1: e[0] = 0
    f = [(e[2 * i], e[2 * i + 1]) for i in range(k)]
    return f
def lo(g): return min(g) if isinstance(g, (tuple, list)) else None
def hi(g): return max(g) if isinstance(g, (tuple, list)) else g
def eq(a, b): return a is None and b is None or a is not None and b is not None and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
def check_band(what, b, Fs, f, g, d=0, m=0):
    F = Fs if Fs else 2
    isp = isinstance(g, (tuple, list))
    inp = dict(Fs=Fs, edges=f, gain=g, shift=d, margin=m)
    need(b.isPassBand is isp, what + ': kind', **inp)
    need(eq(b.Fs, F) and eq(b.F1, f[0]) and eq(b.F2, F / 2.0 if f[1] is None else f[1]), what + ': edges', got=(b.Fs, b.F1, b.F2), **inp)
    need(eq(b.w1, 2.0 * f[0] / F) and eq(b.w2, 1 if f[1] is None else 2.0 * f[1] / F), what + ': normalised edges', got=(b.w1, b.w2), **inp)
    if isp: need(b.stopGain is None and len(b.passGains) == 2 and eq(b.passGains[0], lo(g) - d + m) and eq(b.passGains[1], hi(g) - d - m), what + ': gains', got=b.passGains, **inp)
    else: need(b.passGains is None and eq(b.stopGain, g - d - m), what + ': gain', got=b.stopGain, **inp)
def rate(rng): return rng.choice([None, 2, 1, 48000, 44100.0, 8000])

@check('C22', 10)
def band(rng):
    from fixif.LTI.Gabarit import Band
    Fs, isp = rate(rng), rng.random() < .5
    f, g = layout(rng, 1, Fs)[0], gain(rng, isp, rng.choice([tuple, list]))
    b = Band(Fs, f[0], f[1], g)
    check_band('band', b, Fs, f, g)
    d, m = val(rng), rng.choice([0, .1, 1, -2])
    c = b - d
    need(c is not b, 'another band')
    check_band('shifted', c, Fs, f, g, d)
    check_band('after a shift', b, Fs, f, g)
    if isp and hi(g) - lo(g) < 2 * m: return
    c.applyDesignMargin(m)
    check_band('with a margin', c, Fs, f, g, d, m)
    check_band('after a margin', b, Fs, f, g)
    bad = rng.choice(['a', None, [1], {}])
    expect(ValueError, lambda: b - bad, 'shift by %r' % (bad,))

@check('C22', 6)
def specification(rng):
    from fixif.LTI.Gabarit import Gabarit
    Fs, k = rate(rng), rng.choice([1, 2, 2, 3, 3, 4, 5])
    f = layout(rng, k, Fs)
    pat = [rng.random() < .5 for _ in range(k)] if rng.random() < .5 else [(i + rng.randrange(2)) % 2 == 0 for i in range(k)] if rng.random() < .3 else [(i + k) % 2 == 0 for i in range(k)]
    g = [gain(rng, p) for p in pat]
    o = list(range(k)); rng.shuffle(o)
    S = Gabarit(Fs, [f[i] for i in o], [g[i] for i in o])
    inp = dict(Fs=Fs, bands=[f[i] for i in o], gains=[g[i] for i in o])
    need(len(S.bands) == k, 'number of bands', **inp)
    for i, b in enumerate(S.bands): check_band('band %d in the order of the frequencies' % i, b, Fs, f[i], g[i])
    want = {(True, False): 'lowpass', (False, True): 'highpass', (True, False, True): 'bandstop', (False, True, False): 'bandpass'}.get(tuple(pat), 'multiband')
    for _ in range(2): need(S.type == want, 'type', got=S.type, want=want, **inp)
    need(S.maxGain() == max(hi(x) for x in g), 'maximum gain', got=S.maxGain(), **inp)
    j = rng.choice([x for x in (0, 1, k - 1, k + 1) if x != k])
    expect(ValueError, lambda: Gabarit(Fs, f, [val(rng) for _ in range(j)]), '%d bands and %d gains' % (k, j))

@check('C22', 4)
def design(rng):
    from fixif.LTI import Gabarit as G
    import sys
    M = sys.modules['fixif.LTI.Gabarit']
    Fs = rate(rng)
    typ = rng.choice(['lowpass', 'highpass', 'bandpass', 'bandstop'])
    pat = dict(lowpass='PS', highpass='SP', bandpass='SPS', bandstop='PSP')[typ]
    k = len(pat)
    f = layout(rng, k, Fs)
    c, w = rng.choice([0, 0, 3, -5.5]), rng.choice([.5, 1, 3])
    s = [-rng.choice([20, 40, 33.3]) for _ in range(k)]
    if rng.random() < .7: s = [s[0]] * k
    g = [rng.choice([tuple, list])((c - w / 2, c + w / 2)) if x == 'P' else s[i] for i, x in enumerate(pat)]
    if typ == 'bandstop' and rng.random() < .4: g[2] = (c - w / 2 - 1, c + w / 2 - 1)
    S = G(Fs, f, g)
    calls = []
    def fake(*a, **k):
        calls.append((a, k))
        return numpy.array([1.0, 2.0, 3.0]), numpy.array([1.0, .5, .25])
    m, cz = rng.choice([0, .1, -.1]), rng.random() < .5
    old = M.iirdesign
    M.iirdesign = fake
    inp = dict(Fs=Fs, bands=f, gains=g, margin=m, centeredZero=cz)
    try:
        run = lambda: S.to_dTF(ftype='ellip', designMargin=m, centeredZero=cz)
        if k == 3 and not eq(*[lo(g[i]) if pat[i] == 'P' else g[i] for i in (0, 2)]):
            expect(ValueError, run, 'different attenuations', **inp)
            return
        T = run()
    finally: M.iirdesign = old
    F = Fs if Fs else 2
    n = lambda x: 1 if x is None else 2.0 * x / F
    ctr = max((lo(x) + hi(x)) / 2.0 for x, y in zip(g, pat) if y == 'P')
    want = {'lowpass': lambda: (n(f[0][1]), n(f[1][0])), 'highpass': lambda: (n(f[1][0]), n(f[0][1])), 'bandpass': lambda: ([n(x) for x in f[1]], [n(f[0][1]), n(f[2][0])]), 'bandstop': lambda: ([n(f[0][1]), n(f[2][0])], [n(x) for x in f[1]])}[typ]()
    ip, ist = pat.index('P'), pat.index('S')
    flat = lambda x: [float(v) for v in numpy.ravel(x)]
    want = flat(want[0]) + flat(want[1]) + [ctr - lo(g[ip]) - m, ctr - g[ist] + m]
    need(len(calls) == 1, 'one design', **inp)
    got = sum([flat(x) for x in calls[0][0]], [])
    need(len(got) == len(want) and all(map(eq, got, want)), 'arguments of the design', got=got, want=want, **inp)
    need(calls[0][1] == dict(analog=False, ftype='ellip'), 'options of the design', got=calls[0][1])
    r = 1 if cz else 10 ** (ctr / 20.0)
    need(all(eq(float(x), y * r) for x, y in zip(numpy.ravel(T.num), (1, 2, 3))) and list(numpy.ravel(T.den)) == [1, .5, .25], 'level of the filter', got=T.num, factor=r, **inp)
    need(S.type == typ, 'type', **inp)
    for i, b in enumerate(S.bands): check_band('after a design: band %d' % i, b, Fs, f[i], g[i])

@check('C22', 1)
def refused(rng):
    from fixif.LTI import Gabarit as G
    pat = rng.choice(['P', 'PP', 'PPS', 'SPSP', 'PSPS'])
    Fs = rate(rng)
    S = G(Fs, layout(rng, len(pat), Fs), [gain(rng, x == 'P') for x in pat])
    expect(ValueError, lambda: S.to_dTF(), 'design of %s' % pat, bands=str(S))
