"""C22: frequency specifications"""
import itertools, sys
from vx.contract import *
from vx.libs import MODS, SollyaObject_t

ASSUME = ['machine arithmetic is treated as real arithmetic', 'the sampling frequency and the upper edges given are positive (None stands for half the sampling frequency)']
TRUSTED = ['scipy.signal.iirdesign is only called (any numerator and denominator may be returned)', 'sollya: exact numbers, round(x, 53, RU/RD) rounds up/down, Interval and parse only carry their arguments',
           'matplotlib draws what it is given']
BOUNDED = [('specification of', 'specifications of at most 4 bands (arbitrary different frequencies, and gains, in any order)'), ('findMinimumMargin', 'at most 3 iterations')]
G = 'fixif.LTI.Gabarit'
def pw10(g): return GE.atom('powc', GE.const(10), GE.of(g).light())
def up(g): return GE.atom('rd53:RU', GE.of(g).light())
def dn(g): return GE.atom('rd53:RD', GE.of(g).light())
class Interval:
    def __init__(self, a, b): self.a, self.b = a, b
def setup(h):
    """the external modules"""
    s = MODS['sollya']
    s.pi, s.Interval = 'sollya.pi', Interval
    s.round = lambda x, p, m: SReal(GE.atom('rd%d:%s' % (p, m), to_real(x).ge.light()), 'sollya')
    s.suppressmessage = s.execute = lambda *a: None
    h.load('fixif.LTI'); m = h.ver.loader.mods[G]
    m.Gabarit.isSollyaRunning = None
    return m
def edges(h, i, end):
    """frequencies of a band; the upper one may be None"""
    a = h.real('fa%d' % i)
    if end: return a, None
    b = h.real('fb%d' % i)
    h.assume(b > 0)
    return a, b
def gains(h, i, isp, ordered=False):
    if not isp: return h.real('s%d' % i)
    p, q = h.real('p%d' % i), h.real('q%d' % i)
    h.assume(f_rc('>', q.ge - p.ge) if ordered else f_not(f_rc('==', p.ge - q.ge)))       # (equal gains: one more contract)
    return p, q
def freq(h, kind):
    if kind == 'Nyquist': return None, SReal(GE.const(2), 'float')
    F = h.real('Fs')
    h.assume(F > 0)
    return F, F
def mn(a, b): return ite(f_rc('>=', a.ge - b.ge), b.ge, a.ge)
def mx(a, b): return ite(f_rc('>=', a.ge - b.ge), a.ge, b.ge)
R = lambda g: SReal(g, 'float')

def check_band(h, what, b, Fs, f, g, isp, d=None, hi=None):
    """b is the band (f) of gains g, shifted by d and with the margin hi"""
    d = d if d is not None else GE0
    hi = hi if hi is not None else GE0
    h.eq(what + ': Fs', b.Fs, Fs)
    h.eq(what + ': F1', b.F1, f[0])
    half = f[1] if f[1] is not None else R(Fs.ge.scale(Fraction(1, 2)))
    h.eq(what + ': F2', b.F2, half)
    h.eq(what + ': w1', b.w1, R(GE.const(2) * f[0].ge) / Fs)
    h.eq(what + ': w2', b.w2, R(GE.const(2) * f[1].ge) / Fs if f[1] is not None else 1)
    h.ensure(what + ': a pass band, or not', b.isPassBand is isp)
    if isp:
        h.ensure(what + ': no stop gain', b.stopGain is None)
        h.ensure(what + ': two gains', len(b.passGains) == 2)
        h.eq(what + ': lower gain', b.passGains[0], R(mn(*g) - d + hi))
        h.eq(what + ': upper gain', b.passGains[1], R(mx(*g) - d - hi))
    else:
        h.ensure(what + ': no pass gain', b.passGains is None)
        h.eq(what + ': gain', b.stopGain, R(g.ge - d - hi))

def units(v):
    for kind in ('Hz', 'Nyquist'):
        for isp in (True, False):
            for end in (False, True):
                for seq in ((tuple, list) if isp else (None,)):
                    def body(h, kind=kind, isp=isp, end=end, seq=seq):
                        Band = setup(h).Band
                        Fs, F = freq(h, kind)
                        f, g = edges(h, 0, end), gains(h, 0, isp)
                        b = Band(Fs, f[0], f[1], seq(g) if isp else g)
                        check_band(h, 'band', b, F, f, g, isp)
                        d = h.real('d')
                        c = b - d
                        h.ensure('shifted: another band', isinstance(c, Band) and c is not b)
                        check_band(h, 'shifted', c, F, f, g, isp, d.ge)
                        check_band(h, 'not changed by the shift', b, F, f, g, isp)
                        e = (c - R(-d.ge))
                        check_band(h, 'shifted back', e, F, f, g, isp)
                        m = h.real('m')
                        c.applyDesignMargin(m)
                        check_band(h, 'with a margin', c, F, f, g, isp, d.ge, m.ge)
                        check_band(h, 'not changed by the margin of the other', b, F, f, g, isp)
                        for bad in ('a', None, [1], {}): h.raises('a shift by %r is refused' % (bad,), ValueError, lambda bad=bad: b - bad)
                    v.unit('Band (%s, %s, %s%s)' % (kind, 'pass' if isp else 'stop', 'to the end' if end else 'inside', ', list' if seq is list else ''), body)
                def body(h, kind=kind, isp=isp, end=end):
                    Band = setup(h).Band
                    Fs, F = freq(h, kind)
                    f, g = edges(h, 0, end), gains(h, 0, isp)
                    b = Band(Fs, f[0], f[1], g)
                    m = h.real('m')
                    lo = pw10(mn(*g).scale(Fraction(1, 20))) - m.ge if isp else GE0
                    hi = pw10((mx(*g) if isp else g.ge).scale(Fraction(1, 20))) + m.ge
                    h.assume(f_rc('>', hi - lo))
                    c = b.sollyaConstraint(m)
                    h.ensure('keys', set(c) == {'Omega', 'omegaFactor', 'betaInf', 'betaSup'})
                    h.eq('betaInf: lower gain minus the margin, rounded up', c['betaInf'], SReal(up(lo), 'sollya'))
                    h.eq('betaSup: upper gain plus the margin, rounded down', c['betaSup'], SReal(dn(hi), 'sollya'))
                    h.ensure('Omega: an interval', isinstance(c['Omega'], Interval))
                    h.eq('Omega: w1', c['Omega'].a, R(GE.const(2) * f[0].ge) / F)
                    h.eq('Omega: w2', c['Omega'].b, R(GE.const(2) * f[1].ge) / F if f[1] is not None else 1)
                    h.ensure('factor', c['omegaFactor'] == 'sollya.pi')
                    check_band(h, 'not changed', b, F, f, g, isp)
                v.unit('Band.sollyaConstraint (%s, %s, %s)' % (kind, 'pass' if isp else 'stop', 'to the end' if end else 'inside'), body)
    for isp in (True, False):
        def body(h, isp=isp):
            Band = setup(h).Band
            Fs, F = freq(h, 'Hz')
            f, g = edges(h, 0, False), (SReal(GE0, 'float'), SReal(GE0, 'float')) if isp else 0
            b = Band(Fs, f[0], f[1], g)
            h.ensure('kind', b.isPassBand is isp)
            d = h.real('d')
            c = b - d
            h.ensure('kind of the shifted one', c.isPassBand is isp)
            for x in c.passGains if isp else (c.stopGain,): h.eq('shifted gain', x, R(-d.ge))
        v.unit('Band: 0 dB, %s' % ('pass' if isp else 'stop'), body)
    def body(h):
        Band = setup(h).Band
        a, b = (Band(SReal(GE.const(2), 'float'), *edges(h, i, False), gains(h, i, False)) for i in range(2))
        h.eq('order of the lower edges', bool(a < b), bool(h.real('fa0') < h.real('fa1')))
    v.unit('Band: order', body)
    # ---- specifications
    TYPES = {(True, False): 'lowpass', (False, True): 'highpass', (True, False, True): 'bandstop', (False, True, False): 'bandpass'}
    for k in (1, 2, 3, 4):
        for pat in itertools.product((True, False), repeat=k):
            def body(h, k=k, pat=pat):
                M = setup(h)
                Fs, F = freq(h, 'Hz')
                f, g = [edges(h, i, i == k - 1) for i in range(k)], [gains(h, i, p, k == 4) for i, p in enumerate(pat)]
                for i, j in itertools.combinations(range(k), 2): h.assume(f_not(f_rc('==', f[i][0].ge - f[j][0].ge)))
                keep = list(f), list(g)
                S = M.Gabarit(Fs, f, g, seed=7)
                h.ensure('seed', S.seed == 7)
                h.ensure('the arguments are not changed', all(x is y for u, w in zip(keep, (f, g)) for x, y in zip(u, w)) and len(f) == len(g) == k)
                B = S.bands
                h.ensure('number of bands', len(B) == k)
                perm = []
                for b in B:
                    i = [i for i in range(k) if to_real(b.F1).ge == f[i][0].ge]
                    perm.append(i[0] if len(i) == 1 else None)
                h.ensure('every band once', sorted(perm, key=str) == list(range(k)))
                for b, c in zip(B, B[1:]): h.ensure('sorted', b.F1 < c.F1)
                for n, (b, i) in enumerate(zip(B, perm)): check_band(h, 'band %d' % i, b, F, f[i], g[i], pat[i])
                want = TYPES.get(tuple(pat[i] for i in perm), 'multiband')
                h.ensure('type', S.type == want)
                h.ensure('type, asked again', S.type == want)
                for n, (b, i) in enumerate(zip(S.bands, perm)): h.ensure('the bands are not changed', b is B[n])
                if k == 4: return
                m = S.maxGain()
                tops = [R(mx(*g[i])) if pat[i] else g[i] for i in range(k)]
                h.ensure('maximum gain: not lower than the gain of any band', f_and(*[f_rc('>=', to_real(m).ge - t.ge) for t in tops]))
                h.ensure('maximum gain: the gain of a band', f_or(*[f_rc('==', to_real(m).ge - t.ge) for t in tops]))
            v.unit('specification of %d bands: %s' % (k, ''.join('SP'[x] for x in pat)), body)
    for a, b in ((1, 2), (2, 1), (0, 1), (3, 2), (2, 4)):
        def body(h, a=a, b=b):
            M = setup(h)
            h.raises('ValueError', ValueError, M.Gabarit, None, [edges(h, i, False) for i in range(a)], [gains(h, i, i % 2 == 0) for i in range(b)])
        v.unit('specification: %d bands and %d gains are refused' % (a, b), body)
    # ---- design
    for typ, pat in (('lowpass', 'PS'), ('highpass', 'SP'), ('bandpass', 'SPS'), ('bandstop', 'PSP')):
        for same in ((True,) if len(pat) == 2 else (True, False)):
            for cz in (False, True):
                def body(h, typ=typ, pat=pat, same=same, cz=cz):
                    M = setup(h)
                    k = len(pat)
                    Fs, F = freq(h, 'Hz')
                    f, g = [edges(h, i, i == k - 1) for i in range(k)], [gains(h, i, x == 'P') for i, x in enumerate(pat)]
                    for i in range(k - 1): h.assume(f[i][0] < f[i + 1][0])
                    lowest = lambda i: mn(*g[i]) if pat[i] == 'P' else g[i].ge
                    if k == 3:
                        e = f_rc('==', lowest(0) - lowest(2))
                        if typ == 'bandstop' and same: g[2] = g[0]
                        else: h.assume(e if same else f_not(e))
                    n = h.int('n', 1)
                    calls = []
                    def design(*a, **kw):
                        calls.append((a, kw))
                        row = lambda x, m: SMat.gen(m, IP1, lambda i, j: GE.atom(x, i), 'array', 'float', 1)
                        return row('b', n + 1), SMat.gen(IP.of(n) + 1, IP1, lambda i, j: GE1.guard(f_eq(i)) + GE.atom('a', i).guard(f_le(1, i)), 'array', 'float', 1)
                    M.iirdesign = design
                    MODS['scipy.signal'].iirdesign = design
                    S = M.Gabarit(Fs, f, g)
                    m = h.real('m')
                    run = lambda: S.to_dTF(ftype='ellip', designMargin=m, centeredZero=cz)
                    if not same:
                        h.raises('different attenuations: ValueError', ValueError, run)
                        return
                    T = run()
                    P = [i for i in range(k) if pat[i] == 'P']
                    cs = [(g[i][0].ge + g[i][1].ge).scale(Fraction(1, 2)) for i in P]
                    centre = cs[0]
                    h.ensure('one call', len(calls) == 1)
                    (wp, ws, gp, gs), kw = calls[0]
                    h.ensure('digital design of the type asked', kw == dict(analog=False, ftype='ellip'))
                    w = lambda x: R(GE.const(2) * x.ge) / F
                    lo, up_ = (lambda i: w(f[i][0])), (lambda i: w(f[i][1]) if f[i][1] is not None else 1)
                    want = {'lowpass': lambda: (up_(0), lo(1)), 'highpass': lambda: (lo(1), up_(0)), 'bandpass': lambda: ([lo(1), up_(1)], [up_(0), lo(2)]), 'bandstop': lambda: ([up_(0), lo(2)], [lo(1), up_(1)])}[typ]()
                    for what, x, y in (('pass', wp, want[0]), ('stop', ws, want[1])):
                        x, y = (x, y) if isinstance(y, list) else ([x], [y])
                        h.ensure('number of edges', len(x) == len(y))
                        for u, z in zip(x, y): h.eq('edges of the %s bands' % what, u, z)
                    st = pat.index('S')
                    h.eq('maximum loss in the pass bands', gp, R(centre - lowest(P[0]) - m.ge))
                    h.eq('minimum attenuation in the stop bands', gs, R(centre - g[st].ge + m.ge))
                    fac = GE1 if cz else pw10(centre.scale(Fraction(1, 20)))
                    h.ensure('a dTF', isinstance(T, h.load('fixif.LTI').dTF))
                    h.matrix_is('numerator', T.num, 1, IP.of(n) + 1, lambda i, j: GE.atom('b', j) * fac)
                    h.matrix_is('denominator', T.den, 1, IP.of(n) + 1, lambda i, j: GE1.guard(f_eq(j)) + GE.atom('a', j).guard(f_le(1, j)))
                    for i, b in enumerate(S.bands): check_band(h, 'not changed, band %d' % i, b, F, f[i], g[i], pat[i] == 'P')
                    h.ensure('type', S.type == typ)
                v.unit('Gabarit.to_dTF (%s%s%s)' % (typ, '' if same else ', different attenuations', ', centred' if cz else ''), body)
    for pat in ('P', 'PP', 'PPS', 'SPSP'):
        def body(h, pat=pat):
            M = setup(h)
            k = len(pat)
            f, g = [edges(h, i, False) for i in range(k)], [gains(h, i, x == 'P') for i, x in enumerate(pat)]
            for i in range(k - 1): h.assume(f[i][0] < f[i + 1][0])
            h.raises('ValueError', ValueError, M.Gabarit(None, f, g).to_dTF)
        v.unit('Gabarit.to_dTF: %s is refused' % pat, body)
    # ---- verification
    for ok in (True, False):
        def body(h, ok=ok):
            M = setup(h)
            f, g = [edges(h, 0, False), edges(h, 1, True)], [gains(h, 0, True), gains(h, 1, False)]
            h.assume(f[0][0] < f[1][0])
            S = M.Gabarit(None, f, g)
            seen, made = [], []
            def constraint(self, margin):
                made.append((self, margin))
                return 'constraint %d' % len(made)
            h.c.contracts[G + '.Band.sollyaConstraint'] = constraint
            MODS['sollya'].parse = lambda name: (lambda *a: (seen.append((name,) + a), {'okay': ok})[1])
            class TF:
                def to_Sollya(self): return 'num', 'den'
            m = h.real('m')
            r = S.check_dTF(TF(), m, 200)
            h.ensure('constraints of every band, with the margin', len(made) == 2 and all(x is b and y is m for (x, y), b in zip(made, S.bands)))
            h.ensure('check of the transfer function', seen[0] == ('checkModulusFilterInSpecification', 'num', 'den', ['constraint 1', 'constraint 2'], 200))
            h.ensure('verdict', r[0] is ok and r[1] == {'okay': ok})
        v.unit('Gabarit.check_dTF (%s)' % ok, body)
    for k in (0, 1, 2):
        def body(h, k=k):
            M = setup(h)
            S = M.Gabarit(None, [edges(h, 0, False)], [gains(h, 0, True)])
            seen = []
            def check(self, tf, margin=0, prec=165):
                seen.append((tf, margin))
                return len(seen) > k, 'res%d' % len(seen)
            h.c.contracts[G + '.Gabarit.check_dTF'] = check
            h.c.contracts[G + '.findMaxIssue'] = lambda res: R(GE.atom('issue', IP.const(int(res[3:]))))
            for i in range(k): h.assume(f_rc('>', GE.atom('issue', IP.const(i + 1))))
            m = S.findMinimumMargin('tf', h.real('m0'))
            h.ensure('the filter given is checked', all(x == 'tf' for x, _ in seen))
            h.ensure('as long as the check fails', len(seen) == k + 1)
            h.eq('the margin returned is one for which the check has passed', m, seen[-1][1])
            for i in range(k): h.eq('margin %d: the previous one, plus the largest violation' % i, seen[i + 1][1], SReal(up(to_real(seen[i][1]).ge + GE.atom('issue', IP.const(i + 1))), 'sollya'))
            h.eq('first margin', seen[0][1], SReal(up(GE.atom('m0')), 'sollya'))
        v.unit('Gabarit.findMinimumMargin: %d failures' % k, body)
