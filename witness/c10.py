from witness.common import *
from witness.c08 import impulse_tf, impulse_ss
from witness.c09 import rnd_coefs, shaped, coefs
import numpy

@check('C10', 1)
def conversion(rng):
    from fixif.LTI import dTF, dSS
    n = rng.randint(2, 6)
    b, a = rnd_coefs(rng, n), rnd_coefs(rng, rng.choice([n, rng.randint(1, n)]), True)
    if rng.random() < .2: b = b[:rng.randint(1, n)]
    if max(len(a), len(b)) < 2: return
    T = dTF(shaped(rng, b), shaped(rng, a))
    form = rng.choice([None, 'ctrl', 'obs'])
    s = coefs(T)
    S = T.to_dSS() if form is None else T.to_dSS(form)
    need(isinstance(S, dSS), 'type', S=S)
    need((S.n, S.p, S.q) == (T.order, 1, 1), 'sizes', got=(S.n, S.p, S.q), order=T.order)
    need(coefs(T) == s, 'the transfer function is modified')
    K = 2 * T.order + 3
    h, w = impulse_ss([fmat(S.A), fmat(S.B), fmat(S.C), fmat(S.D)], K), impulse_tf(s[0], s[1], K)
    # errors grow like the absolute impulse response
    g = impulse_tf([abs(x) for x in s[0]], [abs(x) if i == 0 else -abs(x) for i, x in enumerate(s[1])], K)
    top = Fraction(0)
    for k in range(K):
        top = max(top, g[k], sum(abs(x) for x in s[0]))
        need(abs(h[k][0][0] - w[k]) <= Fraction(1e-9) * max(1, top), 'to_dSS(%s): impulse response at %d' % (form, k), num=T.num, den=T.den, got=float(h[k][0][0]), want=float(w[k]))
    for bad in ('foo', None, 3, ''):
        expect(ValueError, lambda: T.to_dSS(bad), 'form %r' % (bad,))
