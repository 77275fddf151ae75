"""C17: trivial coefficients and operation counts"""
from vx.contract import *
from vx.contracts.sifs import *

ASSUME = ['machine arithmetic is treated as real arithmetic (the logarithms of the powers of two are checked on all the doubles that are powers of two)', 'the realization as it is built, when its matrices dJ..dS are not given']
TRUSTED = ['math.log(x, 2) is the base 2 logarithm; |2^d - 1| <= |d| for |d| <= 1']

def triv(g): return f_not(f_rc('==', GE.atom('triv', g.light())))
def units(v):
    def call(h, x, eps):
        h.load('fixif.SIF')
        return h.load('fixif.SIF.SIF').isTrivial(x, eps)
    for s in (1, -1):
        def body(h, s=s):
            m = h.int('m')
            P = sym.pow2(GE.ofint(IP.sym('m')))
            h.assume(f_rc('>', P))
            e = h.real('eps'); h.assume(f_rc('>', e.ge)); h.assume(f_rc('>', GE1 - e.ge))
            h.assume(f_rc('>', e.ge * (GE1 - e.ge.scale(Fraction(1, 2)))))        # product of two positive numbers
            h.ensure('trivial', call(h, SReal(P.scale(s)), e))
        v.unit('a power of two is trivial' + (' (negative)' if s < 0 else ''), body)
    def body(h):
        h.ensure('0 is trivial', call(h, SReal(GE0), h.real('eps')))
        h.ensure('0 is trivial', call(h, 0.0, 1e-8)); h.ensure('0 is trivial', call(h, 0, 1e-8))
    v.unit('zero is trivial', body)
    for sign in (1, -1):
        def body(h, sign=sign):
            x = h.real('x')
            h.assume(f_rc('>', x.ge.scale(sign)))
            a = x.ge.scale(sign)
            eps = h.load('fixif.SIF').SIF.epsilondZ
            h.ensure('the threshold is at most 1e-6', 0 < eps <= 1e-6)
            r = call(h, x, eps)
            f = form_of(r)
            # lemma (convexity of 2^d) for the integers p that the code considers: |log2(a) - p| <= eps  =>  |a - 2^p| <= eps 2^p
            L = GE.atom('log2', a.light())
            ps = [IP.sym(s) for s in sorted({s for g in h.c.gamma for s in f_syms(g)}) if s.split('!')[0][:2] in ('rn', 'fl', 'ce')] or [IP.sym('none')]
            e = GE.of(eps)
            near = F
            for p in ps:
                P = sym.pow2(GE.ofint(p))
                w = f_and(f_rc('>=', L - GE.ofint(p) + e), f_rc('>=', GE.ofint(p) - L + e))
                n = f_and(f_rc('>=', a - P + P * e), f_rc('>=', P - a + P * e))
                h.assume(f_implies(w, n))
                near = f_or(near, n)
            h.ensure('a trivial coefficient is within epsilon of a power of two', f_implies(f, near))
        v.unit('a trivial coefficient is close to a power of two' + (' (negative)' if sign < 0 else ''), body)
    def stub(h):
        h.c.memo['generic vectorize'] = True
        seen = []
        def isTrivial(x, epsilon):
            seen.append(epsilon)
            h.ensure('isTrivial: threshold', epsilon == h.load('fixif.SIF').SIF.epsilondZ)
            return mk_bool(triv(sym.to_real(x).ge))
        h.c.contracts['fixif.SIF.SIF.isTrivial'] = lambda *a, **k: isTrivial(*(list(a) + list(k.values())))
    for ll in (None, 0):
        def body(h, ll=ll):
            l, n, p, q = sizes(h, ll)
            stub(h)
            R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q, lower=ll is None)))
            mul, add = R.nbOp()
            # contract of isTrivial: 0 and 1 are trivial
            h.assume(triv(GE0)); h.assume(triv(GE1)); h.assume(triv(GE.const(-1)))
            i, j = IP.sym('i?'), IP.sym('j?')
            M = A = GE0
            for x, (r, c) in dims(l, n, p, q).items():
                if 0 in [d.value for d in map(IP.of, (r, c)) if d.isconst]: continue
                off = f_not(f_same(i, j)) if x == 'J' else T
                g = GE.atom(x, i, j)
                g1 = -g if x == 'J' else g
                M = M + GE1.guard(f_and(off, f_not(triv(g1)))).sum('j?', 0, c).sum('i?', 0, r)
                A = A + GE1.guard(f_and(off, f_not(f_rc('==', g)))).sum('j?', 0, c).sum('i?', 0, r)
            h.zero('multiplications: one per non trivial coefficient', sym.to_real(mul).ge - M)
            h.zero('additions: one less than the number of terms, per row', sym.to_real(add).ge - (A - GE.ofint(IP.of(l) + n + p)) + (GE.ofint(IP.of(l)) - GE1.sum('i?', 0, l)))     # the sum of 1 for i < l is l
        v.unit('nbOp' + ('' if ll is None else ', l = 0'), body)
