"""specifications shared by the contracts on linear systems"""
from vx.contract import *

def at(nm):
    return lambda i, j: GE.atom(nm, i, j)
def monic(h, nm, n, tag='matrix', col=False):
    """a polynomial of n coefficients (row or column) whose first coefficient is one"""
    f = lambda i: GE1.guard(f_eq(i)) + GE.atom(nm, i).guard(f_le(1, i))
    n = IP.of(n)
    if tag == 'mp' or col: return SMat.gen(n, IP1, lambda i, j: f(i), tag, 'mpf' if tag == 'mp' else 'float')
    return SMat.gen(IP1, n, lambda i, j: f(j), tag, 'float')
def monic_entry(nm, n):
    """entry function (null outside of the range)"""
    return lambda i: GE1.guard(f_eq(i)) + GE.atom(nm, i).guard(f_and(f_le(1, i), f_lt(i, n)))
def realizes(h, name, S, n, num, den):
    """the state-space system S (order n) has the transfer function num/den (num, den: IP -> GE, degree n, den(0) = 1).
    For an arbitrary sequence v, with u = den * v and y = num * v (products of convolution), the sequence of states x with
    x_i(k) = v(k-1-i) (or in the reverse order) is the one driven by u, and the output is y: the input-output relation is num/den.
    The transposed system has the same transfer function (one input, one output)."""
    n = IP.of(n)
    k, r = IP.sym('k0'), IP.sym('r?')
    V = lambda e: GE.atom('v', e)
    u = (den(r) * V(k - r)).sum('r?', 0, n + 1)
    y = (num(r) * V(k - r)).sum('r?', 0, n + 1)
    A, B, C, D = S.A, S.B, S.C, S.D
    for nm, M, (a, b) in (('A', A, (n, n)), ('B', B, (n, 1)), ('C', C, (1, n)), ('D', D, (1, 1))): h.shape('%s: size of %s' % (name, nm), M, a, b)
    def tries():
        why = None
        for tr in (False, True):
            a = (lambda i, j: A.entry(j, i)) if tr else A.entry
            b = (lambda i: C.entry(IP0, i)) if tr else (lambda i: B.entry(i, IP0))
            c = (lambda j: B.entry(j, IP0)) if tr else (lambda j: C.entry(IP0, j))
            for x in (lambda i, kk: V(kk - 1 - i), lambda i, kk: V(kk - n + i)):
                i = IP.sym(fresh('i'))
                g = h.c.all() + [f_ge(i), f_lt(i, n)]
                e1 = (a(i, r) * x(r, k)).sum('r?', 0, n) + b(i) * u - x(i, k + 1)
                e2 = (c(r) * x(r, k)).sum('r?', 0, n) + D.entry(IP0, IP0) * u - y
                w = ge_zero(e2, h.c.all(), h.c.rules)
                if w is True: w = ge_zero(e1, g, h.c.rules)
                if w is True: return True
                why = why or w
        return why
    h.c.oblige('%s: the transfer function is the given one' % name, tries)
