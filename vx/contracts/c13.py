"""C13: coherence of a SIF after any assignment"""
from vx.contract import *
from vx.contracts.sifs import *

ASSUME = ['machine arithmetic is treated as real arithmetic (except in the exact conversion)']
TRUSTED = ['numpy.linalg.inv returns the inverse', 'scipy.linalg.solve_discrete_lyapunov returns a solution of its equation']

def derived(h, R, F):
    hu_is(h, R, F); hzeta_is(h, R, F); hepsilon_is(h, R, F); gramians_are(h, R, F)
def query(R):
    return [R.Hu, R.Hzeta, R.Hepsilon, R.Wo, R.Wc, R.dSS, R.invJ, R.AZ, R.BZ, R.CZ, R.DZ]

def units(v):
    for tag in ('matrix', 'array'):
        def body(h, tag=tag):
            l, n, p, q = sizes(h)
            B = blocks(h, '', l, n, p, q, tag)
            R = h.load('fixif.SIF').SIF(tuple(B))
            F = Form.atoms('', l, n, p, q)
            coherent(h, 'construction', R, F)
            derived(h, R, F)
            for x, X, Y in zip(NAMES, B, R.JtoS):
                h.entries('the argument %s is not changed' % x, X, at(x))
                h.matrix_is('JtoS: %s' % x, Y, *dims(l, n, p, q)[x], at(x))
        v.unit('SIF(%s)' % tag, body)
    def assign(h, R, F, x, s):
        """R.x = a new arbitrary block; the new form"""
        l, n, p, q = F.l, F.n, F.p, F.q
        B, Ji = dict(F.B), F.Ji
        if x == 'Z':
            for y in NAMES: B[y] = at(y + s)
            unit_lower(h, 'J' + s, l); Ji = at('J' + s + 'i')
            cut = lambda i, a: (f_and(f_ge(i), f_lt(i, a[1])), f_and(f_le(a[1], i), f_lt(i, a[2])), f_and(f_le(a[2], i), f_lt(i, a[3])))
            rows, cols = (0, l, l + n, l + n + p), (0, l, l + n, l + n + q)
            def z(i, j):
                g = GE0
                for a, line in enumerate(('JMN', 'KPQ', 'LRS')):
                    for b, y in enumerate(line):
                        g = g + GE.atom(y + s, i - rows[a], j - cols[b]).scale(-1 if y == 'J' else 1).guard(f_and(cut(i, rows)[a], cut(j, cols)[b]))
                return g
            R.Z = SMat.gen(l + n + p, l + n + q, z, 'matrix', 'float')
        else:
            if x == 'J': unit_lower(h, 'J' + s, l); Ji = at('J' + s + 'i')
            B[x] = at(x + s)
            X = h.mat(x + s, *dims(l, n, p, q)[x])
            setattr(R, x, X)
            h.entries('the assigned matrix is not changed', X, at(x + s))
        return Form(l, n, p, q, B, Ji)
    for x in NAMES + 'Z':
        for asked in (True, False):
            def body(h, x=x, asked=asked):
                l, n, p, q = sizes(h)
                R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q)))
                if asked: query(R)
                F = assign(h, R, Form.atoms('', l, n, p, q), x, '2')
                coherent(h, 'after the assignment of %s' % x, R, F)
                derived(h, R, F)
            v.unit('assignment of %s%s' % (x, ', after the queries' if asked else ''), body)
    for x, y in (('J', 'M'), ('M', 'J'), ('Z', 'K'), ('P', 'Z'), ('S', 'S'), ('N', 'L'), ('Q', 'R')):
        def body(h, x=x, y=y):
            l, n, p, q = sizes(h)
            R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q)))
            query(R)
            F = assign(h, R, Form.atoms('', l, n, p, q), x, '2')
            query(R)
            F = assign(h, R, F, y, '3')
            coherent(h, 'after the assignments of %s and %s' % (x, y), R, F)
            derived(h, R, F)
        v.unit('assignments of %s then %s, with queries' % (x, y), body)
    def exact(h, l):
        l, n, p, q = sizes(h, l)
        lt_inverse_contract(h)
        R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q)))
        F = Form.atoms('', l, n, p, q)
        for k in (0, 1):
            E = R.to_dSSexact()
            h.ensure('the result is a dSSmp', isinstance(E, h.load('fixif.LTI').dSSmp))
            ss_of(h, 'to_dSSexact', E, F)
            no_rounding(h, 'to_dSSexact: nothing is rounded', E.A, E.B, E.C, E.D)
            if k == 0:
                F = assign(h, R, F, 'M', '2')
    v.unit('to_dSSexact', lambda h: exact(h, None))
    def body(h):
        l, n, p, q = sizes(h, 0)
        R = h.load('fixif.SIF').SIF(tuple(blocks(h, '', l, n, p, q, lower=False)))
        F = Form(l, n, p, q, {x: (lambda i, j: GE0) if 0 in [d.value if d.isconst else 1 for d in map(IP.of, dims(l, n, p, q)[x])] else at(x) for x in NAMES}, lambda i, j: GE0)
        ss_of(h, 'state-space', R.dSS, F)
        hepsilon_is(h, R, F); hu_is(h, R, F); hzeta_is(h, R, F)
        E = R.to_dSSexact()
        ss_of(h, 'to_dSSexact', E, F)
        no_rounding(h, 'to_dSSexact: nothing is rounded', E.A, E.B, E.C, E.D)
    v.unit('without temporaries (l = 0)', body)
    for w in ('diagonal', 'upper'):
        def body(h, w=w):
            l, n, p, q = sizes(h)
            B = blocks(h, '', l, n, p, q, lower=False)
            a, b = IP.sym('p0'), IP.sym('p1')
            for f in (f_ge(a), f_lt(a, l), f_ge(b), f_lt(b, l)): h.assume(f)
            if w == 'diagonal': h.assume(f_not(f_rc('==', at('J')(a, a) - 1)))
            else:
                h.assume(f_lt(a, b)); h.assume(f_not(f_rc('==', at('J')(a, b))))
            R = h.load('fixif.SIF').SIF(tuple(B))
            h.raises('ValueError', ValueError, R.to_dSSexact)
        v.unit('to_dSSexact: J that is not unit lower triangular is refused (%s)' % w, body)
    for x in NAMES:
        for k in (0, 1):
            def body(h, x=x, k=k):
                l, n, p, q = sizes(h)
                d = {y: list(s) for y, s in dims(l, n, p, q).items()}
                d[x][k] = IP.of(h.int('bad', 1))
                h.assume(f_not(f_same(d[x][k], dims(l, n, p, q)[x][k])))
                # the other matrices fix the dimensions (no other reading of the sizes is consistent)
                h.raises('ValueError', ValueError, h.load('fixif.SIF').SIF, tuple(h.mat(y, *d[y]) for y in NAMES))
            v.unit('SIF: wrong number of %s of %s' % (('rows', 'columns')[k], x), body)
