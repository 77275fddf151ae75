"""C20: realizations read from Simulink diagrams"""
from vx.contract import *
from vx import sym
import random, zipfile, tempfile, shutil, os, sys
sys.path.append('/verif')
from witness.diagrams import Diagram, meaning

LEVEL = 'other'
ASSUME = ['machine arithmetic is treated as real arithmetic']
TRUSTED = ['lxml and zipfile give the content of the file (the real ones are run)']
BOUNDED = [('diagram', 'the 280 (thorough: 3000) diagrams drawn (up to 3 inputs, 3 delays, 9 gains and sums, 3 outputs, 3 subsystems, nested or not), all the values of their gains'), ('reorganize', 'at most 3 (thorough: 4) intermediate variables, all the values of the matrices')]

def same(h, what, a, b):
    a, b = [x if isinstance(x, GE) else sym.to_real(x).ge for x in (a, b)]
    d = (a - b).light()
    if d.terms: h.ensure(what, f_rc('==', d))
    else: h.ensure(what, True)

def units(v):
    at = lambda nm: (lambda *a: GE.atom(nm, *[IP.const(x) for x in a]))
    def diagram(h, seed):
        rng = random.Random(seed)
        D = Diagram(rng, rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3]), rng.randint(1, 9), rng.choice([1, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3]),
                    (lambda k: ('k%d' % k, None)))
        h.load('fixif.SIF')
        imp = h.load('fixif.Structures.Simulink').importSimulink
        d = tempfile.mkdtemp()
        try:
            f = os.path.join(d, 'a.slx')
            with zipfile.ZipFile(f, 'w') as z: z.writestr('simulink/blockdiagram.xml', D.xml())
            K = {g.gain[0]: h.real(g.gain[0]) for g in D.gains}
            R = imp(f, K)
        finally: shutil.rmtree(d)
        X, Y, n, m = D.equations(GE0, GE1, lambda g: GE.atom(g.gain[0]))
        h.ensure('one state per delay, one input per Inport, one output per output block', (R.n, R.q, R.p) == (n, m, len(Y)))
        l = R.l
        e = lambda M, i, j: M.entry(IP.const(i), IP.const(j))
        Z = {}
        for nm, r, c in (('J', l, l), ('K', n, l), ('L', len(Y), l), ('M', l, n), ('N', l, m), ('P', n, n), ('Q', n, m), ('R', len(Y), n), ('S', len(Y), m)):
            M = getattr(R, nm)
            h.shape(nm, M, r, c)
            Z[nm] = [[e(M, i, j) for j in range(c)] for i in range(r)]
        for i in range(l):
            for j in range(i, l): same(h, 'J is lower triangular with a unit diagonal', Z['J'][i][j], GE1 if i == j else GE0)
        gx, gy = meaning(*[Z[x] for x in 'JKLMNPQRS'], GE0)
        for what, G, F in (('next state', gx, X), ('output', gy, Y)):
            for i in range(len(F)):
                for k in range(2):
                    for j in range((n, m)[k]): same(h, '%s %d: coefficient of %s %d' % (what, i, ('state', 'input')[k], j), G[i][k][j], F[i][k][j])
    for s in range(280 if v.tier == 'quick' else 3000):
        v.unit('diagram %d' % s, lambda h, s=s: diagram(h, s))

    def reorganize(h, l):
        """the intermediate variables are permuted, so that J is lower triangular (when it is possible)"""
        n, m, p = 2, 1, 1
        h.load('fixif.SIF'); h.load('fixif.Structures.Simulink')
        S = h.ver.loader.mods['fixif.Structures.Simulink.sif'].Sif(l, m, n, p)
        fill = lambda nm, r, c: [[h.real('%s%d%d' % (nm, i, j)) for j in range(c)] for i in range(r)]
        g = lambda nm, i, j: GE.atom('%s%d%d' % (nm, i, j))
        dims = dict(J=(l, l), K=(n, l), L=(p, l), M=(l, n), N=(l, m), P=(n, n), Q=(n, m), R=(p, n), S=(p, m))
        for nm, (r, c) in dims.items(): setattr(S, nm, fill(nm, r, c))
        for i in range(l): S.J[i][i] = 1.0
        S.t = ['t%d' % i for i in range(l)]
        S.x, S.u, S.y = ['x0', 'x1'], ['u0'], ['y0']
        try: S.reorganize()
        except SystemExit:
            edges = [(i, j) for i in range(l) for j in range(l) if i != j and h.c.entails(f_not(f_rc('==', g('J', i, j))))]
            alive = set(range(l))          # a cycle remains when the nodes without predecessor are removed, again and again
            while True:
                free = [i for i in alive if not any(a == i and b in alive for a, b in edges)]
                if not free: break
                alive -= set(free)
            h.ensure('refused only when there is an algebraic loop', len(alive) > 0)
            return
        h.ensure('a permutation of the intermediate variables', sorted(S.t) == ['t%d' % i for i in range(l)])
        o = [int(x[1:]) for x in S.t]
        J0 = lambda i, j: GE1 if i == j else g('J', i, j)
        for nm, (r, c) in dims.items():
            M = getattr(S, nm)
            h.ensure('size of %s' % nm, len(M) == r and all(len(x) == c for x in M))
            for i in range(r):
                for j in range(c):
                    a, b = o[i] if nm in 'JMN' else i, o[j] if nm in 'JKL' else j
                    same(h, '%s%s' % (nm, [i, j]), M[i][j], J0(a, b) if nm == 'J' else g(nm, a, b))
        for i in range(l):
            for j in range(i + 1, l): same(h, 'J is lower triangular', S.J[i][j], GE0)
        h.ensure('the other names are kept', (S.x, S.u, S.y) == (['x0', 'x1'], ['u0'], ['y0']))
    for l in (0, 1, 2, 3) + ((4,) if v.tier != 'quick' else ()):
        v.unit('reorganize %d' % l, lambda h, l=l: reorganize(h, l))
