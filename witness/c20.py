from witness.common import *
from witness.diagrams import *
import numpy, os, tempfile, shutil, zipfile, io, contextlib

def imp(xml, constants=None):
    import fixif.SIF
    from fixif.Structures.Simulink import importSimulink
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, 'a.slx')
        with zipfile.ZipFile(f, 'w') as z: z.writestr('simulink/blockdiagram.xml', xml)
        with contextlib.redirect_stdout(io.StringIO()): return importSimulink(f, constants)
    finally: shutil.rmtree(d)
def rows(M): return [[frac(x) for x in r] for r in numpy.array(M).tolist()]

@check('C20', 10)
def diagram(rng):
    C = {}
    def value(k):
        v = rng.choice([2, -3, .5, 1, -1, rng.randint(-20, 20) / 8.0])
        if rng.random() < .4:
            C['k%d' % k] = v
            return 'k%d' % k, v
        return '', v
    D = Diagram(rng, rng.choice([1, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3]), rng.randint(1, 8), rng.choice([1, 1, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3]), value)
    xml = D.xml()
    inp = dict(diagram=D.describe())
    try: R = imp(xml, C)
    except SystemExit as e: need(False, 'a diagram is refused', **inp)
    except Exception as e: need(False, 'a diagram raises %s: %s' % (type(e).__name__, e), **inp)
    X, Y, n, m = D.equations(Fraction(0), Fraction(1), lambda g: Fraction(g.gain[1]))
    need((R.n, R.q, R.p) == (n, m, len(Y)), 'dimensions', got=(R.n, R.q, R.p), **inp)
    J = rows(R.J)
    need(all(J[i][i] == 1 and all(x == 0 for x in J[i][i + 1:]) for i in range(len(J))), 'J is not lower triangular with a unit diagonal', J=R.J.tolist(), **inp)
    Z = [rows(getattr(R, x)) for x in 'JKLMNPQRS']
    gx, gy = meaning(*Z, Fraction(0))
    fl = lambda L: [[float(x) for x in a + b] for a, b in L]
    need(fl(gx) == fl(X), 'next states', got=fl(gx), expected=fl(X), **inp)
    need(fl(gy) == fl(Y), 'outputs', got=fl(gy), expected=fl(Y), **inp)
