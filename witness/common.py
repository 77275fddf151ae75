"""Replay side of the checks: the contracts evaluated on the real code (CPython, the real numpy/scipy/mpmath) on concrete inputs.

Used (a) to find a failing input when the verifier does not accept an obligation, (b) to cross-check on every run the models of
the libraries that the verifier trusts.  Oracles are written with Fractions, independently of the code under test."""
import os, sys, json, random, time, traceback, warnings, io, contextlib
from fractions import Fraction
warnings.simplefilter('ignore')
REPO = os.environ.get('VX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (os.path.join(HERE, 'stubs'), REPO):
    if p not in sys.path: sys.path.insert(0, p)
sys.dont_write_bytecode = True

class Violation(Exception):
    def __init__(self, what, **inp):
        Exception.__init__(self, what)
        self.what, self.inp = what, inp

def need(cond, what, **inp):
    if not cond: raise Violation(what, **inp)

def show(x):
    try: s = repr(x)
    except Exception as e: s = '<%s>' % e
    return s if len(s) < 1500 else s[:1500] + '...'

CHECKS = {}
def check(prop, weight=1, once=False, known=None):
    """register a randomised check: fn(rng)"""
    def deco(fn):
        CHECKS.setdefault(prop, []).append((fn.__name__, fn, weight, once))
        return fn
    return deco

# ------------------------------------------------------------------ numbers
def frac(x):
    """exact value of a number of the code under test"""
    import mpmath, numpy
    if isinstance(x, Fraction): return x
    if isinstance(x, (int, numpy.integer)): return Fraction(int(x))
    if isinstance(x, (float, numpy.floating)): return Fraction(float(x))
    if isinstance(x, mpmath.mpf):
        s, m, e, b = x._mpf_
        if m == 0 and e != 0: raise Violation('not a finite number: %r' % x)
        v = Fraction(int(m)) * (Fraction(2) ** e)
        return -v if s else v
    if isinstance(x, mpmath.mpc):
        if x.imag != 0: raise Violation('complex value %r' % x)
        return frac(x.real)
    raise Violation('not a number: %r (%s)' % (x, type(x)))
def fmat(M):
    """matrix -> list of lists of Fractions"""
    import mpmath, numpy
    if isinstance(M, mpmath.matrix): return [[frac(M[i, j]) for j in range(M.cols)] for i in range(M.rows)]
    A = numpy.asarray(M)
    if A.ndim == 1: return [[frac(x) for x in A.tolist()]]
    return [[frac(x) for x in r] for r in A.tolist()]
def rnd_double(rng, kind=None):
    """a double: small integers, dyadics, general values, extreme exponents, negative zero"""
    k = kind if kind is not None else rng.randrange(9)
    if k == 0: return float(rng.randint(-4, 4))
    if k == 1: return rng.randint(-64, 64) / 16.0
    if k == 2: return rng.uniform(-1, 1)
    if k == 3: return rng.uniform(-1, 1) * 2.0 ** rng.randint(-60, 60)
    if k == 4: return rng.choice([0.1, -0.1, 1/3., -2/3., 1e-17, -1e17, 1.0 + 2**-52, -0.0, 0.0, 1.0, -1.0])
    if k == 5: return rng.uniform(-100, 100)
    if k == 6: return float(rng.randint(-2**53, 2**53))
    if k == 8: return near(rng)
    return rng.choice([0.0, 1.0, rng.uniform(-2, 2)])
def near(rng):
    """close to a special value, without being it"""
    return rng.choice([0.0, 1.0, -1.0, 1.0, -1.0, 2.0, 0.5, -0.5]) + rng.choice([-1, 1]) * 10.0 ** -rng.randint(2, 15)
def rnd_mpf(rng, wide=True):
    """an exactly representable mpf; `wide`: more bits than the working precision"""
    import mpmath
    if not wide or rng.random() < .4: return mpmath.mpf(rnd_double(rng))
    m = rng.getrandbits(rng.choice([20, 53, 90, 200, 400])) * rng.choice([1, -1])
    e = rng.randint(-120, 60) if rng.random() < .95 else rng.randint(-3000, 3000)
    return mpmath.mp.make_mpf(mpmath.libmp.from_man_exp(m, e))
def rnd_np(rng, r, c, cls=None, fn=None):
    import numpy
    A = numpy.array([[(fn or rnd_double)(rng) for _ in range(c)] for _ in range(r)], dtype=float).reshape(r, c)
    if cls is None: cls = rng.choice(['matrix', 'array'])
    return numpy.matrix(A) if cls == 'matrix' else A
def rnd_mpm(rng, r, c, wide=True, fn=None):
    import mpmath
    M = mpmath.matrix(r, c)
    for i in range(r):
        for j in range(c): M[i, j] = fn(rng) if fn else rnd_mpf(rng, wide)
    return M
def fadd(A, B): return [[x + y for x, y in zip(a, b)] for a, b in zip(A, B)]
def fsub(A, B): return [[x - y for x, y in zip(a, b)] for a, b in zip(A, B)]
def fmul(A, B):
    n = len(B)
    c = len(B[0]) if n else 0
    return [[sum((A[i][k] * B[k][j] for k in range(n)), Fraction(0)) for j in range(c)] for i in range(len(A))]
def feye(n): return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
def fzeros(r, c): return [[Fraction(0)] * c for _ in range(r)]
def finv(A):
    n = len(A)
    M = [list(map(Fraction, A[i])) + feye(n)[i] for i in range(n)]
    for k in range(n):
        p = next((i for i in range(k, n) if M[i][k] != 0), None)
        if p is None: raise ZeroDivisionError
        M[k], M[p] = M[p], M[k]
        d = M[k][k]
        M[k] = [x / d for x in M[k]]
        for i in range(n):
            if i != k and M[i][k] != 0:
                f = M[i][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]
def fT(A): return [list(r) for r in zip(*A)] if A else []
def size(rng, hi=4):
    if rng.random() < .01: return rng.randint(8, 16)
    return rng.choice([1, 1, 2, 2, 3, 3] + list(range(1, hi + 1)))
@contextlib.contextmanager
def precision(rng=None, prec=None):
    import mpmath
    old = mpmath.mp.prec
    try:
        mpmath.mp.prec = prec if prec is not None else rng.choice([53, 53, 53, 60, 100, 200])
        yield mpmath.mp.prec
    finally: mpmath.mp.prec = old
def quiet():
    return contextlib.redirect_stdout(io.StringIO())
def close(a, b, tol=1e-9, scale=None):
    s = max(1.0, abs(float(scale)) if scale is not None else max(abs(float(a)), abs(float(b))))
    return abs(float(a) - float(b)) <= tol * s
def mclose(A, B, tol=1e-8):
    """float matrices close (relative to the largest entry)"""
    import numpy
    A = numpy.asarray(A, dtype=float); B = numpy.asarray(B, dtype=float)
    if A.shape != B.shape: return False
    if A.size == 0: return True
    if not (numpy.isfinite(A).all() and numpy.isfinite(B).all()): return False
    return float(abs(A - B).max()) <= tol * max(1.0, float(abs(A).max()), float(abs(B).max()))
def expect(exc, fn, what, **inp):
    try: r = fn()
    except exc: return
    except Exception as e: raise Violation('%s: %s instead of %s: %s' % (what, type(e).__name__, exc.__name__ if isinstance(exc, type) else exc, e), **inp)
    raise Violation('%s: no exception' % what, **inp)

# ------------------------------------------------------------------ runner
def run_one(fn, name, key):
    rng = random.Random(key)
    try:
        with quiet(): fn(rng)
        return None
    except Violation as v:
        return dict(check=name, key=key, what=v.what, input={k: show(x) for k, x in v.inp.items()})
    except KeyboardInterrupt: raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = ['%s:%s' % (f.filename, f.lineno) for f in tb][-6:]
        inrepo = any(f.filename.startswith(REPO) for f in tb)
        return dict(check=name, key=key, what='%s: %s' % (type(e).__name__, e), where=where, input={}, harness=not inrepo)

def main(prop, seed, budget, maxn, only=None, key=None, tokens=()):
    cs = CHECKS.get(prop, [])
    if key is not None:
        for name, fn, w, once in cs:
            if name == only:
                r = run_one(fn, name, key)
                print(json.dumps(r, indent=1))
                return 1 if r else 0
        return 2
    t0 = time.time()
    stats = {}
    viol = []
    live = [c for c in cs]
    i = 0
    while live and time.time() - t0 < budget and i < maxn:
        for c in list(live):
            name, fn, w, once = c
            for k in range(w):
                key = '%s:%s:%d' % (seed, name, i * w + k)
                r = run_one(fn, name, key)
                stats[name] = stats.get(name, 0) + 1
                if r is not None:
                    viol.append(r)
                    if c in live and sum(1 for v in viol if v['check'] == name) >= 3: live.remove(c)
                    break
                if once: break
            if once and c in live: live.remove(c)
            if time.time() - t0 > budget * 1.5: break
        i += 1
    print(json.dumps(dict(prop=prop, cases=stats, violations=viol, wall=time.time() - t0)))
    return 0
