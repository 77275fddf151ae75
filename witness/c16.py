from witness.sifs import *
import re, tempfile, shutil, atexit

class Filt:
    name = 'F'; dTF = 'H(z)'; dSS = 'a state-space'
    def __init__(self, siso): self.siso = siso
    def isSISO(self): return self.siso
def realization(rng, hi=3, fn=None):
    from fixif.SIF import Realization
    d = l, n, p, q = tuple(size(rng, hi) for _ in range(4))
    if rng.random() < .2: l = 0
    if rng.random() < .3: p = q = 1
    d = l, n, p, q
    fn = fn or rng.choice([small, lambda r: r.choice([small(r), near(r)]), lambda r: r.choice([0.0, 1.0, -1.0, r.uniform(-1, 1)]), lambda r: r.uniform(-1, 1) * 2.0 ** r.randint(-20, 3)])
    B = rnd_blocks(rng, *d, fn=fn)
    k = rng.randrange(6)
    P = numpy.array(B['P'])
    P = {0: P, 1: numpy.triu(P), 2: numpy.triu(P, 1), 3: numpy.tril(P), 4: P * 0, 5: P}[k]
    B['P'] = numpy.matrix(P)
    if rng.random() < .1: B = {x: numpy.matrix(numpy.round(numpy.array(M)).astype(int)) for x, M in B.items()}
    return d, B, Realization(Filt(p == 1 and q == 1), tuple(B[x] for x in NAMES))
TOK = re.compile(r'\s*(?:(?P<num>0x[0-9a-f.]+p[-+]?\d+|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)(?![\w.])|(?P<var>[A-Za-z_]\w*(?:\(k(?:[-+]\d+)?\))?)|(?P<op><-|[-+*]))')
def toks(s):
    out, i, s = [], 0, s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        need(m, 'the text cannot be read', at=s[i:i + 50], text=s)
        out.append((m.lastgroup, m[m.lastgroup])); i = m.end()
    return out
def run(text, env):
    """statements of an algorithm; {variable: [(coefficient, variable)]} (in order)"""
    t = toks(text)
    at = [i for i, x in enumerate(t) if x[1] == '<-']
    rows = {}
    for a, b in zip(at, at[1:] + [len(t) + 1]):
        v = t[a - 1][1]
        need(v not in env, '%s is assigned twice (or is an input)' % v, text=text)
        terms, s, c, x = [], 1, None, None
        def close():
            if c is None and x is None: return
            terms.append((s * (Fraction(1) if c is None else c), x))
        for kind, w in t[a + 1:b - 1] :
            if w == '+': close(); s, c, x = 1, None, None
            elif w == '-':
                if c is not None or x is not None: close(); s, c, x = 1, None, None
                s = -s
            elif w == '*': pass
            elif kind == 'num': c = (Fraction(1) if c is None else c) * (Fraction(float.fromhex(w)) if w[:2] == '0x' else Fraction(w))
            else:
                need(x is None, 'product of variables', text=text); x = w
        close()
        tot = Fraction(0)
        for c_, x_ in terms:
            if x_ is None: tot += c_; continue
            need(x_ in env, '%s is read before it is computed' % x_, text=text)
            tot += c_ * env[x_]
        env[v] = tot
        rows[v] = terms
    return rows
def unlatex(text):
    m = re.search(r'\\Begin\{(.*)\}\s*\\end\{algorithm\}', text, flags=re.S)
    need(m, 'no algorithm in the LaTeX text', text=text)
    s = re.sub(r'\\tcp\{[^}]*\}', ' ', m[1]).replace('\\\\', '\n')
    return re.sub(r'_\{(\d+)\}', r'\1', s.replace('$\\leftarrow$', '<-').replace('\\leftarrow', '<-').replace('$', ''))
def names(k, m, t): return [k + (str(i + 1) if m > 1 else '') + t for i in range(m)]

@check('C16', 3)
def texts(rng):
    d, B, R = realization(rng)
    l, n, p, q = d
    F = fr(B)
    for x, (r, c) in dims(*d).items():
        if not r or not c: F[x] = [[] for _ in range(r)]
    x0, u0 = [frac(small(rng)) for _ in range(n)], [frac(small(rng)) for _ in range(q)]
    t, X, Y = step(F, x0, u0)
    for kind in ('text', 'format', 'LaTeX'):
        s = R.algorithmTxt() if kind == 'text' else R.algorithmTxt(coefFormat='%.22e', comments=rng.random() < .5) if kind == 'format' else unlatex(R.algorithmLaTeX(withTime=True))
        s = '\n'.join(x for x in s.split('\n') if not re.fullmatch(r'/ [A-Za-z ]+ /', x.strip()))
        s = re.sub(r'\bx(\d*)p\(k\+1\)', r'x\1(k+1)', s)
        env = dict(zip(names('x', n, '(k)'), x0)); env.update(zip(names('u', q, '(k)'), u0))
        rows = run(s, env)
        for k, val, tm in (('t', t, '(k+1)'), ('x', X, '(k+1)'), ('y', Y, '(k)')):
            for v, w in zip(names(k, len(val), tm), val):
                need(v in env, '%s is not computed' % v, text=s, **B)
                tol = 0 if kind != 'format' else Fraction(1, 10**19) * (1 + sum(abs(a) for a in x0 + u0 + t))
                need(abs(env[v] - w) <= tol * 1000 * (1 + max([abs(a) for r in sum((F[x] for x in NAMES), []) for a in r] + [0])), '%s is not the value of the recurrence' % v, got=float(env[v]), want=float(w), text=s, x=x0, u=u0, **B)
        for v, terms in rows.items():
            vs = [x for c, x in terms if x is not None]
            need(len(set(vs)) == len(vs), 'a variable appears twice in the sum of %s' % v, text=s, **B)
            need(all(c != 0 for c, x in terms if x is not None), 'a null coefficient is displayed', text=s, **B)
def inplace(text, env):
    """executes a text without time; (final values, values of the outputs with the states before their update, copied at the end?)"""
    env, old, ys, swap, seen = dict(env), dict(env), {}, False, set()
    t = toks(text)
    at = [i for i, x in enumerate(t) if x[1] == '<-']
    for a, b in zip(at, at[1:] + [len(t) + 1]):
        v, part = t[a - 1][1], t[a - 1:b - 1]
        if v == 'x' and 'x' not in old and part[2:] == [('var', 'xp')]: swap = True; continue
        need(v not in seen, '%s is assigned twice' % v, text=text)
        seen.add(v)
        def value(e):
            w = run(' '.join(x[1] if x[1] != v or i < 1 else v + '_old' for i, x in enumerate(part)), {('%s_old' % k if k == v else k): g for k, g in e.items()})
            e2 = {('%s_old' % k if k == v else k): g for k, g in e.items()}
            tot = Fraction(0)
            for c, x in w[v]: tot += c * (e2[x] if x is not None else 1)
            return tot
        if v[0] == 'y': ys[v] = value(dict(env, **old))
        env[v] = value(env)
    return env, ys, swap
def untimed(rng):
    d, B, R = realization(rng)
    l, n, p, q = d
    F = fr(B)
    for x, (r, c) in dims(*d).items():
        if not r or not c: F[x] = [[] for _ in range(r)]
    x0, u0 = [frac(small(rng)) for _ in range(n)], [frac(small(rng)) for _ in range(q)]
    t, X, Y = step(F, x0, u0)
    latex = rng.random() < .4
    s = unlatex(R.algorithmLaTeX()) if latex else R.algorithmTxt(withTime=False)
    s = '\n'.join(x for x in s.split('\n') if not re.fullmatch(r'/ [A-Za-z ]+ /', x.strip()))
    env = dict(zip(names('x', n, ''), x0)); env.update(zip(names('u', q, ''), u0))
    got, ys, swap = inplace(s, env)
    nx = [v + 'p' for v in names('x', n, '')]
    P = any(v in got for v in nx)
    if not P: nx = names('x', n, '')
    return B, s, x0, u0, t, X, Y, got, ys, swap, P, nx, latex
@check('C16', 1)
def texts_without_time(rng):
    B, s, x0, u0, t, X, Y, got, ys, swap, P, nx, latex = untimed(rng)
    if latex: need(swap == P, 'the next states are copied at the end if they have other names', text=s, **B)
    for k, val, e in ((names('t', len(t), ''), t, got), (nx, X, got), (names('y', len(Y), ''), Y, ys)):
        for v, w in zip(k, val):
            need(v in e, '%s is not computed' % v, text=s, **B)
            need(e[v] == w, '%s is not the value of the recurrence' % v, got=float(e[v]), want=float(w), text=s, x=x0, u=u0, **B)
@check('C16', 1)
def outputs_of_texts_without_time(rng):
    B, s, x0, u0, t, X, Y, got, ys, swap, P, nx, latex = untimed(rng)
    for v, w in zip(names('y', len(Y), ''), Y):
        if v not in got or got[v] == w or ys.get(v) != w: continue
        need(False, 'a text without time computes an output with states that have already been updated in place', output=v, got=float(got[v]), want=float(w), text=s, x=x0, u=u0, **B)
def outputs(F, u, n):
    x, out = [Fraction(0)] * n, []
    for v in u:
        _, x, y = step(F, x, v)
        out.append(y)
    return out
def cmp(y, want, p_, N_, what, **inp):
    y = numpy.asarray(y, dtype=float)
    need(y.shape == (p_, N_), what + ': size', got=y.shape, **inp)
    sc = max([1.0] + [abs(float(a)) for c in want for a in c])
    for k in range(N_):
        for i in range(p_):
            need(abs(y[i, k] - float(want[k][i])) <= 1e-9 * sc, '%s: output %d at time %d' % (what, i, k), got=y[i, k], want=float(want[k][i]), **inp)
def signal(rng, q, N):
    u = numpy.array([[small(rng) for _ in range(N)] for _ in range(q)]).reshape(q, N)
    if rng.random() < .2: u = numpy.round(u).astype(int)
    return numpy.matrix(u) if rng.random() < .5 else u
@check('C16', 1)
def simulation(rng):
    d, B, R = realization(rng, fn=scaled(rng))
    l, n, p, q = d
    F = fr(B)
    N = rng.randint(1, 7)
    u = signal(rng, q, N)
    keep = numpy.array(u)
    U = [[frac(keep[i, k].item()) for i in range(q)] for k in range(N)]
    cmp(R.simulate(u), outputs(F, U, n), p, N, 'simulate', u=keep, **B)
    need((numpy.array(u) == keep).all(), 'the input is changed', **B)
    try: R.simulate(numpy.ones((q + rng.choice([1, 2]), 2)))
    except ValueError: pass
    else: need(False, 'simulate accepts a wrong number of inputs', **B)
DIR = []
@check('C16', 1)
def c_code(rng):
    import fixif.SIF.Realization_implementation as ri
    if not DIR:
        DIR.append(tempfile.mkdtemp(prefix='vx16') + '/')
        atexit.register(shutil.rmtree, DIR[0], True)
    ri.GENERATED_PATH = DIR[0]
    d, B, R = realization(rng, 4, fn=scaled(rng))
    l, n, p, q = d
    F = fr(B)
    for k in range(2):
        N = rng.randint(1, 6)
        u = signal(rng, q, N)
        keep = numpy.array(u)
        U = [[frac(keep[i, k].item()) for i in range(q)] for k in range(N)]
        with contextlib.redirect_stdout(io.StringIO()) as o: y = R.runCdouble(u)
        need('error' not in o.getvalue(), 'the C code is not compiled: ' + o.getvalue()[:400], **B)
        cmp(y, outputs(F, U, n), p, N, 'runCdouble', u=keep, call=k + 1, code=R.implementCdouble('f'), **B)
        need((numpy.array(u) == keep).all(), 'the input is changed', **B)
