"""Verification of functions of /repo against their contracts.

A unit is one contract: it builds arbitrary (symbolic) arguments satisfying the precondition, calls the real function through the
interpreter, and states the postconditions as obligations; it is run once per path of the code."""
import sys, time, traceback
from vx.core import *
from vx import core, sym, interp, libs, loops, mat
from vx.sym import *

class UnitResult:
    def __init__(self, name):
        self.name = name; self.obl = []; self.funcs = set(); self.used = set(); self.paths = 0; self.time = 0.0
    @property
    def failed(self): return [o for o in self.obl if not o['ok']]

class H:
    """helper given to the contracts"""
    def __init__(self, ver, ctx):
        self.ver, self.c = ver, ctx
    # ---- arguments
    def load(self, mod): return self.ver.loader.load(mod)
    def int(self, name, lo=None, hi=None):
        s = IP.sym(name)
        if lo is not None: self.c.base_add(f_le(lo, s))
        if hi is not None: self.c.base_add(f_le(s, hi))
        return mk_int(s)
    def assume(self, f):
        f = form_of(f) if not isinstance(f, tuple) else f
        self.c.assume(f)
    def mat(self, name, r, c, tag='matrix', ek='float'): return SMat.atoms(name, IP.of(r), IP.of(c), tag, ek)
    def mp(self, name, r, c): return SMat.atoms(name, IP.of(r), IP.of(c), 'mp', 'mpf')
    def vec(self, name, n, ek='float'): return SMat.atoms(name, IP.of(n), IP1, 'array', ek, ndim=1)
    def real(self, name, kind='float'): return SReal(GE.atom(name), kind)
    # ---- obligations
    def ensure(self, name, cond):
        """cond: SBool / bool / form"""
        def th():
            f = cond() if callable(cond) else cond
            f = f if isinstance(f, tuple) else form_of(f)
            return True if self.c.entails(f) else 'not implied: %s' % f_str(f)
        self.c.oblige(name, th)
    def fail(self, name, why):
        self.c.oblige(name, lambda: why)
    def eq(self, name, a, b):
        self.c.oblige(name, lambda: loops.eq_values(a, b, self.c.all(), self.c.rules))
    def zero(self, name, g):
        self.c.oblige(name, lambda: ge_zero(GE.of(g), self.c.all(), self.c.rules))
    def shape(self, name, M, r, c):
        def th():
            if not isinstance(M, SMat): return 'not a matrix: %r' % (M,)
            return True if self.c.entails(f_and(f_same(M.rows_, r), f_same(M.cols_, c))) else 'size is %rx%r' % (M.rows_, M.cols_)
        self.c.oblige(name, th)
    def entries(self, name, M, fn, rng=None, size=None):
        """M(i,j) = fn(i,j) for all entries (fn: IP, IP -> GE)"""
        def th():
            if not isinstance(M, SMat): return 'not a matrix: %r' % (M,)
            i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
            r, c_ = (M.rows_, M.cols_) if size is None else map(IP.of, size)
            g = self.c.all() + [f_ge(i), f_lt(i, r), f_ge(j), f_lt(j, c_)]
            if rng: g = g + [rng(i, j)]
            return ge_zero(M.entry(i, j) - GE.of(fn(i, j)), g, self.c.rules)
        self.c.oblige(name, th)
    def matrix_is(self, name, M, r, c, fn):
        self.shape(name + ' (size)', M, r, c)
        self.entries(name, M, fn)
    def exact(self, name, g):
        """no rounding in the value"""
        def th():
            bad = [x for x in g.names() if x in ('rnd', 'dbl')]
            return True if not bad else 'value contains a rounding'
        self.c.oblige(name, th)
    # ---- ghost sequences
    def recurrence(self, name, params, init, step):
        """ghost sequence name(t, params): init at t = 0, step (a GE on t and params, reading name(t-1, ..)) for t >= 1"""
        body = GE.of(init).guard(f_eq('t$')) + GE.of(step).guard(f_le(1, 't$'))
        defs = {name: (('t$',) + tuple(params), body, f_ge('t$'))}
        names = loops.intern(self.c.rules, defs)
        return names[name]
    def identify(self, spec, arity, count=None):
        """lemma by induction: the ghost sequences of the loops which have the same values as spec(t, i[, j]) are identified with it
        (the ones for which the induction is not accepted are left as they are)"""
        c = self.c
        for nm in list(c.rules.defs):
            params, body, dom = c.rules.defs[nm]
            if len(params) != arity or nm in spec(*[IP.sym(x) for x in params]).names(): continue
            self.same_sequence(nm, spec, params)
    def same_sequence(self, nm, spec, params, rng=None, last=None, split=None):
        """lemma by induction over t (0 <= t <= last if given): nm(t, ..) = spec(t, ..)"""
        c = self.c
        upto = lambda t: [f_ge(t)] + ([f_le(t, IP.of(last))] if last is not None else [])
        sy = [IP.sym(fresh('s')) for _ in params[1:]]
        t = IP.sym(fresh('t'))
        g = c.all() + [f_ge(x) for x in sy] + (rng(*sy) if rng else [])
        d = lambda tt: GE.atom(nm, tt, *sy) - spec(tt, *sy)
        if ge_zero(d(IP0), g, c.rules) is not True: return False
        vs = tuple(str(list(x.syms())[0]) for x in [IP.sym(fresh('v')) for _ in params[1:]])
        vv = [IP.sym(x) for x in vs]
        hyp = ('all', vs, f_implies(f_and(*([f_ge(x) for x in vv] + (rng(*vv) if rng else []))), f_rc('==', GE.atom(nm, t, *vv) - spec(t, *vv))))
        f = split(t) if split else T          # case analysis in the induction step
        for x in (f, f_not(f)):
            if x != F and ge_zero(d(t + 1), g + [f_ge(t)] + upto(t + 1) + [hyp, x], c.rules) is not True: return False
        tv = fresh('v')
        c.assume(('all', (tv,) + vs, f_implies(f_and(*(upto(IP.sym(tv)) + [f_ge(x) for x in vv] + (rng(*vv) if rng else []))), f_rc('==', GE.atom(nm, IP.sym(tv), *vv) - spec(IP.sym(tv), *vv)))))
        c.oblige('induction: the sequence computed by the loop is the specified one', lambda: True)
        return True
    def lyapunov(self, name, W, n, a, q):
        """a W a^T - W + q = 0 (a, q: entry functions), from the solutions given by scipy"""
        def res(W, a, q, n):
            return lambda i, j: (a(i, 'r?') * W('r?', 's?') * a(j, 's?')).sum('s?', 0, n).sum('r?', 0, n) - W(i, j) + q(i, j)
        self.shape(name + ' (size)', W, n, n)
        def th():
            i, j = IP.sym(fresh('i')), IP.sym(fresh('j'))
            g = self.c.all() + [f_ge(i), f_lt(i, n), f_ge(j), f_lt(j, n)]
            R = res(W.entry, a, q, n)(i, j)
            why = 'the matrix is not obtained from a Lyapunov equation'
            for A, Q, nm in self.c.memo.get('lyap', ()):
                if nm not in R.names(): continue
                if not self.c.entails(f_same(A.rows_, n)): continue
                R0 = res(lambda i, j: GE.atom(nm, i, j), A.entry, Q.entry, A.rows_)
                for s in (1, -1):
                    for x, y in ((i, j), (j, i)):
                        w = ge_zero(R - R0(x, y).scale(s), g, self.c.rules)
                        if w is True: return True
                        why = w
            return why
        self.c.oblige(name, th)
    def root_of(self, name, x, *specs):
        """x is the square root of one of the given values"""
        def th():
            g = sym.to_real(x).ge.light()
            why = 'not a square root: %s' % g
            for s in specs:
                d = g * g - s
                if len(g.terms) == 1 and g.terms[0].c == 1 and not g.terms[0].bv and not g.terms[0].g and len(g.terms[0].at) == 1 and g.terms[0].at[0].name == 'sqrt':
                    d = g.terms[0].at[0].args[0] - s
                why = ge_zero(d, self.c.all(), self.c.rules)
                if why is True: return True
            return why
        self.c.oblige(name, th)
    def inverse_candidate(self, n, g):
        """the inverse of the matrices M of n rows such that M * g = I (to be proved when the code asks for an inverse)"""
        self.c.memo['candidates'] = self.c.memo.get('candidates', ()) + ((IP.of(n), g),)
    def call(self, fn, *a, **k):
        return fn(*a, **k)
    def raises(self, name, exc, fn, *a, **k):
        try: r = fn(*a, **k)
        except (Unsupported, Infeasible): raise
        except exc: self.c.oblige(name, lambda: True); return True
        except Exception as e:
            self.c.oblige(name, lambda: '%s raised: %s' % (type(e).__name__, e)); return False
        if sat(self.c.all()) is False: raise Infeasible()
        self.c.oblige(name, lambda: 'no exception')
        return False
    def sum(self, g, v, lo, hi): return GE.of(g).sum(v, lo, hi)

def _base_add(self, f):
    if f not in self.gamma: self.gamma.append(f)
Ctx.base_add = _base_add

class Verifier:
    def __init__(self):
        Ctx.cur = Ctx('load')
        interp.FUNCS.clear()
        self.loader = interp.Loader(libs.build())
        self.results = []
        self.log = None
    def unit(self, name, body, budget=200, setup=None, top=None):
        """body(h) is executed for each path"""
        res = UnitResult(name)
        c = Ctx(top or name)
        c.deadline = time.time() + budget
        h = H(self, c)
        t0 = time.time()
        old = Ctx.cur
        Ctx.cur = c
        if setup: setup(h)
        def run():
            c.obl = []
            c.recorders, c.loop_syms, c.families, c.quiet = [], [], [], 0
            r0 = c.rules
            c.rules = c.rules.copy()
            feasible = True
            try:
                body(h)
            except ObFailed: pass
            except Infeasible: feasible = False
            except Unsupported as e:
                c.obl.append(dict(name='within reach', ok=False, why='not decided: %s' % e, time=0))
            except RecursionError:
                c.obl.append(dict(name='within reach', ok=False, why='recursion', time=0))
            except Exception as e:
                if sat(c.all()) is not False:
                    tb = traceback.extract_tb(sys.exc_info()[2])
                    where = ['%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb][-3:]
                    c.obl.append(dict(name='no unexpected exception', ok=False, why='%s: %s under [%s] (%s)' % (type(e).__name__, e, '; '.join(f_str(f) for f in c.gamma[-8:]), ' '.join(where)), time=0))
                    if self.log: traceback.print_exc()
                else: feasible = False
            finally: c.rules = r0
            if feasible:
                res.paths += 1
                res.obl += c.obl
        try:
            c.explore(run)
        finally:
            Ctx.cur = old
        if not res.obl:
            res.obl.append(dict(name='at least one obligation', ok=False, why='vacuous contract', time=0))
        res.funcs = set(c.funcs); res.used = set(c.used_contracts)
        res.time = time.time() - t0
        self.results.append(res)
        return res
