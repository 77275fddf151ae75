"""Algebra of the verifier.

IP   integer polynomials over integer symbols (indices, sizes)
form quantifier free formulas over IP comparisons and real comparisons (tuples)
GE   guarded sums: sum of coef * SUM_{bound vars}[guards] prod atoms  (the values of matrix entries)

An equation between two GE is decided by `ge_zero` (guarded-sum normaliser; the regions of the sums are compared by z3).
"""
from fractions import Fraction
import itertools, time
import z3

class Unsupported(Exception):
    """The construct is outside of the verifier's reach (the obligation is not discharged)."""

# --------------------------------------------------------------------------- integer polynomials
class IP:
    __slots__ = ('t', '_h')
    def __init__(self, t):
        self.t = t          # tuple of (monomial, coef), sorted; monomial = sorted tuple of symbols
        self._h = None
    @staticmethod
    def const(c):
        return IP((((), c),)) if c else IP0
    @staticmethod
    def sym(n):
        return IP((((n,), 1),))
    @staticmethod
    def of(x):
        if isinstance(x, IP): return x
        if isinstance(x, bool): return IP.const(int(x))
        if isinstance(x, int): return IP.const(x)
        if isinstance(x, str): return IP.sym(x)
        if hasattr(x, 'ip'): return x.ip
        if isinstance(x, Fraction) and x.denominator == 1: return IP.const(x.numerator)
        if hasattr(x, '__index__'): return IP.const(x.__index__())
        raise Unsupported('not an integer expression: %r' % (x,))
    @staticmethod
    def _mk(d):
        t = tuple(sorted((m, c) for m, c in d.items() if c))
        return IP(t)
    def __add__(self, o):
        o = IP.of(o)
        if not o.t: return self
        if not self.t: return o
        d = dict(self.t)
        for m, c in o.t: d[m] = d.get(m, 0) + c
        return IP._mk(d)
    def __neg__(self): return IP(tuple((m, -c) for m, c in self.t))
    def __sub__(self, o): return self + (-IP.of(o))
    def __radd__(self, o): return self + o
    def __rsub__(self, o): return IP.of(o) - self
    def __mul__(self, o):
        o = IP.of(o)
        d = {}
        for m, c in self.t:
            for m2, c2 in o.t:
                mm = tuple(sorted(m + m2))
                d[mm] = d.get(mm, 0) + c * c2
        return IP._mk(d)
    __rmul__ = __mul__
    def __eq__(self, o): return isinstance(o, IP) and self.t == o.t
    def __hash__(self):
        if self._h is None: self._h = hash(self.t)
        return self._h
    @property
    def isconst(self): return not self.t or (len(self.t) == 1 and self.t[0][0] == ())
    @property
    def value(self):
        if not self.t: return 0
        return self.t[0][1]
    def syms(self):
        s = set()
        for m, _ in self.t: s.update(m)
        return s
    def subst(self, d):
        if not any(x in d for m, _ in self.t for x in m): return self
        r = IP0
        for m, c in self.t:
            p = IP.const(c)
            for x in m:
                p = p * (IP.of(d[x]) if x in d else IP.sym(x))
            r = r + p
        return r
    def lincoef(self, v):
        """coefficient of v when v only appears linearly and alone, else None (0 if absent)"""
        k = 0
        for m, c in self.t:
            if v in m:
                if len(m) != 1: return None
                k = c
        return k
    def __repr__(self):
        if not self.t: return '0'
        s = ''
        for m, c in self.t:
            mm = '*'.join(m)
            if not m: u = str(abs(c))
            elif abs(c) == 1: u = mm
            else: u = '%d*%s' % (abs(c), mm)
            s += ('-' if c < 0 else ('+' if s else '')) + u
        return s
IP0 = IP(())
IP1 = IP.const(1)

_cnt = itertools.count()
def fresh(p='k'):
    return '%s!%d' % (p, next(_cnt))

# --------------------------------------------------------------------------- formulas
T = ('T',); F = ('F',)
def f_ge(e):
    e = IP.of(e)
    if e.isconst: return T if e.value >= 0 else F
    return ('ge', e)
def f_eq(e):
    e = IP.of(e)
    if e.isconst: return T if e.value == 0 else F
    if e.t[0][1] < 0: e = -e
    return ('eq', e)
def f_le(a, b): return f_ge(IP.of(b) - IP.of(a))
def f_lt(a, b): return f_ge(IP.of(b) - IP.of(a) - 1)
def f_same(a, b): return f_eq(IP.of(a) - IP.of(b))
def f_not(f):
    k = f[0]
    if k == 'T': return F
    if k == 'F': return T
    if k == 'not': return f[1]
    if k == 'ge': return f_ge(-f[1] - 1)
    if k == 'and': return f_or(*[f_not(g) for g in f[1]])
    if k == 'or': return f_and(*[f_not(g) for g in f[1]])
    if k == 'rc':
        if f[1] == '>=': return ('rc', '>', -f[2])
        if f[1] == '>': return ('rc', '>=', -f[2])
    return ('not', f)
def f_and(*fs):
    out = []
    for f in fs:
        if f == F: return F
        if f == T: continue
        if f[0] == 'and':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    if not out: return T
    if len(out) == 1: return out[0]
    return ('and', tuple(out))
def f_or(*fs):
    out = []
    for f in fs:
        if f == T: return T
        if f == F: continue
        if f[0] == 'or':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    if not out: return F
    if len(out) == 1: return out[0]
    return ('or', tuple(out))
def f_implies(a, b): return f_or(f_not(a), b)
def f_subst(f, d):
    k = f[0]
    if k == 'ge': return f_ge(f[1].subst(d))
    if k == 'eq': return f_eq(f[1].subst(d))
    if k == 'not': return f_not(f_subst(f[1], d))
    if k == 'and': return f_and(*[f_subst(g, d) for g in f[1]])
    if k == 'or': return f_or(*[f_subst(g, d) for g in f[1]])
    if k == 'rc': return f_rc(f[1], f[2].subst(d))
    if k == 'ba': return ('ba', f[1], tuple(a.subst(d) for a in f[2]))
    if k == 'all':
        d2 = {x: y for x, y in d.items() if x not in f[1]}
        return ('all', f[1], f_subst(f[2], d2))
    return f
def f_rc(op, g):
    """real comparison g op 0"""
    g = g.light()
    if not g.terms:
        return T if op in ('==', '>=') else F
    if g.isconst:
        c = g.constval
        return T if (op == '==' and c == 0) or (op == '>=' and c >= 0) or (op == '>' and c > 0) else F
    if len(g.terms) == 1 and not g.terms[0].bv and not g.terms[0].at:
        c, h = g.terms[0].c, f_and(*g.terms[0].g)          # c if h else 0
        if op == '==': return f_not(h)
        if op == '>': return h if c > 0 else F
        return T if c > 0 else f_not(h)
    if op == '==':
        # canonical sign
        if g.terms[0].c < 0: g = -g
    return ('rc', op, g)
def f_syms(f):
    k = f[0]
    if k in ('ge', 'eq'): return f[1].syms()
    if k == 'not': return f_syms(f[1])
    if k in ('and', 'or'):
        s = set()
        for g in f[1]: s |= f_syms(g)
        return s
    if k == 'rc': return f[2].syms()
    if k == 'ba':
        s = set()
        for a in f[2]: s |= a.syms()
        return s
    if k == 'all': return f_syms(f[2]) - set(f[1])
    return set()
def f_conj(f):
    if f[0] == 'and': return list(f[1])
    if f == T: return []
    return [f]

# --------------------------------------------------------------------------- atoms, terms, guarded sums
class Atom:
    __slots__ = ('name', 'args', '_h')
    def __init__(self, name, args=()):
        self.name = name; self.args = tuple(args); self._h = None
    def __eq__(self, o): return isinstance(o, Atom) and self.name == o.name and self.args == o.args
    def __hash__(self):
        if self._h is None: self._h = hash((self.name, self.args))
        return self._h
    def subst(self, d): return Atom(self.name, tuple(a.subst(d) for a in self.args))
    def syms(self):
        s = set()
        for a in self.args: s |= a.syms()
        return s
    def __repr__(self):
        return self.name + ('(%s)' % ','.join(map(repr, self.args)) if self.args else '')
    def key(self): return (self.name, repr(self.args))

class Term:
    __slots__ = ('c', 'bv', 'g', 'at')
    def __init__(self, c, bv=(), g=(), at=()):
        self.c = c; self.bv = tuple(bv); self.g = tuple(g); self.at = tuple(at)
    def subst(self, d):
        if not d: return self
        g = []
        for f in self.g:
            f2 = f_subst(f, d)
            if f2 == F: return None
            if f2 == T: continue
            for x in f_conj(f2):
                if x not in g: g.append(x)
        return Term(self.c, self.bv, g, tuple(a.subst(d) for a in self.at))
    def syms(self):
        s = set()
        for f in self.g: s |= f_syms(f)
        for a in self.at: s |= a.syms()
        return s - set(self.bv)
    def rename(self):
        if not self.bv: return self
        d = {v: IP.sym(fresh(v.split('!')[0])) for v in self.bv}
        t = Term(self.c, (), self.g, self.at).subst(d)
        return Term(t.c, [list(d[v].syms())[0] for v in self.bv], t.g, t.at)
    def __repr__(self):
        s = str(self.c)
        if self.bv: s += ' SUM{%s}' % ','.join(self.bv)
        if self.g: s += ' [%s]' % ' & '.join(f_str(f) for f in self.g)
        if self.at: s += ' ' + '*'.join(map(repr, self.at))
        return s
def f_str(f):
    k = f[0]
    if k == 'ge': return '%r>=0' % f[1]
    if k == 'eq': return '%r==0' % f[1]
    if k == 'not': return 'not(%s)' % f_str(f[1])
    if k in ('and', 'or'): return '(' + (' %s ' % k).join(f_str(g) for g in f[1]) + ')'
    if k == 'rc': return '(%r) %s 0' % (f[2], f[1])
    if k == 'ba': return '%s(%s)' % (f[1], ','.join(map(repr, f[2])))
    if k == 'all': return 'forall %s: %s' % (','.join(f[1]), f_str(f[2]))
    return k

class GE:
    __slots__ = ('terms', '_h', '_l')
    def __init__(self, terms=()):
        self.terms = tuple(terms); self._h = None; self._l = False
    @staticmethod
    def const(c):
        c = Fraction(c)
        return GE((Term(c),)) if c else GE0
    @staticmethod
    def atom(name, *args):
        return GE((Term(Fraction(1), (), (), (Atom(name, tuple(a if isinstance(a, GE) else IP.of(a) for a in args)),)),))
    @staticmethod
    def of(x):
        if isinstance(x, GE): return x
        if hasattr(x, 'ge'): return x.ge
        if isinstance(x, IP): return GE.ofint(x)
        if hasattr(x, 'ip'): return GE.ofint(x.ip)
        if isinstance(x, bool): return GE.const(int(x))
        if isinstance(x, (int, Fraction)): return GE.const(x)
        if isinstance(x, float):
            if x != x or x in (float('inf'), float('-inf')): return GE.atom('fp:%r' % x)
            return GE.const(Fraction(x))
        if hasattr(x, 'form'): return GE.const(1).guard(x.form)
        raise Unsupported('not a number: %r (%s)' % (x, type(x).__name__))
    @staticmethod
    def ofint(ip):
        if ip.isconst: return GE.const(ip.value)
        r = GE0
        for m, c in ip.t:
            r = r + GE((Term(Fraction(c), (), (), tuple(Atom('int', (IP.sym(x),)) for x in m)),))
        return r
    def __add__(self, o):
        o = GE.of(o)
        if not self.terms: return o
        if not o.terms: return self
        return GE(self.terms + o.terms)
    __radd__ = __add__
    def __neg__(self): return GE(tuple(Term(-t.c, t.bv, t.g, t.at) for t in self.terms))
    def __sub__(self, o): return self + (-GE.of(o))
    def __rsub__(self, o): return GE.of(o) - self
    def __mul__(self, o):
        o = GE.of(o)
        out = []
        for a in self.terms:
            for b in o.terms:
                b2 = b.rename() if (b.bv and a.bv) else b
                g = list(a.g)
                for f in b2.g:
                    if f not in g: g.append(f)
                out.append(Term(a.c * b2.c, a.bv + b2.bv, g, a.at + b2.at))
        return GE(out)
    __rmul__ = __mul__
    def scale(self, c):
        c = Fraction(c)
        if c == 0: return GE0
        return GE(tuple(Term(t.c * c, t.bv, t.g, t.at) for t in self.terms))
    def guard(self, f):
        """[f] * self"""
        if f == T: return self
        if f == F: return GE0
        fs = f_conj(f)
        out = []
        for t in self.terms:
            g = list(t.g)
            for x in fs:
                if x not in g: g.append(x)
            out.append(Term(t.c, t.bv, g, t.at))
        return GE(out)
    def sum(self, v, lo, hi):
        """SUM_{lo <= v < hi} self"""
        lo = IP.of(lo); hi = IP.of(hi)
        k = fresh('k')
        e = self.subst({v: IP.sym(k)})
        g = [f_le(lo, k), f_lt(k, hi)]
        out = []
        for t in e.terms:
            gg = list(g)
            for f in t.g:
                if f not in gg: gg.append(f)
            out.append(Term(t.c, (k,) + t.bv, gg, t.at))
        return GE(out).light()
    def subst(self, d):
        d = {k: IP.of(v) for k, v in d.items()}
        out = []
        for t in self.terms:
            t2 = t.subst(d)
            if t2 is not None: out.append(t2)
        return GE(out)
    def syms(self):
        s = set()
        for t in self.terms: s |= t.syms()
        return s
    @property
    def isconst(self):
        return all(not t.bv and not t.g and not t.at for t in self.terms)
    @property
    def constval(self): return sum((t.c for t in self.terms), Fraction(0))
    def atoms(self):
        return [a for t in self.terms for a in t.at]
    def names(self):
        s = set()
        def rec(g):
            for t in g.terms:
                for a in t.at:
                    s.add(a.name)
                    for x in a.args:
                        if isinstance(x, GE): rec(x)
                for f in t.g: recf(f)
        def recf(f):
            if f[0] == 'rc': rec(f[2])
            elif f[0] == 'not': recf(f[1])
            elif f[0] in ('and', 'or'):
                for x in f[1]: recf(x)
        rec(self)
        return s
    def light(self):
        """cheap simplification (no solver)"""
        if self._l: return self
        acc = {}
        todo = list(self.terms)
        while todo:
            t = todo.pop()
            r = simp_term(t)
            if r is None: continue
            for t2 in r:
                k = term_key(t2)
                if k in acc:
                    acc[k] = Term(acc[k].c + t2.c, t2.bv, t2.g, t2.at)
                else: acc[k] = t2
        ts = [t for _, t in sorted(acc.items(), key=lambda z: z[0]) if t.c]
        r = GE(ts); r._l = True
        return r
    def __eq__(self, o): return isinstance(o, GE) and self.light()._key() == o.light()._key()
    def _key(self):
        return tuple(sorted((term_key(t), t.c) for t in self.terms))
    def __hash__(self):
        if self._h is None: self._h = hash(self.light()._key())
        return self._h
    def __repr__(self):
        if not self.terms: return '0'
        return ' + '.join(map(repr, self.terms))
GE0 = GE(())
GE1 = GE.const(1)

def term_key(t):
    """key modulo renaming of bound variables (order of appearance in sorted atoms)"""
    if not t.bv:
        return repr((sorted(f_str(f) for f in t.g), sorted(map(repr, t.at))))
    # canonical naming: sort the atoms by skeleton, number the bound variables in order
    bv = set(t.bv)
    blank = {v: IP.sym('?') for v in bv}
    ats = sorted(t.at, key=lambda a: (a.name, repr(a.subst(blank).args)))
    order = []
    for a in ats:
        for x in a.args:
            for y in sorted(_ordered_syms(x)):
                pass
            for y in _ordered_syms(x):
                if y in bv and y not in order: order.append(y)
    for v in t.bv:
        if v not in order: order.append(v)
    d = {v: IP.sym('#%d' % i) for i, v in enumerate(order)}
    return repr((sorted(f_str(f_subst(f, d)) for f in t.g), sorted(repr(a.subst(d)) for a in t.at), len(order)))
def _ordered_syms(x):
    if isinstance(x, IP):
        return [s for m, _ in x.t for s in m]
    return [s for t in x.terms for a in t.at for y in a.args for s in _ordered_syms(y)]

def simp_term(t):
    """local simplification: equality elimination of bound variables, splitting of 'or' and 'not eq'.
    Returns a list of terms or None when the term vanishes."""
    if t.c == 0: return None
    c, bv, at = t.c, list(t.bv), t.at
    g = []
    for f in t.g:
        if f == T: continue
        if f == F: return None
        for x in f_conj(f):
            if x not in g: g.append(x)
    changed = True
    while changed:
        changed = False
        for f in g:
            if f[0] == 'eq':
                e = f[1]
                for v in bv:
                    k = e.lincoef(v)
                    if k in (1, -1):
                        sol = (e - IP.sym(v) * k) * (-k)
                        d = {v: sol}
                        bv.remove(v)
                        ng = []
                        for h in g:
                            if h is f: continue
                            h2 = f_subst(h, d)
                            if h2 == F: return None
                            for x in f_conj(h2):
                                if x not in ng: ng.append(x)
                        g = ng
                        at = tuple(a.subst(d) for a in at)
                        changed = True
                        break
                if changed: break
        if changed: continue
        # contradictory / tight bounds
        gem = {}
        for f in g:
            if f[0] == 'ge':
                e = f[1]
                k0 = e.subst({}).t
                cst = 0
                lin = []
                for m, cc in e.t:
                    if m == (): cst = cc
                    else: lin.append((m, cc))
                key = tuple(lin)
                if key in gem:
                    # keep the strongest (smallest constant)
                    if cst >= gem[key][0]:
                        g = [h for h in g if h is not f]; changed = True; break
                    else:
                        old = gem[key][1]
                        g = [h for h in g if h is not old]; gem[key] = (cst, f); changed = True; break
                gem[key] = (cst, f)
        if changed: continue
        for key, (cst, f) in gem.items():
            nk = tuple((m, -cc) for m, cc in key)
            if nk in gem:
                s = cst + gem[nk][0]
                if s < 0: return None
                if s == 0:
                    f2 = gem[nk][1]
                    g = [h for h in g if h is not f and h is not f2] + [f_eq(f[1])]
                    changed = True
                    break
    for i, f in enumerate(g):
        if f[0] == 'not' and f[1][0] == 'eq':
            # split when it involves a bound variable (regions), or keep
            e = f[1][1]
            if any(v in e.syms() for v in bv):
                rest = g[:i] + g[i + 1:]
                out = []
                for h in (f_ge(e - 1), f_ge(-e - 1)):
                    r = simp_term(Term(c, bv, rest + [h], at))
                    if r: out += r
                return out or None
        if f[0] == 'or':
            rest = g[:i] + g[i + 1:]
            out = []
            prev = []
            for h in f[1]:
                r = simp_term(Term(c, bv, rest + prev + f_conj(h), at))
                if r: out += r
                prev = prev + [f_not(h)]
            return out or None
    # free equalities: orient in the atoms
    for f in g:
        if f[0] == 'eq':
            e = f[1]
            best = None
            for m, cc in e.t:
                if len(m) == 1 and cc in (1, -1) and e.lincoef(m[0]) is not None and m[0] not in bv:
                    if best is None or symrank(m[0]) > symrank(best[0]): best = (m[0], cc)
            if best:
                v, k = best
                sol = (e - IP.sym(v) * k) * (-k)
                d = {v: sol}
                at = tuple(a.subst(d) for a in at)
                ng = []
                for h in g:
                    if h is f: ng.append(h); continue
                    h2 = f_subst(h, d)
                    if h2 == F: return None
                    for x in f_conj(h2):
                        if x not in ng: ng.append(x)
                if ng != g:
                    return simp_term(Term(c, bv, ng, at))
    for i, a in enumerate(at):
        if a.name == 'dbl':         # conversion to a double: 0 and the doubles are kept, and the guards get out (the value is 0 otherwise)
            x = a.args[0].light()
            if not x.terms: return None
            if len(x.terms) == 1 and not x.terms[0].bv:
                y = x.terms[0]
                if not y.at and y.c == Fraction(float(y.c)): return simp_term(Term(c * y.c, bv, g + list(y.g), at[:i] + at[i + 1:]))
                if y.g: return simp_term(Term(c, bv, g + list(y.g), at[:i] + (Atom('dbl', (GE((Term(y.c, (), (), y.at),)),)),) + at[i + 1:]))
        elif a.name in ('re', 'im', 'inv') and isinstance(a.args[0], GE) and a.args[0].isconst:
            x = a.args[0].constval
            if a.name == 'im': return None
            if a.name == 're' or x != 0: return simp_term(Term(c * (x if a.name == 're' else 1 / x), bv, g, at[:i] + at[i + 1:]))
    at = tuple(sorted(at, key=Atom.key))
    return [Term(c, bv, sorted(g, key=f_str), at)]
def symrank(s):
    return (len(s), s)

def ite(f, a, b):
    """[f]*a + [not f]*b"""
    a = GE.of(a); b = GE.of(b)
    if f == T: return a
    if f == F: return b
    return a.guard(f) + b.guard(f_not(f))

# --------------------------------------------------------------------------- z3
class Z:
    """translation to z3 and statistics"""
    stats = dict(z3_queries=0, z3_time=0.0, unknown=0, cvc5_queries=0, cvc5_time=0.0)
    fun = {}
    @staticmethod
    def ip(e):
        r = None
        for m, c in e.t:
            p = z3.IntVal(c)
            for x in m: p = p * z3.Int(x)
            r = p if r is None else r + p
        return z3.IntVal(0) if r is None else r
    @staticmethod
    def func(name, sig):
        k = (name, sig)
        if k not in Z.fun:
            Z.fun[k] = z3.Function(name + '/' + sig, *[(z3.IntSort() if s == 'i' else z3.RealSort()) for s in sig], z3.RealSort())
        return Z.fun[k]
    @staticmethod
    def atom(a):
        if a.name == 'int' and len(a.args) == 1 and isinstance(a.args[0], IP):
            return z3.ToReal(Z.ip(a.args[0]))
        sig = ''.join('i' if isinstance(x, IP) else 'r' for x in a.args)
        if not sig: return z3.Real('at:' + a.name)
        args = [Z.ip(x) if isinstance(x, IP) else Z.ge(x) for x in a.args]
        return Z.func(a.name, sig)(*args)
    @staticmethod
    def ge(g):
        r = None
        for t in g.light().terms:
            if t.bv:
                k = term_key(Term(Fraction(1), t.bv, t.g, t.at))
                fs = _symorder(t)
                p = z3.RealVal(str(t.c)) * (Z.func('sum:' + _symfree_key(t, fs), 'i' * len(fs))(*[z3.Int(x) for x in fs]) if fs else z3.Real('sum:' + k))
            else:
                p = z3.RealVal(str(t.c))
                for a in t.at: p = p * Z.atom(a)
                if t.g:
                    p = z3.If(z3.And(*[Z.form(f) for f in t.g]), p, z3.RealVal(0))
            r = p if r is None else r + p
        return z3.RealVal(0) if r is None else r
    @staticmethod
    def form(f):
        k = f[0]
        if k == 'T': return z3.BoolVal(True)
        if k == 'F': return z3.BoolVal(False)
        if k == 'ge': return Z.ip(f[1]) >= 0
        if k == 'eq': return Z.ip(f[1]) == 0
        if k == 'not': return z3.Not(Z.form(f[1]))
        if k == 'and': return z3.And(*[Z.form(g) for g in f[1]])
        if k == 'or': return z3.Or(*[Z.form(g) for g in f[1]])
        if k == 'rc':
            e = Z.ge(f[2])
            return e == 0 if f[1] == '==' else (e >= 0 if f[1] == '>=' else e > 0)
        if k == 'ba':
            sig = 'i' * len(f[2])
            if not sig: return z3.Bool('b:' + f[1])
            key = ('bool', f[1], sig)
            if key not in Z.fun:
                Z.fun[key] = z3.Function('b:' + f[1], *[z3.IntSort()] * len(sig), z3.BoolSort())
            return Z.fun[key](*[Z.ip(a) for a in f[2]])
        if k == 'all':
            return z3.ForAll([z3.Int(v) for v in f[1]], Z.form(f[2]))
        raise Unsupported('formula %r' % (f,))

def _symfree_key(t, fs):
    d = {s: IP.sym('@%d' % i) for i, s in enumerate(fs)}
    return term_key(Term(Fraction(1), t.bv, t.g, t.at).subst(d))

def _symorder(t):
    return sorted(t.syms(), key=lambda s: ('!' in s, s))

def ground_atoms(forms):
    out = {}
    def rec(g):
        for t in g.terms:
            if t.bv:
                fs = _symorder(t)
                if any('!' in s for s in fs):
                    k = 'sum:' + _symfree_key(t, fs)
                    out.setdefault(k, set()).add(Atom(k, tuple(IP.sym(s) for s in fs)))
                continue
            for a in t.at:
                if a.args and not any(isinstance(x, GE) for x in a.args): out.setdefault(a.name, set()).add(a)
                for x in a.args:
                    if isinstance(x, GE): rec(x)
            for f in t.g: recf(f)
    def recf(f):
        k = f[0]
        if k == 'rc': rec(f[2])
        elif k == 'not': recf(f[1])
        elif k in ('and', 'or'):
            for x in f[1]: recf(x)
        elif k == 'ba' and f[2]: out.setdefault('ba:' + f[1], set()).add(Atom('ba:' + f[1], f[2]))
    for f in forms: recf(f)
    return out
def instances(ground, quant, rounds=2):
    """instances of the quantified facts at the atoms of the ground forms"""
    res = []
    for _ in range(rounds):
        ga = ground_atoms(ground + res)
        new = []
        for q in quant:
            vs = q[1]
            for name, pats in ground_atoms([q[2]]).items():
                for pat in pats:
                    if not all(any(v in x.syms() for x in pat.args) for v in vs): continue
                    for a in ga.get(name, ()):
                        if len(a.args) != len(pat.args): continue
                        d = solve_pattern(pat.args, a.args, vs)
                        if d is None: continue
                        f = f_subst(q[2], d)
                        if f != T and f not in res and f not in new: new.append(f)
                    if len(new) > 400: break
        if not new: break
        res += new
    return res
def solve_pattern(pat, args, vs):
    d = {}
    todo = list(zip(pat, args))
    for _ in range(3):
        rest = []
        for x, y in todo:
            x2 = x.subst(d)
            un = [v for v in x2.syms() if v in vs and v not in d]
            if len(un) == 1 and x2.lincoef(un[0]) in (1, -1):
                k = x2.lincoef(un[0])
                d[un[0]] = (y - (x2 - IP.sym(un[0]) * k)) * k
            elif un: rest.append((x, y))
        todo = rest
    return d if set(d) == set(vs) else None

def has_all(f):
    k = f[0]
    if k == 'all': return True
    if k == 'not': return has_all(f[1])
    if k in ('and', 'or'): return any(has_all(x) for x in f[1])
    return False
def prenex(f, cnt, ground=True):
    """an equisatisfiable form where the universal quantifiers are outermost; the existential ones of ground forms are skolemised"""
    if not has_all(f): return f
    k = f[0]
    if k == 'and': return f_and(*[prenex(x, cnt, ground) for x in f[1]])
    if k == 'not' and f[1][0] == 'all':
        if not ground: return f
        d = {}
        for v in f[1][1]:
            cnt[0] += 1; d[v] = IP.sym('sk!%d' % cnt[0])
        return prenex(f_not(f_subst(f[1][2], d)), cnt, ground)
    if k == 'all':
        b = prenex(f[2], cnt, False)
        if b[0] == 'and': return f_and(*[('all', f[1], x) for x in b[1]])
        if b[0] == 'all': return ('all', f[1] + b[1], b[2])
        return ('all', f[1], b)
    if k == 'or':
        vs, parts = (), []
        for x in f[1]:
            y = prenex(x, cnt, ground)
            if y[0] == 'all':
                d, nv = {}, []
                for v in y[1]:
                    cnt[0] += 1; nv.append('av!%d' % cnt[0]); d[v] = IP.sym(nv[-1])
                vs += tuple(nv); parts.append(('all_body', f_subst(y[2], d)))
            else: parts.append(y)
        b = f_or(*[x[1] if x[0] == 'all_body' else x for x in parts])
        return ('all', vs, b) if vs else b
    return f
_cache = {}
def sat(forms, timeout=4000):
    """is the conjunction satisfiable?  True / False / None"""
    forms = [f for f in forms if f != T]
    if any(has_all(f) for f in forms):
        cnt = [0]
        forms = [y for f in forms for y in f_conj(prenex(f, cnt))]
    if any(f == F for f in forms): return False
    key = tuple(sorted(f_str(f) for f in forms))
    if key in _cache: return _cache[key]
    t0 = time.time()
    if any(f[0] == 'all' for f in forms):
        # instances first, then the quantified facts with a short time
        ground = [f for f in forms if f[0] != 'all']
        inst = instances(ground, [f for f in forms if f[0] == 'all'])
        r = sat(ground + inst, timeout)
        if r is False:
            _cache[key] = False
            return False
        timeout = 600
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in forms: s.add(Z.form(f))
    r = s.check()
    Z.stats['z3_queries'] += 1
    Z.stats['z3_time'] += time.time() - t0
    res = True if r == z3.sat else (False if r == z3.unsat else None)
    if res is None:
        Z.stats['unknown'] += 1
        res = _cvc5(s, 1000 if any(f[0] == 'all' for f in forms) else 5000)
    _cache[key] = res
    return res
def _cvc5(s, limit):
    """second opinion when z3 answers unknown"""
    try:
        import cvc5
        from cvc5 import InputParser, SymbolManager, InputLanguage
    except Exception:
        return None
    t0 = time.time()
    try:
        slv = cvc5.Solver(); slv.setOption('tlimit-per', str(limit)); slv.setLogic('ALL')
        sm = SymbolManager(slv); p = InputParser(slv, sm)
        p.setStringInput(InputLanguage.SMT_LIB_2_6, s.to_smt2(), 'q')
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            out += c.invoke(slv, sm)
        Z.stats['cvc5_queries'] += 1
        r = True if out.strip().startswith('sat') else (False if out.strip().startswith('unsat') else None)
    except Exception:
        r = None
    Z.stats['cvc5_time'] += time.time() - t0
    return r
def entails(gamma, f):
    """True when gamma => f is valid"""
    if f == T: return True
    return sat(list(gamma) + [f_not(f)]) is False

# --------------------------------------------------------------------------- deciding  GE == 0
class Rules:
    """rewriting knowledge: definitions (ghost families), inverses, facts"""
    def __init__(self):
        self.defs = {}     # name -> (params, GE, domain form)
        self.inv = []      # (name of A, name of its inverse, size IP)  sum_k A(a,k) Ai(k,b) = delta, both sides
        self.atomfacts = {}  # name -> list of fn(args) -> list of (form, GE) rewriting an atom into cases
        self.nonzero = set()   # names of the atoms which are never null (contract)
        self.custom = []   # fn(term, gamma) -> list of terms or None
    def copy(self):
        r = Rules()
        r.interned = dict(getattr(self, 'interned', {})); r.nonzero = set(self.nonzero)
        r.defs = dict(self.defs); r.inv = list(self.inv); r.custom = list(self.custom)
        r.atomfacts = {k: list(v) for k, v in self.atomfacts.items()}
        return r

def _orient(gamma):
    """substitution from the equalities of gamma"""
    d = {}
    changed = True
    forms = list(gamma)
    ges = {f[1] for f in gamma if f[0] == 'ge'}
    forms += [('eq', e) for e in ges if -e in ges]
    while changed:
        changed = False
        for f in forms:
            if f[0] == 'eq':
                e = f[1].subst(d)
                best = None
                for m, c in e.t:
                    if len(m) == 1 and c in (1, -1) and e.lincoef(m[0]) is not None:
                        if best is None or symrank(m[0]) > symrank(best[0]): best = (m[0], c)
                if best:
                    v, k = best
                    sol = (e - IP.sym(v) * k) * (-k)
                    d = {x: y.subst({v: sol}) for x, y in d.items()}
                    d[v] = sol
                    changed = True
    return d

def intforms(gamma):
    """the part of gamma about integers only (cheap for z3)"""
    return [f for f in gamma if pureint(f)]
def pureint(f):
    k = f[0]
    if k in ('T', 'F', 'ge', 'eq'): return True
    if k == 'not': return pureint(f[1])
    if k in ('and', 'or'): return all(pureint(g) for g in f[1])
    return False

def norm_term(t, gamma, rules, expand_facts=True, facts={}, full=None):
    """simplify one term under gamma with the solver and the rules; list of terms"""
    out = []
    todo = [t]
    n = 0
    while todo:
        t = todo.pop()
        n += 1
        if n > 4000: raise Unsupported('normalisation explosion')
        r = simp_term(t)
        if r is None: continue
        if len(r) > 1:
            todo += r; continue
        t = r[0]
        if t.g:
            s = sat(gamma + list(t.g))
            if s is False: continue
        # rules
        hit = None
        for fn in rules.custom:
            hit = fn(t, gamma)
            if hit is not None: break
        if hit is None: hit = rule_piecewise(t, gamma)
        if hit is None: hit = rule_inv(t, gamma, rules)
        if hit is None: hit = rule_recip(t, full or gamma, rules.nonzero)
        if hit is None and expand_facts: hit = rule_atomfacts(t, gamma, rules)
        if hit is None and facts: hit = rule_gammafacts(t, gamma, facts)
        if hit is not None:
            todo += hit; continue
        # implied value of a bound variable
        h = tight(t, gamma)
        if h is not None:
            todo += h; continue
        out.append(t)
    return out

def _inner_guards(f):
    """the integer guards in the arguments of the functions in the real comparisons of f"""
    k = f[0]
    if k == 'not': yield from _inner_guards(f[1])
    elif k in ('and', 'or'):
        for x in f[1]: yield from _inner_guards(x)
    elif k == 'rc': yield from _ge_guards(f[2], True)
def _ge_guards(g, inside):
    for t in g.terms:
        if t.bv: continue
        if inside:
            for x in t.g:
                if pureint(x): yield x
        for a in t.at:
            for x in a.args:
                if isinstance(x, GE): yield from _ge_guards(x, True)
def _assume_f(f, h, val):
    k = f[0]
    if f == h: return T if val else F
    if k == 'not': return f_not(_assume_f(f[1], h, val))
    if k == 'and': return f_and(*[_assume_f(x, h, val) for x in f[1]])
    if k == 'or': return f_or(*[_assume_f(x, h, val) for x in f[1]])
    if k == 'rc': return f_rc(f[1], _assume_ge(f[2], h, val))
    return f
def _assume_ge(g, h, val):
    ts = []
    for t in g.terms:
        if t.bv: ts.append(t); continue
        gs = [_assume_f(x, h, val) for x in t.g]
        if F in gs: continue
        ts.append(Term(t.c, t.bv, tuple(x for x in gs if x != T), tuple(Atom(a.name, tuple(_assume_ge(x, h, val) if isinstance(x, GE) else x for x in a.args)) for a in t.at)))
    return GE(tuple(ts)).light()
def rule_piecewise(t, gamma):
    """guards like f(a if h else b) > 0: case split on h"""
    h = next((h for f in t.g for h in _inner_guards(f)), None)
    if h is None: return None
    G = gamma + list(t.g)
    out = []
    for val in (True, False):
        x = h if val else f_not(h)
        if entails(intforms(gamma) + [f for f in t.g if pureint(f)], f_not(x)): continue
        gs = [_assume_f(f, h, val) for f in t.g if f != h and f != f_not(h)]
        out.append(Term(t.c, t.bv, tuple(gs) + (x,), t.at))
    return out

def tight(t, gamma):
    """a bound variable forced by the guards (under gamma)"""
    for v in t.bv:
        los, his = [], []
        for f in t.g:
            if f[0] == 'ge':
                k = f[1].lincoef(v)
                if k == 1: los.append(-(f[1] - IP.sym(v)))
                elif k == -1: his.append(f[1] + IP.sym(v))
        for lo in los:
            for hi in his:
                d = hi - lo
                if any(x in d.syms() for x in t.bv): continue
                if not d.isconst and not gamma_mentions(gamma, d): continue
                if entails(gamma + list(t.g), f_eq(d)):
                    return [Term(t.c, t.bv, t.g + (f_eq(IP.sym(v) - lo),), t.at)]
    return None
def gamma_mentions(gamma, d):
    s = d.syms()
    for f in gamma:
        if f_syms(f) & s: return True
    return False

def bv_region(t, v, lo, hi, gamma):
    """are the guards of t about v exactly lo <= v < hi (under gamma and the other guards)?"""
    gk = [f for f in t.g if v in f_syms(f)]
    rest = [f for f in t.g if v not in f_syms(f)]
    rng = [f_le(lo, v), f_lt(v, hi)]
    if not entails(gamma + rest + gk, f_and(*rng)): return None
    if not entails(gamma + rest + rng, f_and(*gk)): return None
    return rest

def rule_inv(t, gamma, rules):
    for (A, Ai, n) in rules.inv:
        for X, Y in ((A, Ai), (Ai, A)):
            for i, a in enumerate(t.at):
                if a.name != X: continue
                for j, b in enumerate(t.at):
                    if b.name != Y or i == j: continue
                    if len(a.args) != len(b.args) or a.args[2:] != b.args[2:]: continue
                    k = a.args[1]
                    if k != b.args[0]: continue
                    v = next((x for x in t.bv if k.lincoef(x) == 1 and x not in (k - IP.sym(x)).syms()), None)
                    if v is None: continue
                    if v in a.args[0].syms() or v in b.args[1].syms(): continue
                    others = [x for l, x in enumerate(t.at) if l not in (i, j)]
                    if any(v in x.syms() for x in others): continue
                    nn = n.subst({}) if not callable(n) else n(a.args[2:])
                    off = IP.sym(v) - k
                    rest = bv_region(t, v, off, off + nn, gamma)
                    if rest is None: continue
                    return [Term(t.c, [x for x in t.bv if x != v], rest + [f_same(a.args[0], b.args[1])], others)]
    return None

def rule_recip(t, gamma, nonzero=()):
    """x * inv(x) = 1 when x is not null"""
    for i, a in enumerate(t.at):
        if a.name != 'inv' or not isinstance(a.args[0], GE): continue
        g = a.args[0]
        if len(g.terms) > 1 and all(not u.bv for u in g.terms) and any(u.g for u in g.terms):
            # a piecewise argument: its guards hold, do not hold, or are split on
            G = gamma + list(t.g)
            keep, undecided = [], None
            for u in g.terms:
                h = f_and(*u.g)
                if entails(G, h): keep.append(Term(u.c, (), (), u.at))
                elif not entails(G, f_not(h)): undecided = h; break
            if undecided is not None:
                if pureint(undecided): return [Term(t.c, t.bv, t.g + (x,), t.at) for x in (undecided, f_not(undecided))]
                continue
            if keep and (len(keep) < len(g.terms) or any(u.g for u in g.terms)):
                return [Term(t.c, t.bv, t.g, t.at[:i] + (Atom('inv', (GE(tuple(keep)),)),) + t.at[i + 1:])]
            continue
        if len(g.terms) != 1: continue
        u = g.terms[0]
        if u.bv: continue
        G = gamma + list(t.g)
        guarded = bool(u.g)
        if guarded:
            if not entails(G, f_and(*u.g)): continue
            u = Term(u.c, (), (), u.at)
        if len(u.at) == 1:
            for j, b in enumerate(t.at):
                if j != i and b == u.at[0]:
                    if b.name not in nonzero and not entails(G, f_not(f_rc('==', GE((Term(Fraction(1), (), (), (b,)),))))): continue
                    return [Term(t.c / u.c, t.bv, t.g, [x for k, x in enumerate(t.at) if k not in (i, j)])]
        if guarded:
            # the guards of the argument hold
            return [Term(t.c, t.bv, t.g, t.at[:i] + (Atom('inv', (GE((u,)),)),) + t.at[i + 1:])]
    return None

def facts_of(gamma):
    """rewriting rules given by the quantified facts of gamma:  forall v: guard(v) => atom(v) == value(v)"""
    out = {}
    if any(f[0] == 'and' for f in gamma): gamma = [x for f in gamma for x in (f[1] if f[0] == 'and' else (f,))]
    for f in gamma:
        if f[0] == 'rc' and f[1] == '==': vs, body = (), f
        elif f[0] == 'all': vs, body = f[1], f[2]
        else: continue
        lits = list(body[1]) if body[0] == 'or' else [body]
        # a conjunction of clauses
        clauses = [lits]
        if body[0] == 'and': clauses = [list(g[1]) if g[0] == 'or' else [g] for g in body[1]]
        for lits in clauses:
            eqs = [l for l in lits if l[0] == 'rc' and l[1] == '==']
            others = [l for l in lits if l not in eqs]
            if len(eqs) != 1: continue
            ge = eqs[0][2]
            r = _solve_atom(ge, vs)
            if r is None: continue
            atom, val = r
            cond = f_and(*[f_not(l) for l in others])
            out.setdefault(atom.name, []).append((vs, atom, cond, val))
    return out
def _solve_atom(ge, vs):
    """ge == 0 as atom == value with every variable of vs an argument of the atom"""
    best = None
    for t in ge.terms:
        if t.bv or t.g or len(t.at) != 1: continue
        a = t.at[0]
        if a.name in ('int', 'rnd', 'inv', 'dbl', 'pow2') or any(isinstance(x, GE) for x in a.args): continue
        if not all(any(x == IP.sym(v) for x in a.args) for v in vs):
            # unit coefficients
            if not all(any(x.lincoef(v) in (1, -1) and x.lincoef(v) != 0 for x in a.args) for v in vs): continue
        rest = GE([u for u in ge.terms if u is not t]).scale(Fraction(-1) / t.c)
        if a.name in rest.names() and not _other_row(a, rest, vs): continue
        if best is None or len(a.args) > len(best[0].args): best = (a, rest)
    return best
def _other_row(a, rest, vs):
    """the occurrences of the function of a in rest are at another (fixed) place"""
    for t in rest.terms:
        if t.bv: return False
        for b in t.at:
            if a.name in GE((Term(Fraction(1), (), (), (b,)),)).names():
                if b.name != a.name or len(b.args) != len(a.args): return False
                if not any(not isinstance(x, GE) and not isinstance(y, GE) and not ((x.syms() | y.syms()) & set(vs)) and (x - y).isconst and (x - y).value != 0 for x, y in zip(a.args, b.args)): return False
    return True
def apply_fact(rule, args):
    vs, atom, cond, val = rule
    d = {}
    if len(atom.args) != len(args): return None
    extra = []
    todo = list(zip(atom.args, args))
    for _ in range(3):
        rest = []
        for x, y in todo:
            if isinstance(y, GE): return None
            x2 = x.subst(d)
            un = [v for v in x2.syms() if v in vs and v not in d]
            if not un:
                rest.append((x, y)); continue
            if len(un) == 1 and x2.lincoef(un[0]) in (1, -1):
                k = x2.lincoef(un[0])
                d[un[0]] = (y - (x2 - IP.sym(un[0]) * k)) * k
            else: rest.append((x, y))
        todo = rest
    if set(d) != set(vs): return None
    for x, y in todo: extra.append(f_same(x.subst(d), y))
    return f_and(f_subst(cond, d), *extra), val.subst(d)
def rule_gammafacts(t, gamma, facts):
    for i, a in enumerate(t.at):
        for rule in facts.get(a.name, ()):
            r = apply_fact(rule, a.args)
            if r is None: continue
            cond, val = r
            if cond == F: continue
            if not pureint(cond): continue
            g0 = [f for f in gamma if pureint(f)] + [f for f in t.g if pureint(f)]
            if sat(g0 + [cond]) is False: continue
            others = t.at[:i] + t.at[i + 1:]
            out = list((GE((Term(t.c, t.bv, list(t.g) + f_conj(cond), others),)) * val).terms)
            nc = f_not(cond)
            if cond != T and sat(g0 + [nc]) is not False: out.append(Term(t.c, t.bv, list(t.g) + f_conj(nc), t.at))
            return out
    return None

def rule_atomfacts(t, gamma, rules):
    for i, a in enumerate(t.at):
        if a.name in rules.atomfacts:
            for fn in rules.atomfacts[a.name]:
                cases = fn(a.args)
                # cases: list of (form, GE or None (unchanged))
                if entails(gamma + list(t.g), f_and(*[f_not(c) for c, _ in cases])): continue
                others = t.at[:i] + t.at[i + 1:]
                out = []
                neg = []
                for c, val in cases:
                    base = Term(t.c, t.bv, list(t.g) + neg + f_conj(c), others)
                    p = GE((base,)) * val
                    out += list(p.terms)
                    neg = neg + [f_not(c)]
                out.append(Term(t.c, t.bv, list(t.g) + neg, t.at))
                return [x for x in out]
    return None

def unify(t1, t2):
    """substitutions of the bound variables of t2 by expressions over those of t1 making the atoms equal"""
    if len(t1.at) != len(t2.at) or len(t1.bv) != len(t2.bv): return
    n1 = sorted(a.name for a in t1.at); n2 = sorted(a.name for a in t2.at)
    if n1 != n2: return
    used = [False] * len(t1.at)
    def rcs(t):
        for f in t.g:
            while f[0] == 'not': f = f[1]
            if f[0] == 'rc': yield f[2]
    def rec(i, d):
        if i == len(t2.at):
            # unassigned variables: pair with the remaining ones in order
            un = [v for v in t2.bv if v not in d]
            if un:
                # variables read in the real comparisons of the guards
                mine = [g for g in rcs(t2) if any(v in g.syms() for v in un)]
                for g2 in mine:
                    for g1 in rcs(t1):
                        d2 = match_ge(g2, g1, d)
                        if d2 is not None and all(v in d2 for v in t2.bv) and unimod(d2): yield d2
                if mine and not t1.at and any(True for _ in rcs(t1)): return
                # variables absent from the atoms: pair with the t1 variables absent from the atoms
                s1 = set()
                for a in t1.at: s1 |= a.syms()
                free1 = [v for v in t1.bv if v not in s1]
                if len(free1) != len(un): return
                for p in itertools.permutations(free1):
                    d2 = dict(d)
                    for v, w in zip(un, p): d2[v] = IP.sym(w)
                    if unimod(d2): yield d2
            elif unimod(d): yield d
            return
        a2 = t2.at[i]
        for j, a1 in enumerate(t1.at):
            if used[j] or a1.name != a2.name or len(a1.args) != len(a2.args): continue
            d2 = match_args(a2.args, a1.args, dict(d))
            if d2 is None: continue
            used[j] = True
            yield from rec(i + 1, d2)
            used[j] = False
    bv2 = set(t2.bv)
    def match_args(x2, x1, d):
        pend = list(zip(x2, x1))
        prog = True
        while pend:
            prog = False
            rest = []
            for e2, e1 in pend:
                if isinstance(e2, GE) or isinstance(e1, GE):
                    if not (isinstance(e2, GE) and isinstance(e1, GE)): return None
                    vs = [v for v in e2.syms() if v in bv2 and v not in d]
                    if vs:
                        # try to read the binding structurally
                        m = match_ge(e2, e1, d)
                        if m is None: rest.append((e2, e1)); continue
                        d = m; prog = True; continue
                    if e2.subst(d) != e1: return None
                    prog = True; continue
                e2 = e2.subst(d)
                un = [v for v in e2.syms() if v in bv2 and v not in d]
                if not un:
                    if e2 != e1: return None
                    prog = True; continue
                if len(un) == 1 and e2.lincoef(un[0]) in (1, -1):
                    v = un[0]; k = e2.lincoef(v)
                    d[v] = (e1 - (e2 - IP.sym(v) * k)) * k
                    prog = True; continue
                rest.append((e2, e1))
            pend = rest
            if not prog: return None
        return d
    def match_ge(g2, g1, d):
        g2 = g2.light(); g1 = g1.light()
        if len(g2.terms) != len(g1.terms): return None
        for perm in itertools.permutations(g1.terms) if len(g1.terms) <= 3 else [g1.terms]:
            dd = dict(d); ok = True
            for a, b in zip(g2.terms, perm):
                if a.c != b.c or len(a.at) != len(b.at) or a.bv or b.bv: ok = False; break
                for x, y in zip(a.at, b.at):
                    if x.name != y.name or len(x.args) != len(y.args): ok = False; break
                    r = match_args(x.args, y.args, dd)
                    if r is None: ok = False; break
                    dd = r
                if not ok: break
            if ok and g2.subst(dd) == g1: return dd
        return None
    def unimod(d):
        vs = list(t2.bv); ws = list(t1.bv)
        if not vs: return True
        import sympy
        M = []
        for v in vs:
            row = []
            for w in ws:
                k = d[v].lincoef(w)
                if k is None: return False
                row.append(k)
            M.append(row)
        return abs(sympy.Matrix(M).det()) == 1
    yield from rec(0, {})

def combine_zero(group, gamma):
    """group: list of (coef, guards) over the same variables; is the weighted sum of indicators zero everywhere?"""
    if not group: return True
    # quick syntactic cancellation
    acc = {}
    for c, g in group:
        k = tuple(sorted(f_str(f) for f in g))
        acc[k] = (acc.get(k, (0, g))[0] + c, g)
    group = [(c, g) for c, g in acc.values() if c]
    if not group: return True
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', 6000)
    for f in gamma: s.add(Z.form(f))
    e = None
    for c, g in group:
        x = z3.If(z3.And(*[Z.form(f) for f in g]) if g else z3.BoolVal(True), z3.RealVal(str(c)), z3.RealVal(0))
        e = x if e is None else e + x
    s.add(e != 0)
    r = s.check()
    Z.stats['z3_queries'] += 1
    Z.stats['z3_time'] += time.time() - t0
    if r == z3.unknown:
        Z.stats['unknown'] += 1
        return _cvc5(s) is False
    return r == z3.unsat

def merge_groups(terms, gamma):
    """group the terms with unifiable atoms; returns the residual list of groups that do not cancel"""
    groups = []   # (representative term, [(coef, guards)])
    bad = []
    for t in terms:
        placed = False
        for rep, lst in groups:
            for d in unify(rep, t):
                t2 = Term(t.c, (), t.g, t.at).subst(d)
                if t2 is None: continue
                lst.append((t.c, t2.g)); placed = True
                break
            if placed: break
        if not placed:
            groups.append((t, [(t.c, t.g)]))
    for rep, lst in groups:
        if not combine_zero(lst, gamma): bad.append((rep, lst))
    # a term over fewer bound variables is a sum over more of them, restricted to a point
    bad.sort(key=lambda x: len(x[0].bv))
    i = 0
    while i < len(bad):
        rep0, lst0 = bad[i]
        hit = False
        for rep, lst in bad[i + 1:]:
            if len(rep.bv) <= len(rep0.bv): continue
            r = embed(rep, rep0)
            if r is None: continue
            sub, eqs = r
            new = []
            for c, g in lst0:
                t2 = Term(c, (), g, ()).subst(sub)
                if t2 is not None: new.append((c, tuple(t2.g) + tuple(eqs)))
            lst += new
            hit = True
            break
        if hit: bad.pop(i)
        else: i += 1
    return [(rep, lst) for rep, lst in bad if not combine_zero(lst, gamma)]
def embed(big, small):
    """small (fewer bound variables) as a sum over the variables of big: (substitution of the variables of small, equations)"""
    if sorted(a.name for a in big.at) != sorted(a.name for a in small.at): return None
    used = [False] * len(small.at)
    bvs = set(big.bv)
    def rec(i, d):
        if i == len(big.at):
            if not big.at and not d and len(small.bv) == 1: d = {v: IP.sym(small.bv[0]) for v in big.bv}     # on the diagonal
            if set(d) != bvs: return None
            sub = {}; eqs = []
            for v in big.bv:
                e = d[v].subst(sub)
                done = False
                for w in small.bv:
                    if w in sub: continue
                    k = e.lincoef(w)
                    if k in (1, -1):
                        sub[w] = (IP.sym(v) - (e - IP.sym(w) * k)) * k
                        done = True
                        break
                if not done: eqs.append((v, d[v]))
            if any(w not in sub for w in small.bv): return None
            return sub, [f_same(v, e.subst(sub)) for v, e in eqs]
        for j, a in enumerate(small.at):
            if used[j] or a.name != big.at[i].name or len(a.args) != len(big.at[i].args): continue
            dd = dict(d); ok = True
            for x, y in zip(big.at[i].args, a.args):
                if isinstance(x, GE) or isinstance(y, GE):
                    if isinstance(x, GE) and isinstance(y, GE) and not (x.syms() & bvs) and x == y: continue
                    ok = False; break
                x2 = x.subst(dd) if not (set(dd) & x.syms() & bvs) else x.subst({k: v for k, v in dd.items()})
                un = [v for v in x2.syms() if v in bvs and v not in dd]
                if not un:
                    if x2 != y: ok = False; break
                    continue
                if len(un) == 1 and x2.lincoef(un[0]) in (1, -1):
                    k = x2.lincoef(un[0])
                    dd[un[0]] = (y - (x2 - IP.sym(un[0]) * k)) * k
                    continue
                ok = False; break
            if not ok: continue
            used[j] = True
            r = rec(i + 1, dd)
            used[j] = False
            if r is not None: return r
        return None
    return rec(0, {})

def unfold(ts, rules, gamma, only_closed=True):
    """unfold once the definitions of the ghost atoms without bound variables; None if nothing to unfold"""
    out = []; did = False
    # the latest instants only (a family is compared with itself at one instant)
    last = {a for t in ts for a in t.at if a.name in rules.defs}
    early = set()
    for a in last:
        for b in last:
            if a.name == b.name and a.args and isinstance(a.args[0], IP) and isinstance(b.args[0], IP):
                d = b.args[0] - a.args[0]
                if d.isconst and d.value > 0: early.add(a)
    for t in ts:
        bvs = set(t.bv)
        done = False
        for i, a in enumerate(t.at):
            if a.name in rules.defs and not (a.syms() & bvs) and a not in early:
                params, body, dom = rules.defs[a.name]
                d = dict(zip(params, a.args))
                dm = f_subst(dom, d)
                if not entails(gamma + list(t.g), dm):
                    # split on the domain
                    if sat(gamma + list(t.g) + [dm]) is False: continue
                    if ('dom', a) in getattr(rules, '_nosplit', ()): continue
                    out.append(Term(t.c, t.bv, list(t.g) + [f_not(dm)], t.at))
                    g2 = list(t.g) + [dm]
                else: g2 = list(t.g)
                others = t.at[:i] + t.at[i + 1:]
                p = GE((Term(t.c, t.bv, g2, others),)) * body.subst(d)
                out += list(p.terms)
                did = True; done = True
                break
        if not done: out.append(t)
    return out if did else None

ROUNDINGS = ('rnd', 'rd2w', 'rd53', 'dbl')     # roundings to nearest: 0 and 1 are kept
def _has_gearg(a): return any(isinstance(x, GE) for x in a.args)
def congruence(ts, gamma, rules, deadline):
    """replace the atoms f(a) by f(b) when a = b is proved (under the guards of the term); None if nothing changes"""
    reps = []; out = []; did = False
    for t in ts:
        at = list(t.at)
        for i, a in enumerate(at):
            if not _has_gearg(a) or a.syms() & set(t.bv): continue
            hit = None
            if a.name in ROUNDINGS and len(at) == 1:
                v = None
                for w in (0, 1):
                    if ge_zero(a.args[0] - w, gamma + list(t.g), rules, 1, 1, deadline) is True: v = w; break
                if v is not None:
                    did = True
                    if v: out.append(Term(t.c, t.bv, t.g, ()))
                    at = None; break
            for r in reps:
                if r.name != a.name or len(r.args) != len(a.args): continue
                if r == a: hit = r; break
                g = gamma + list(t.g)
                ok = True
                for x, y in zip(r.args, a.args):
                    if isinstance(x, GE) != isinstance(y, GE): ok = False; break
                    if not isinstance(x, GE):
                        if x != y and not entails(intforms(g), f_same(x, y)): ok = False; break
                if ok:
                    for x, y in zip(r.args, a.args):
                        if isinstance(x, GE) and x != y and ge_zero(x - y, g, rules, 1, 1, deadline) is not True: ok = False; break
                if ok: hit = r; break
            if hit is None: reps.append(a)
            elif hit != a: at[i] = hit; did = True
        if at is not None: out.append(Term(t.c, t.bv, t.g, at) if did else t)
    if not did: return None
    return list(GE(out).light().terms)

class Fail:
    """a non cancelled equation (the residual is what the verifier reports)"""
    def __init__(self, gamma, residual):
        self.gamma, self.residual = gamma, residual
    def __str__(self):
        return 'under [%s]: residual %s' % ('; '.join(f_str(f) for f in self.gamma[-8:]), '; '.join('%r * {%s}' % (r[0].at, ' + '.join('%s[%s]' % (c, ' & '.join(f_str(f) for f in g)) for c, g in r[1][:4])) for r in self.residual[:4]))

def ge_zero(D, gamma, rules=None, depth=5, unfolds=2, deadline=None):
    """True, or a Fail"""
    rules = rules or Rules()
    gamma = list(gamma)
    if deadline is None: deadline = time.time() + 120
    if time.time() > deadline: return Fail(gamma, [])
    if sat(gamma) is False: return True
    d = _orient(gamma)
    gamma2 = [f for f in [f_subst(f, d) for f in gamma] if f != T] if d else gamma
    D = D.subst(d) if d else D
    D = D.light()
    ig = intforms(gamma2)
    needreal = any(not pureint(f) for t in D.terms for f in t.g)
    gg = gamma2 if needreal else ig
    ts = []
    facts = facts_of(gamma2)
    for t in D.terms: ts += norm_term(t, gg, rules, True, facts, gamma2)
    ts = list(GE(ts).light().terms)
    if not ts: return True
    bad = merge_groups(ts, gg)
    if not bad: return True
    # congruence: f(a) = f(b) when a = b
    if depth >= 0 and any(_has_gearg(a) for rep, _ in bad for a in rep.at):
        ts2 = congruence(ts, gamma2, rules, deadline)
        if ts2 is not None:
            ts = ts2
            bad = merge_groups(ts, gg)
            if not bad: return True
    # unfold definitions
    if unfolds > 0:
        u = unfold(ts, rules, gg)
        if u is not None:
            r = ge_zero(GE(u), gamma2, rules, 0, unfolds - 1, deadline)
            if r is True: return True
    if depth > 0:
        # case split on a free guard of the residual
        cands = []
        for rep, lst in bad:
            for c, g in lst:
                for f in g:
                    fs = f_syms(f)
                    if not any(v in fs for v in rep.bv) and f not in cands: cands.append(f)
        # prefer equalities, then inequalities
        cands.sort(key=lambda f: 0 if f[0] == 'eq' else (1 if f[0] == 'not' else 2))
        for f in cands:
            if entails(gg, f) or entails(gg, f_not(f)): continue
            a = ge_zero(GE(ts), gamma2 + [f], rules, depth - 1, unfolds, deadline)
            if a is not True: return a
            nf = f_not(f)
            if nf[0] == 'not' and nf[1][0] == 'eq':
                for h in (f_ge(nf[1][1] - 1), f_ge(-nf[1][1] - 1)):
                    b = ge_zero(GE(ts), gamma2 + [h], rules, depth - 1, unfolds, deadline)
                    if b is not True: return b
                return True
            return ge_zero(GE(ts), gamma2 + [nf], rules, depth - 1, unfolds, deadline)
    return Fail(gamma2, bad)
