"""Symbolic values handled by the interpreted code, and the execution context (paths, facts, obligations)."""
from fractions import Fraction
import numbers, time, re
from vx.core import *
from vx import core

class ObFailed(Unsupported):
    """an obligation failed on this path"""
class Infeasible(Exception):
    """the path does not exist"""
_stamp = [0]
def stamp():
    _stamp[0] += 1
    return _stamp[0]

# --------------------------------------------------------------------------- context
class Ctx:
    cur = None
    def __init__(self, name=''):
        self.name = name
        self.rules = Rules()
        self.base = []            # preconditions (forms)
        self.gamma = []           # path condition
        self.dec = []; self.pos = 0; self.pending = []
        self.obl = []             # obligations of this function: dicts
        self.recorders = []       # active loop recorders
        self.loop_syms = []       # symbols standing for loop counters (arguments of the ghost families)
        self.memo = {}
        self.ints = {}            # texts of symbolic integers
        self.contracts = {}       # qualified name -> handler
        self.families = []
        self.branches = 0
        self.events = []
        self.deadline = None
        self.funcs = set()        # real functions interpreted
        self.used_contracts = set()
        self.quiet = 0            # > 0: obligations are not recorded (discovery passes)
        self.born = {}            # id of list/dict -> (object, birth stamp)
        self.dead = False
        self.decided = set()      # quantified conditions of branches
    def known_now(self):
        s = set()
        for f in self.all(): s |= f_syms(f)
        return s
    def register_birth(self, o):
        self.born[id(o)] = (o, stamp())
    def oblige(self, name, thunk):
        """an obligation of the current path; a failed one ends the path (nothing after it would be trustworthy)"""
        if self.quiet: return
        t0 = time.time()
        try: r = thunk()
        except Unsupported as e: r = 'not decided: %s' % e
        self.obl.append(dict(name=name, ok=(r is True), why=None if r is True else str(r), time=time.time() - t0))
        if r is not True: raise ObFailed(name)
    def assume(self, f):
        if f == T: return
        self.gamma.append(f)
    def all(self): return self.base + self.gamma
    def entails(self, f):
        return core.entails(self.all(), f)
    def decide(self, f):
        """truth of a symbolic condition on this path"""
        if f == T: return True
        if f == F: return False
        g = self.all()
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of the function exhausted')
        if core.entails(g, f): return True
        if core.entails(g, f_not(f)): return False
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.pending.append(self.dec[:self.pos] + [False])
            self.dec = self.dec[:self.pos] + [True]
            self.branches += 1
            if self.branches > 600: raise Unsupported('too many paths')
        self.pos += 1
        if core.has_all(f):
            self.decided.add(f); self.decided.add(f_not(f))
        self.assume(f if v else f_not(f))
        return v
    def explore(self, run):
        """run() for every path; yields nothing, run is in charge of recording the outcomes"""
        sv = (self.dec, self.pos, self.pending)
        self.pending = [[]]
        g0 = list(self.gamma)
        try:
            while self.pending:
                d = self.pending.pop()
                pend = self.pending
                self.dec, self.pos = list(d), 0
                self.gamma = list(g0)
                m0 = dict(self.memo)
                try: run()
                except Infeasible: pass
                finally: self.memo = m0
                self.pending = self.pending
        finally:
            self.dec, self.pos, self.pending = sv
            self.gamma = g0
    def freshint(self, p='n'):
        return mk_int(IP.sym(fresh(p)))
    def touch(self, obj):
        for r in self.recorders: r.touch(obj)

def ctx():
    return Ctx.cur

# --------------------------------------------------------------------------- booleans
class SBool:
    __slots__ = ('form',)
    def __init__(self, f): self.form = f
    def __bool__(self): return Ctx.cur.decide(self.form)
    def __and__(self, o): return mk_bool(f_and(self.form, form_of(o)))
    def __or__(self, o): return mk_bool(f_or(self.form, form_of(o)))
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(self): return mk_bool(f_not(self.form))
    def __eq__(self, o):
        a = self.form; b = form_of(o)
        return mk_bool(f_or(f_and(a, b), f_and(f_not(a), f_not(b))))
    def __hash__(self): return id(self)
    def __repr__(self): return '<%s>' % f_str(self.form)
    def __mul__(self, o): return to_real(self) * o
    __rmul__ = __mul__
    def __add__(self, o): return to_real(self) + o
    __radd__ = __add__
    def __int__(self): return 1 if bool(self) else 0
    def all(self): return self
    def any(self): return self
def form_of(x):
    if isinstance(x, SBool): return x.form
    if isinstance(x, (bool,)): return T if x else F
    if x is None: return F
    if isinstance(x, SInt): return f_not(f_eq(x.ip))
    if isinstance(x, SReal): return f_not(f_rc('==', x.ge))
    try:
        return T if bool(x) else F
    except Exception:
        raise Unsupported('truth value of %r' % (x,))
def mk_bool(f):
    if f == T: return True
    if f == F: return False
    return SBool(f)

# --------------------------------------------------------------------------- integers
class SInt:
    __slots__ = ('ip',)
    def __init__(self, ip): self.ip = ip
    def __add__(self, o): return _ii(self, o, lambda a, b: a + b, '+')
    def __radd__(self, o): return _ii(o, self, lambda a, b: a + b, '+')
    def __sub__(self, o): return _ii(self, o, lambda a, b: a - b, '-')
    def __rsub__(self, o): return _ii(o, self, lambda a, b: a - b, '-')
    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)): return NotImplemented
        return _ii(self, o, lambda a, b: a * b, '*')
    def __rmul__(self, o):
        if isinstance(o, list): return seq_repeat(o, self)
        if isinstance(o, (str, tuple)): raise Unsupported('repetition of a string or tuple a symbolic number of times')
        return _ii(o, self, lambda a, b: a * b, '*')
    def __neg__(self): return mk_int(-self.ip)
    def __pos__(self): return self
    def __truediv__(self, o): return to_real(self) / o
    def __rtruediv__(self, o): return to_real(o) / to_real(self)
    def __floordiv__(self, o): return int_div(self, o)[0]
    def __mod__(self, o): return int_div(self, o)[1]
    def __divmod__(self, o): return int_div(self, o)
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = IP1
            for _ in range(o): r = r * self.ip
            return mk_int(r)
        return to_real(self) ** o
    def __rpow__(self, o): return to_real(o) ** self
    def __abs__(self):
        if Ctx.cur.decide(f_ge(self.ip)): return self
        return mk_int(-self.ip)
    def __eq__(self, o): return _icmp(self, o, '==')
    def __ne__(self, o): return _icmp(self, o, '!=')
    def __le__(self, o): return _icmp(self, o, '<=')
    def __lt__(self, o): return _icmp(self, o, '<')
    def __ge__(self, o): return _icmp(self, o, '>=')
    def __gt__(self, o): return _icmp(self, o, '>')
    def __hash__(self): return hash(self.ip)
    def __bool__(self): return Ctx.cur.decide(f_not(f_eq(self.ip)))
    def __index__(self):
        v = forced_const(self.ip)
        if v is not None: return v
        raise Unsupported('a symbolic integer (%r) is used where a concrete one is needed' % (self.ip,))
    __int__ = __index__
    def __float__(self):
        return float(self.__index__())
    def __repr__(self): return 'int<%r>' % (self.ip,)
    __str__ = __repr__
    def __format__(self, s): return int_token(self, s)
    @property
    def real(self): return self
    def bit_length(self): raise Unsupported('bit_length')
def mk_int(ip):
    ip = IP.of(ip)
    return ip.value if ip.isconst else SInt(ip)
def forced_const(ip):
    """the constant that the path forces, if any"""
    if ip.isconst: return ip.value
    c = Ctx.cur
    d = core._orient(c.all())
    e = ip.subst(d)
    if e.isconst: return e.value
    return None
def is_int(x): return isinstance(x, SInt) or (isinstance(x, numbers.Integral) and not isinstance(x, bool))
def is_num(x): return isinstance(x, (SInt, SReal, int, float, Fraction)) and not isinstance(x, bool)
def _ii(a, b, op, name):
    if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, (float, Fraction)) or isinstance(b, (float, Fraction)):
        a = to_real(a); b = to_real(b)
        return {'+': a.__add__, '-': a.__sub__, '*': a.__mul__}[name](b)
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        return mk_int(op(IP.of(a), IP.of(b)))
    return NotImplemented
def _icmp(a, b, op):
    if isinstance(b, (SInt, int)):
        x = IP.of(a); y = IP.of(b)
        f = {'==': lambda: f_same(x, y), '!=': lambda: f_not(f_same(x, y)), '<=': lambda: f_le(x, y), '<': lambda: f_lt(x, y),
             '>=': lambda: f_le(y, x), '>': lambda: f_lt(y, x)}[op]()
        return mk_bool(f)
    if isinstance(b, (SReal, float, Fraction)):
        return _rcmp(to_real(a), to_real(b), op)
    if op == '==': return False
    if op == '!=': return True
    return NotImplemented
def int_div(a, b):
    a = IP.of(a); b = IP.of(b)
    if a.isconst and b.isconst: return divmod(a.value, b.value)
    if not b.isconst or b.value <= 0: raise Unsupported('integer division by a symbolic or negative number')
    if b.value == 1: return mk_int(a), 0
    c = Ctx.cur
    key = ('idiv', a, b)
    if key not in c.memo:
        q = IP.sym(fresh('q')); r = a - q * b
        c.assume(f_ge(r)); c.assume(f_lt(r, b))
        c.memo[key] = q
    q = c.memo[key]
    return mk_int(q), mk_int(a - q * b)

# --------------------------------------------------------------------------- reals
def rnd(g):
    """one rounding to the working precision"""
    g = g.light()
    if not g.terms: return g
    if Ctx.cur.memo.get('real parts'): return g          # the contract takes the rounded operations as exact ones
    if g.isconst and g.constval in (1, -1): return g
    s = 1
    if g.terms[0].c < 0: s = -1; g = -g
    return GE.atom('rnd', g.light()).scale(s)

class SReal:
    __slots__ = ('ge', 'kind')
    def __init__(self, ge, kind='float'):
        self.ge = ge; self.kind = kind
    def _bin(self, o, op):
        if isinstance(o, SMat) or not isinstance(o, (SReal, SInt, SBool, int, float, Fraction)): return NotImplemented
        b = to_real(o)
        k = joink(self.kind, b.kind)
        r = op(self.ge, b.ge).light()
        if k in ('mpf', 'mpc'): r = rnd(r)
        return SReal(r, k)
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: ge_div(a, b))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: ge_div(b, a))
    def __neg__(self): return SReal(rnd(-self.ge) if self.kind in ('mpf', 'mpc') else -self.ge, self.kind)
    def __pos__(self): return SReal(rnd(self.ge), self.kind) if self.kind in ('mpf', 'mpc') else self
    def __abs__(self):
        if self.kind in ('mpc', 'complex') and complex_names():
            g = (self.ge * conj_ge(self.ge)).light()
            return SReal(GE.atom('sqrt', g), 'float' if self.kind == 'complex' else 'mpf')
        if Ctx.cur.decide(f_rc('>=', self.ge)): return self
        return -self
    def __pow__(self, o):
        if isinstance(o, (int,)) and 0 <= o <= 8:
            r = GE1
            for _ in range(o): r = r * self.ge
            return SReal(rnd(r) if self.kind == 'mpf' else r, self.kind)
        if isinstance(o, int) and -8 <= o < 0:
            return SReal(GE1, self.kind) / (self ** (-o))
        b = to_real(o)
        if self.ge == GE.const(2): return SReal(pow2(b.ge), joink(self.kind, b.kind))
        if self.ge.isconst and self.ge.constval > 0: return SReal(GE1 if b.ge.light() == GE0 else GE.atom('powc', self.ge, b.ge.light()), joink(self.kind, b.kind))
        raise Unsupported('power %r ** %r' % (self, o))
    def __rpow__(self, o): return to_real(o) ** self
    def __eq__(self, o): return _rcmp(self, o, '==')
    def __ne__(self, o): return _rcmp(self, o, '!=')
    def __le__(self, o): return _rcmp(self, o, '<=')
    def __lt__(self, o): return _rcmp(self, o, '<')
    def __ge__(self, o): return _rcmp(self, o, '>=')
    def __gt__(self, o): return _rcmp(self, o, '>')
    def __hash__(self): return hash(self.ge)
    def __bool__(self): return Ctx.cur.decide(f_not(f_rc('==', self.ge)))
    def __float__(self):
        g = self.ge.light()
        if g.isconst: return float(g.constval)
        raise Unsupported('a symbolic real (%r) is used where a concrete one is needed' % (g,))
    def __int__(self):
        g = self.ge.light()
        if g.isconst: return int(g.constval)
        raise Unsupported('int() of the symbolic real %r' % (g,))
    def __repr__(self): return '%s<%r>' % (self.kind, self.ge)
    def __str__(self): return num_text(self, '%d.5') if self.kind == 'float' and not self.ge.light().isconst else repr(self)
    def __format__(self, s): return repr(self)
    @property
    def real(self):
        if self.kind in ('mpc', 'complex'): return SReal(real_part(self.ge), 'mpf' if self.kind == 'mpc' else 'float')
        return self
    @property
    def imag(self):
        if self.kind in ('mpc', 'complex'): return SReal(imag_part(self.ge), 'mpf' if self.kind == 'mpc' else 'float')
        return SReal(GE0, self.kind)
    @property
    def _mpf_(self):
        if self.kind != 'mpf': raise AttributeError('_mpf_')
        g = self.ge.light()
        s = mk_bool(('rc', '>', -g) if g.terms and not g.isconst else (T if g.isconst and g.constval < 0 else F))
        return (s, SReal(GE.atom('man', g), 'int'), SReal(GE.atom('exp', g), 'int'), SReal(GE.atom('bc', g), 'int'))
    def item(self): return self
    def conjugate(self): return SReal(conj_ge(self.ge), self.kind) if self.kind in ('mpc', 'complex') else self
    def hex(self):
        if self.kind == 'int': raise AttributeError("'int' object has no attribute 'hex'")
        if self.kind != 'float': raise Unsupported('hex')
        g = self.ge.light()
        if g.isconst and Fraction(float(g.constval)) == g.constval: return float(g.constval).hex()
        return num_text(self, '0x1.%013xp+0')
    def is_integer(self): raise Unsupported('is_integer')
def num_text(x, form, lossy=None):
    """a text (of a number, never the same for two values) that stands for a symbolic real"""
    g = x.ge.light()
    tab = Ctx.cur.memo.setdefault('texts', {})
    key = (form, lossy, g)
    if key not in tab:
        s = form % (len(tab) + 4097)
        tab[key] = s; tab[s] = g if lossy is None else GE.atom('fmt:' + lossy, g)
    return tab[key]
def int_token(x, spec=''):
    """a text that stands for the decimal text of a symbolic integer (always with its sign if the format asks for it)"""
    v = x.ip if isinstance(x, SInt) else x.ge.light()
    k = forced_const(v) if isinstance(x, SInt) else int(v.constval) if v.isconst else None
    if k is not None: return format(k, spec)
    if spec not in ('', 'd', '+', '+d'): raise Unsupported('format %r of an integer' % spec)
    tab = Ctx.cur.ints
    key = (type(x), v, '+' in spec)
    if key not in tab:
        s = '\u27e6%d\u27e7' % len(tab)
        tab[key] = s; tab[s] = (x, '+' in spec)
    return tab[key]
_ITOK = re.compile('\u27e6\\d+\u27e7')
def text_parts(s):
    """list of pieces: texts and (integer, with its sign) of a text with tokens of integers"""
    tab = Ctx.cur.ints
    out, i = [], 0
    for m in _ITOK.finditer(s):
        if m.start() > i: out.append(s[i:m.start()])
        out.append(tab[m[0]]); i = m.end()
    if i < len(s): out.append(s[i:])
    return out
def text_subst(s, d):
    if '\u27e6' not in s: return s
    return _ITOK.sub(lambda m: int_token(value_subst(Ctx.cur.ints[m[0]][0], d), '+' if Ctx.cur.ints[m[0]][1] else ''), s)
def text_same(a, b):
    """True, or the reason why the texts are not (shown to be) the same"""
    if not isinstance(a, str) or not isinstance(b, str): return 'not a text: %r, %r' % (a, b)
    if a == b: return True
    x, y = text_parts(a), text_parts(b)
    if len(x) != len(y): return 'texts differ: %s, %s' % (show_text(a), show_text(b))
    for p, q in zip(x, y):
        if isinstance(p, str) or isinstance(q, str):
            if p != q: return 'texts differ: %s, %s' % (show_text(a), show_text(b))
        elif p[1] != q[1] or not Ctx.cur.entails(f_rc('==', to_real(p[0]).ge - to_real(q[0]).ge)): return 'texts differ: %s, %s' % (show_text(a), show_text(b))
    return True
def show_text(s): return ''.join(p if isinstance(p, str) else '{%s%r}' % ('+' if p[1] else '', p[0]) for p in text_parts(s))
def text_value(s):
    """value of the text of a number"""
    tab = Ctx.cur.memo.get('texts', {})
    if s in tab: return tab[s]
    if s[:2].lower() == '0x': return GE.const(Fraction(float.fromhex(s)))
    return GE.const(Fraction(s))
def real_part(g):
    if complex_names(): return (g + conj_ge(g)).scale(Fraction(1, 2)).light()
    return _lin_map('re', g)
def imag_part(g):
    names = complex_names()
    if not names or set(names) != {'I'}: return _lin_map('im', g)
    d = (g - conj_ge(g)).light()              # the terms which have the imaginary unit
    out = []
    for t in d.terms:
        k = [i for i, a in enumerate(t.at) if a.name == 'I']
        if len(k) != 1: raise Unsupported('power of the imaginary unit')
        out.append(Term(t.c / 2, t.bv, t.g, [a for i, a in enumerate(t.at) if i != k[0]]))
    return GE(out)
def complex_of(a, b):
    """a + i b"""
    if 'I' not in (complex_names() or ()): raise Unsupported('complex number')
    return SReal(to_real(a).ge + to_real(b).ge * GE.atom('I'), 'complex')
def complex_names():
    """names of the complex atoms and of their conjugates (the other atoms are real)"""
    return Ctx.cur.memo.get('complex names') if Ctx.cur is not None else None
def conj_ge(g):
    names = complex_names()
    if names is None: raise Unsupported('conjugate of a complex number')
    def bad(f):
        if f[0] == 'rc': return bool(f[2].names() & set(names))
        if f[0] in ('and', 'or'): return any(bad(x) for x in f[1])
        if f[0] in ('not',): return bad(f[1])
        if f[0] == 'all': return bad(f[2])
        return False
    out = []
    for t in g.terms:
        if any(bad(f) for f in t.g): raise Unsupported('conjugate of a value that depends on a comparison of complex numbers')
        at, c = [], t.c
        for a in t.at:
            if a.name == 'I': c = -c
            if a.name in names: at.append(Atom(names[a.name], a.args)); continue
            if a.name in ('inv', 'sqrt'): at.append(Atom(a.name, tuple(conj_ge(x).light() if isinstance(x, GE) else x for x in a.args))); continue
            if any(isinstance(x, GE) and x.names() & set(names) for x in a.args): raise Unsupported('conjugate of %s' % a.name)
            at.append(a)
        out.append(Term(c, t.bv, t.g, at))
    return GE(out)
def _lin_map(name, g):
    if g.isconst: return g if name == 're' else GE0
    return GE.atom(name, g.light())
def joink(a, b):
    for k in ('sollya', 'mpc', 'mpf', 'complex', 'float'):
        if k in (a, b): return k
    return a
def to_real(x, kind=None):
    if isinstance(x, SReal): return x
    if isinstance(x, SInt): return SReal(GE.ofint(x.ip), 'int')
    if isinstance(x, SBool): return SReal(GE1.guard(x.form), 'int')
    if isinstance(x, bool): return SReal(GE.const(int(x)), 'int')
    if isinstance(x, int): return SReal(GE.const(x), 'int')
    if isinstance(x, float): return SReal(GE.of(x), 'float')
    if isinstance(x, Fraction): return SReal(GE.const(x), 'float')
    if isinstance(x, complex) and 'I' in (complex_names() or ()): return SReal(GE.of(x.real) + GE.of(x.imag) * GE.atom('I'), 'complex')
    if isinstance(x, SMat):
        if x.rows == IP1 and x.cols == IP1: return SReal(x.entry(IP0, IP0), x.ek)
    raise Unsupported('not a real: %r' % (x,))
def ge_known(b, rng=(), limit=12):
    """the value with the guards decided by the context"""
    c = Ctx.cur
    b = b.light()
    if c is None or b.isconst or not any(t.g or t.bv for t in b.terms) or len(b.terms) > limit: return b
    gamma = c.all() + list(rng)
    out = []
    for t in b.terms:
        for u in norm_term(t, gamma, c.rules, expand_facts=False):
            out.append(Term(u.c, u.bv, [f for f in u.g if not entails(gamma, f)], u.at) if not u.bv else u)
    return GE(out).light()
def ge_div(a, b):
    b = ge_known(b)
    if b.isconst:
        if b.constval == 0: raise ZeroDivisionError('division by zero')
        return a.scale(1 / b.constval)
    c = Ctx.cur
    if len(b.terms) == 1 and all(x.name in c.rules.nonzero for x in b.terms[0].at) and not b.terms[0].g and not b.terms[0].bv: return a * ge_inv(b)
    if c.entails(f_rc('==', b)): raise ZeroDivisionError('division by zero')
    return a * ge_inv(b)
def ge_inv(b):
    b = b.light()
    if b.isconst: return GE.const(1 / b.constval)
    # inv of a product of atoms (no guards, no sum): product of the inverses; common scalar
    if len(b.terms) == 1 and not b.terms[0].bv and not b.terms[0].g:
        t = b.terms[0]
        r = GE.const(1 / t.c)
        for a in t.at:
            if a.name == 'inv': r = r * a.args[0]
            else: r = r * GE.atom('inv', GE((Term(Fraction(1), (), (), (a,)),)))
        return r
    s = b.terms[0].c
    return GE.atom('inv', b.scale(1 / s).light()).scale(1 / s)
def pow2(g):
    g = g.light()
    if g.isconst and g.constval.denominator == 1:
        return GE.const(Fraction(2) ** int(g.constval))
    k = [t for t in g.terms if not t.bv and not t.g and not t.at]
    if k and len(g.terms) > 1 and k[0].c.denominator == 1:
        return pow2(g - GE.const(k[0].c)).scale(Fraction(2) ** int(k[0].c))
    if len(g.terms) > 1 and Ctx.cur is not None and Ctx.cur.memo.get('real parts'):
        r = GE1
        for t in g.terms: r = r * pow2(GE((t,)))
        return r.light()
    groups = {}
    for t in g.terms:
        if t.bv: return GE.atom('pow2', g)
        groups.setdefault(f_and(*t.g), []).append(Term(t.c, (), (), t.at))
    if T in groups and len(groups) == 1 or len(groups) > 4: return GE.atom('pow2', g)
    r = GE1
    for f, ts in groups.items():
        e = pow2(GE(ts))
        r = r * (e if f == T else GE1 + (e - GE1).guard(f))
    return r.light()
def _rcmp(a, b, op):
    if not isinstance(b, (SReal, SInt, SBool, int, float, Fraction)):
        if op == '==': return False
        if op == '!=': return True
        return NotImplemented
    a = to_real(a); b = to_real(b)
    d = (a.ge - b.ge).light()
    if op == '==': return mk_bool(f_rc('==', d))
    if op == '!=': return mk_bool(f_not(f_rc('==', d)))
    if op == '>=': return mk_bool(f_rc('>=', d))
    if op == '>': return mk_bool(f_rc('>', d))
    if op == '<=': return mk_bool(f_rc('>=', -d))
    return mk_bool(f_rc('>', -d))

# --------------------------------------------------------------------------- matrices
R_, C_, D_ = '$r', '$c', '$d'
DENSE = 64
class Store:
    """contents of a matrix (shared by the matrices that are views of the same data)"""
    __slots__ = ('gen', 'cells', 'version', 'birth', 'shape')
    def __init__(self, gen=None, cells=None):
        self.gen, self.cells, self.version, self.birth, self.shape = gen, cells, 0, stamp(), None
class SMat:
    """matrix (or 1-D array) with symbolic size and entries.  tag: 'matrix' | 'array' | 'mp' """
    __array_priority__ = 1000
    def __init__(self, rows, cols, st, tag='array', ek='float', ndim=2):
        self.rows_, self.cols_, self.st, self.tag, self.ek, self.ndim_ = IP.of(rows), IP.of(cols), st, tag, ek, ndim
        if st.shape is None: st.shape = (self.rows_, self.cols_)
    # -- construction
    @staticmethod
    def gen(rows, cols, fn, tag='array', ek='float', ndim=2):
        """fn(i, j) -> GE"""
        rows = IP.of(rows); cols = IP.of(cols)
        cr = rows if rows.isconst else None
        if rows.isconst and cols.isconst and rows.value * cols.value <= DENSE and rows.value >= 0 and cols.value >= 0:
            cells = {}
            for i in range(rows.value):
                for j in range(cols.value):
                    cells[(i, j)] = GE.of(fn(IP.const(i), IP.const(j))).light()
            return SMat(rows, cols, Store(None, cells), tag, ek, ndim)
        return SMat(rows, cols, Store(GE.of(fn(IP.sym(R_), IP.sym(C_))).light()), tag, ek, ndim)
    @staticmethod
    def atoms(name, rows, cols, tag='array', ek='float', extra=(), ndim=2):
        return SMat.gen(rows, cols, lambda i, j: GE.atom(name, *((i, j) + tuple(extra))), tag, ek, ndim)
    @property
    def rows(self): return self.rows_
    @property
    def cols(self): return self.cols_
    def entry(self, i, j=IP0):
        i = IP.of(i); j = IP.of(j)
        st = self.st
        if st.cells is not None:
            if i.isconst and j.isconst:
                return st.cells.get((i.value, j.value), GE0)
            r = GE0
            for (a, b), v in st.cells.items():
                f = f_and(f_same(i, a), f_same(j, b))
                if f == F or not v.terms: continue
                r = r + v.guard(f)
            return r.light()
        return st.gen.subst({R_: i, C_: j}).light() if not (i == IP.sym(R_) and j == IP.sym(C_)) else st.gen
    def scal(self, i, j=IP0):
        return self.wrap(self.entry(i, j))
    def wrap(self, g):
        if self.ek == 'int':
            g = g.light()
            ip = ge_to_ip(g)
            if ip is not None: return mk_int(ip)
        return SReal(g, self.ek)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def copy(self):
        st = self.st
        return SMat(self.rows_, self.cols_, Store(st.gen, dict(st.cells) if st.cells is not None else None), self.tag, self.ek, self.ndim_)
    def view(self, tag=None, **k):
        return SMat(self.rows_, self.cols_, self.st, tag or self.tag, self.ek, self.ndim_)
    def retag(self, tag):
        m = self.copy(); m.tag = tag
        return m
    # -- mutation
    def _write(self):
        Ctx.cur.touch(self.st)
        self.st.version += 1
    def update(self, cond, fn):
        """entries (i,j) with cond(i,j) become fn(i,j)"""
        self._write()
        st = self.st
        if Ctx.cur.recorders:
            try: w = cond(IP.sym(R_), IP.sym(C_))
            except (Unsupported, AttributeError, ValueError): w = None
            for r in Ctx.cur.recorders: r.wrote(st, w)
        if st.cells is not None:
            new = {}
            sym = False
            for (a, b), v in st.cells.items():
                f = cond(IP.const(a), IP.const(b))
                if f == T: new[(a, b)] = GE.of(fn(IP.const(a), IP.const(b))).light()
                elif f == F: new[(a, b)] = v
                else: new[(a, b)] = ite(f, fn(IP.const(a), IP.const(b)), v).light()
            st.cells = new
        else:
            i, j = IP.sym(R_), IP.sym(C_)
            st.gen = ite(cond(i, j), fn(i, j), st.gen).light()
            if len(st.gen.terms) > 6: st.gen = ge_known(st.gen, [f_ge(i), f_lt(i, self.rows_), f_ge(j), f_lt(j, self.cols_)], 80)
    def snapshot(self): return (self.st.gen, dict(self.st.cells) if self.st.cells is not None else None)
    def __repr__(self):
        return '%s %rx%r %s' % (self.tag, self.rows_, self.cols_, ('{%s}' % self.st.gen) if self.st.gen is not None else self.st.cells)
    def __hash__(self): return id(self)
def ge_to_ip(g):
    """GE made of integer atoms -> IP"""
    r = IP0
    for t in g.terms:
        if t.bv or t.g or t.c.denominator != 1: return None
        p = IP.const(int(t.c))
        for a in t.at:
            if a.name != 'int': return None
            p = p * a.args[0]
        r = r + p
    return r

# --------------------------------------------------------------------------- sequences
class SRange:
    """range(lo, hi, step) with symbolic bounds; step is a non null constant"""
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = IP.of(lo), IP.of(hi), step
    def count(self):
        """number of elements, decided on the path to be >= 0 (SInt or int)"""
        d = (self.hi - self.lo) if self.step > 0 else (self.lo - self.hi)
        if not Ctx.cur.decide(f_ge(d)): return IP0
        s = abs(self.step)
        if s == 1: return d
        return IP.of(int_div(mk_int(d + (s - 1)), s)[0])
    def elem(self, t): return mk_int(self.lo + IP.of(t) * self.step)
    def __len__(self):
        c = forced_const(self.count())
        if c is None: raise Unsupported('len of a symbolic range')
        return c
    def __iter__(self):
        c = forced_const(self.count())
        if c is None: raise Unsupported('native iteration over a symbolic range')
        return iter([self.elem(i) for i in range(c)])
    def __reversed__(self):
        n = self.count()
        return SSeq(n, lambda t: mk_int(self.lo + (n - 1 - IP.of(t)) * self.step))
class SSeq:
    """immutable sequence of symbolic length; fn(IP) -> value"""
    def __init__(self, n, fn): self.n, self.fn = IP.of(n), fn
    def count(self): return self.n
    def elem(self, t): return self.fn(IP.of(t))
    def __iter__(self):
        c = forced_const(self.n)
        if c is None: raise Unsupported('native iteration over a symbolic sequence')
        return iter([self.fn(IP.const(i)) for i in range(c)])
    def __len__(self):
        c = forced_const(self.n)
        if c is None: raise Unsupported('len of a symbolic sequence used natively')
        return c
class SList:
    """list of symbolic length (mutable)"""
    def __init__(self, n, fn): self.st = LStore(IP.of(n), fn)
    @property
    def n(self): return self.st.n
    def count(self): return self.st.n
    def elem(self, t): return self.st.fn(IP.of(t))
    def append(self, v):
        Ctx.cur.touch(self.st)
        n, f = self.st.n, self.st.fn
        self.st.n = n + 1
        def g(i, n=n, f=f, v=v):
            if i == n: return v
            if entails_now(f_lt(i, n)): return f(i)
            if entails_now(f_le(n, i)): return v
            return value_ite(f_same(i, n), v, f(i))
        self.st.fn = g
    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, self.st.n)
            if st != 1: raise Unsupported('stepped slice')
            f = self.st.fn
            return SList(hi - lo, lambda i: f(i + lo))
        i = check_index(k, self.st.n)
        return self.st.fn(i)
    def __setitem__(self, k, v):
        i0 = check_index(k, self.st.n)
        Ctx.cur.touch(self.st)
        f = self.st.fn
        def g(i):
            if i == i0: return v
            return value_ite(f_same(i, i0), v, f(i))
        self.st.fn = g
    def __add__(self, o): return seq_concat(self, o)
    def __radd__(self, o): return seq_concat(o, self)
    def __iter__(self):
        c = forced_const(self.st.n)
        if c is None: raise Unsupported('native iteration over a symbolic list')
        return iter([self.st.fn(IP.const(i)) for i in range(c)])
    def __len__(self):
        c = forced_const(self.st.n)
        if c is None: raise Unsupported('len of a symbolic list used natively')
        return c
    def extend(self, o):
        r = seq_concat(self, o)
        Ctx.cur.touch(self.st)
        self.st.n, self.st.fn = r.st.n, r.st.fn
    def insert(self, k, v):
        if forced_const(IP.of(k)) != 0: raise Unsupported('insert')
        Ctx.cur.touch(self.st)
        f = self.st.fn
        self.st.n = self.st.n + 1
        self.st.fn = lambda i: value_ite(f_eq(i), v, f(i - 1)) if not entails_now(f_ge(i - 1)) else f(i - 1)
    def copy(self): return SList(self.st.n, self.st.fn)
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): raise Unsupported('deepcopy of a symbolic list')
    block = None         # (n0, w, N): after n0 elements, N blocks of w elements
def divmod_ip(e, w):
    """(q, r) with e = q*w + r and 0 <= r < w  (w >= 1 on this path)"""
    e, w = IP.of(e), IP.of(w)
    c = Ctx.cur
    if e.isconst and w.isconst:
        q, r = divmod(e.value, w.value)
        return IP.const(q), IP.const(r)
    if len(w.t) == 1 and w.t[0][1] == 1 and len(w.t[0][0]) == 1:
        s = w.t[0][0][0]
        q = r = IP0
        for m, k in e.t:
            x = IP.const(k)
            if s in m:
                l = list(m); l.remove(s)
                for y in l: x = x * IP.sym(y)
                q = q + x
            else:
                for y in m: x = x * IP.sym(y)
                r = r + x
        if c.entails(f_and(f_ge(r), f_lt(r, w))): return q, r
        if c.entails(f_and(f_ge(r + w), f_lt(r, 0))): return q - 1, r + w
        if c.entails(f_and(f_le(w, r), f_lt(r, w * 2))): return q + 1, r - w
    if w.isconst:
        q, r = int_div(mk_int(e), w.value)
        return IP.of(q), IP.of(r)
    key = ('idiv', e, w)
    if key not in c.memo:
        q = IP.sym(fresh('q')); r = IP.sym(fresh('m'))
        c.assume(f_same(e, q * w + r)); c.assume(f_ge(r)); c.assume(f_lt(r, w))
        if c.entails(f_ge(e)): c.assume(f_ge(q))
        c.memo[key] = (q, r)
    return c.memo[key]
class LStore:
    __slots__ = ('n', 'fn', 'birth')
    def __init__(self, n, fn): self.n, self.fn, self.birth = n, fn, stamp()
def entails_now(f): return Ctx.cur.entails(f)
def seq_of(x):
    if isinstance(x, SList): return x.count(), lambda i, f=x.st.fn: f(IP.of(i))          # as it is now
    if isinstance(x, (SSeq, SRange)): return x.count(), x.elem
    if isinstance(x, (list, tuple)):
        def f(i, x=tuple(x)):
            if i.isconst: return x[i.value]
            r = None
            for k, v in enumerate(x): r = v if r is None else value_ite(f_same(i, k), v, r)
            return r
        return IP.const(len(x)), f
    if isinstance(x, SMat):
        return mat_seq(x)
    raise Unsupported('not a sequence: %r' % (x,))
def mat_seq(x):
    if x.ndim_ == 1: return x.rows_, lambda i: x.scal(i)
    if x.tag == 'mp':
        if x.cols_ == IP1: return x.rows_, lambda i: x.scal(i)
        if x.rows_ == IP1: return x.cols_, lambda i: x.scal(IP0, i)
        raise Unsupported('iteration over a mpmath matrix')
    return x.rows_, lambda i: x[mk_int(i)]
def seq_concat(a, b):
    n, f = seq_of(a); m, g = seq_of(b)
    def h(i):
        if entails_now(f_lt(i, n)): return f(i)
        if entails_now(f_le(n, i)): return g(i - n)
        return value_ite(f_lt(i, n), f(i), g(i - n))
    return SList(n + m, h)
def seq_repeat(lst, k):
    k = IP.of(k)
    if not Ctx.cur.decide(f_ge(k)): return []
    if len(lst) == 1: return SList(k, lambda i: lst[0])
    raise Unsupported('repetition of a list a symbolic number of times')
def value_ite(f, a, b):
    if f == T: return a
    if f == F: return b
    if isinstance(a, (SReal, float, Fraction)) or isinstance(b, (SReal, float, Fraction)):
        x, y = to_real(a), to_real(b)
        return SReal(ite(f, x.ge, y.ge).light(), joink(x.kind, y.kind))
    if is_int(a) and is_int(b):
        if IP.of(a) == IP.of(b): return a
        x = IP.sym(fresh('m'))
        c = Ctx.cur
        c.assume(f_or(f_and(f, f_same(x, a)), f_and(f_not(f), f_same(x, b))))
        return mk_int(x)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(value_ite(f, x, y) for x, y in zip(a, b))
    if isinstance(a, SMat) and isinstance(b, SMat) and a.rows_ == b.rows_ and a.cols_ == b.cols_:
        return SMat.gen(a.rows_, a.cols_, lambda i, j: ite(f, a.entry(i, j), b.entry(i, j)), a.tag, a.ek, a.ndim_)
    if a is b: return a
    if type(a) is type(b) and isinstance(a, (str, bool, type(None))) and a == b: return a
    if Ctx.cur.decide(f): return a
    return b
def value_subst(v, d):
    """substitute integer symbols inside a value"""
    if isinstance(v, SInt): return mk_int(v.ip.subst(d))
    if isinstance(v, SReal): return SReal(v.ge.subst(d), v.kind)
    if isinstance(v, SBool): return mk_bool(f_subst(v.form, d))
    if isinstance(v, tuple): return tuple(value_subst(x, d) for x in v)
    if type(v) is list: return [value_subst(x, d) for x in v]
    if isinstance(v, str): return text_subst(v, d)
    if type(v).__module__.startswith('fixif') and hasattr(v, '__dict__'):
        new = {k: value_subst(x, d) for k, x in v.__dict__.items()}
        if all(new[k] is x for k, x in v.__dict__.items()): return v
        r = object.__new__(type(v))
        r.__dict__.update(new)
        r.__dict__['_vx_copy'] = True         # an element of a symbolic list: it is not to be changed in place
        return r
    if isinstance(v, SMat):
        st = v.st
        if st.gen is not None and any({R_, C_} & IP.of(x).syms() for x in d.values()): raise Unsupported('capture of an index')
        s2 = Store(st.gen.subst(d).light() if st.gen is not None else None, {k: x.subst(d).light() for k, x in st.cells.items()} if st.cells is not None else None)
        return SMat(v.rows_.subst(d), v.cols_.subst(d), s2, v.tag, v.ek, v.ndim_)
    if isinstance(v, (SList,)):
        f = v.st.fn
        def g(i):
            i = IP.of(i)
            if i.syms() & set(d):
                z = fresh('z')      # the index must not be captured by the substitution
                return value_subst(value_subst(f(IP.sym(z)), d), {z: i})
            return value_subst(f(i), d)
        r = SList(v.st.n.subst(d), g)
        if v.block: r.block = tuple(x.subst(d) for x in v.block)
        return r
    return v

# --------------------------------------------------------------------------- indices
def check_index(k, n, what='index'):
    """numpy/python index semantics; the path forks when the index may be out of bounds (IndexError)"""
    c = Ctx.cur
    if isinstance(k, SReal): raise IndexError('real index')
    i = IP.of(k); n = IP.of(n)
    if i.isconst and n.isconst:
        v, m = i.value, n.value
        if v < 0: v += m
        if not 0 <= v < m: raise IndexError('%s out of range' % what)
        return IP.const(v)
    if i.isconst and i.value < 0:
        i2 = i + n
        if not c.decide(f_ge(i2)): raise IndexError('%s out of range' % what)
        return i2
    inside = f_and(f_ge(i), f_lt(i, n))
    if c.decide(inside): return i
    neg = f_and(f_lt(i, 0), f_ge(i + n))
    if c.decide(neg): return i + n
    raise IndexError('%s out of range' % what)
def slice_bounds(s, n):
    """(lo, hi, step) as IP with 0 <= lo <= hi <= n (step 1); other steps only constant"""
    c = Ctx.cur
    step = 1 if s.step is None else s.step
    if not isinstance(step, int): step = forced_const(IP.of(step))
    if step is None or step == 0: raise Unsupported('slice step')
    n = IP.of(n)
    def clamp(e):
        e = IP.of(e)
        if e.isconst and n.isconst:
            v = e.value
            if v < 0: v += n.value
            return IP.const(min(max(v, 0), n.value))
        if not c.decide(f_ge(e)):
            e = e + n
            if not c.decide(f_ge(e)): return IP0
        if c.decide(f_le(e, n)): return e
        return n
    if step < 0:
        if s.start is None and s.stop is None: return IP0, n, step
        raise Unsupported('negative slice step with bounds')
    lo = IP0 if s.start is None else clamp(s.start)
    hi = n if s.stop is None else clamp(s.stop)
    if not c.decide(f_le(lo, hi)): hi = lo
    return lo, hi, step
