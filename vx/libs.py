"""Contracts of the libraries (numpy, mpmath, scipy, ...): trusted semantics used when the real code of /repo is verified."""
import types, re, builtins, math as _math
from fractions import Fraction
from vx.sym import *
from vx.core import *
from vx import sym, mat
from vx.mat import coerce, matprod, bool_forall, SBMat, dbl, elementwise, scalmap, S3

class Missing:
    """a library function without contract: calling it is out of reach"""
    def __init__(self, name): self.__dict__['_n'] = name
    def __call__(self, *a, **k): raise Unsupported('no contract for %s' % self._n)
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Missing(self._n + '.' + a)
    def __setattr__(self, a, v): pass
    def __mro_entries__(self, bases): return (object,)
    def __iter__(self): raise Unsupported('no contract for %s' % self._n)
class Mod(types.ModuleType):
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return Missing(self.__name__ + '.' + a)

# --------------------------------------------------------------------------- types
class _TMeta(type):
    def __instancecheck__(cls, x): return cls.check(x)
    def __call__(cls, *a, **k): return cls.make(*a, **k)
    def __subclasscheck__(cls, c): return c is cls
class np_ndarray(metaclass=_TMeta):
    @staticmethod
    def check(x): return isinstance(x, (SMat, SBMat)) and getattr(x, 'tag', 'array') in ('matrix', 'array')
    @staticmethod
    def make(*a, **k): raise Unsupported('ndarray()')
class np_matrix(metaclass=_TMeta):
    @staticmethod
    def check(x): return isinstance(x, SMat) and x.tag == 'matrix'
    @staticmethod
    def make(x, *a, **k):
        m = np_array(x, **{q: v for q, v in k.items() if q == 'dtype'})
        if isinstance(m, SReal): return SMat.gen(1, 1, lambda i, j: m.ge, 'matrix', m.kind)
        if m.ndim_ == 1: return SMat.gen(1, m.rows_, lambda i, j: m.entry(j), 'matrix', m.ek)
        if m is x: m = m.copy()
        return m.retag('matrix')
    @staticmethod
    def all(m, *a): return m.all(*a)
class mp_matrix(metaclass=_TMeta):
    @staticmethod
    def check(x): return isinstance(x, SMat) and x.tag == 'mp'
    @staticmethod
    def make(*a, **k):
        if len(a) == 2: return mp_zeros(*a)
        x = a[0]
        if is_int(x): return mp_zeros(x, x)
        if isinstance(x, SMat):
            m = x
            if x.tag != 'mp':
                if x.ndim_ == 1: m = SMat.gen(x.rows_, 1, lambda i, j: x.entry(i), 'mp', 'mpf')
                else: m = x.retag('mp')
            else: m = x.copy()
            m.ek = 'mpc' if m.ek in ('complex', 'mpc') else 'mpf'
            return m
        if isinstance(x, (list, tuple, SList, SSeq)):
            m = np_array(x)
            if m.ndim_ == 1: m = SMat.gen(m.rows_, 1, lambda i, j: m0.entry(i), 'mp', 'mpf') if (m0 := m) is not None else None
            else: m = m.retag('mp')
            m.ek = 'mpf'
            return m
        raise TypeError('could not interpret given arguments')
class mpf_t(metaclass=_TMeta):
    @staticmethod
    def check(x): return isinstance(x, SReal) and x.kind == 'mpf'
    @staticmethod
    def make(x=0, *a, **k):
        if isinstance(x, SMat): x = to_real(x)
        if isinstance(x, SReal):
            if x.kind in ('complex', 'mpc'): raise TypeError('cannot create mpf from complex')
            if x.kind == 'mpf': return SReal(rnd(x.ge), 'mpf')
            return SReal(x.ge, 'mpf')         # doubles and integers of at most 53 bits: exact (assumption prec >= 53)
        if isinstance(x, (SInt, int)): return SReal(GE.of(x), 'mpf')
        if isinstance(x, (float, Fraction)): return SReal(GE.of(x), 'mpf')
        if isinstance(x, tuple) and len(x) == 2: return SReal(rnd(GE.of(to_real(x[0])) * pow2(to_real(x[1]).ge)), 'mpf')
        if isinstance(x, str): return SReal(GE.of(Fraction(x)), 'mpf')
        raise Unsupported('mpf(%r)' % (x,))
class mpc_t(metaclass=_TMeta):
    @staticmethod
    def check(x): return isinstance(x, SReal) and x.kind == 'mpc'
    @staticmethod
    def make(*a, **k): raise Unsupported('mpc()')
class f64_t(metaclass=_TMeta):
    @staticmethod
    def check(x): return isinstance(x, float) or (isinstance(x, SReal) and x.kind == 'float')
    @staticmethod
    def make(x=0.0): return to_real(x)

# --------------------------------------------------------------------------- numpy
def np_array(x, dtype=None, copy=True, **k):
    if isinstance(x, SMat):
        r = x.copy()
        if r.tag == 'matrix': r.tag = 'array'
        if r.ek == 'int' and getattr(dtype, '__name__', '') in ('float', 'sfloat', 'f64_t'): r.ek = 'float'
        r.owned = True
        return r
    if isinstance(x, SBMat): return x
    if isinstance(x, (SReal, SInt, SBool, int, float, Fraction)): return to_real(x)
    if isinstance(x, mat._Flat): return x.m.copy()
    if isinstance(x, str): raise Unsupported('array of a string')
    if isinstance(x, (range, SRange, SList, SSeq)) and forced_const(IP.const(len(x)) if isinstance(x, range) else x.count()) is None:
        n, f = seq_of(x)
        k_ = fresh('a')
        from vx import loops
        e = loops.generic_elem(f, k_, n)
        if isinstance(e, (SReal, SInt, int, float, Fraction, SBool)):
            r = to_real(e)
            return SMat.gen(n, 1, lambda i, j: r.ge.subst({k_: i}), 'array', r.kind, 1)
        if isinstance(e, (SList, list, tuple, SMat)):
            row = np_array(e)
            if row.ndim_ == 1:
                z_ = fresh('z')
                ez = row.entry(IP.sym(z_))
                def g(i, j):
                    return ez.subst({k_: i, z_: j}).light()
                return SMat.gen(n, row.rows_, g, 'array', row.ek, 2)
            if isinstance(e, SMat) and e.tag == 'matrix' and e.rows_ == IP1:
                z_ = fresh('z')
                ez = row.entry(IP0, IP.sym(z_))
                return SMat.gen(n, row.cols_, lambda i, j: ez.subst({k_: i, z_: j}).light(), 'array', row.ek, 2)
        raise Unsupported('array of a symbolic list')
    x = list(x)
    if not x: return SMat.gen(0, 1, lambda i, j: GE0, 'array', 'float', 1)
    if all(isinstance(e, (SReal, SInt, SBool, int, float, Fraction)) or (isinstance(e, SMat) and False) for e in x):
        rs = [to_real(e) for e in x]
        kd = rs[0].kind
        for r in rs: kd = joink(kd, r.kind)
        return SMat.gen(len(x), 1, lambda i, j: pick([r.ge for r in rs], i), 'array', kd, 1)
    rows = [np_array(e) for e in x]
    if all(isinstance(r, SMat) and r.ndim_ == 1 for r in rows):
        c = Ctx.cur
        for r in rows[1:]:
            if not c.decide(f_same(r.rows_, rows[0].rows_)): raise ValueError('inhomogeneous shape')
        kd = rows[0].ek
        for r in rows: kd = joink(kd, r.ek)
        return SMat.gen(len(x), rows[0].rows_, lambda i, j: pick([r.entry(j) for r in rows], i), 'array', kd, 2)
    if all(isinstance(r, SMat) and r.ndim_ == 2 and r.rows_ == IP1 for r in rows):
        kd = rows[0].ek
        for r in rows: kd = joink(kd, r.ek)
        return SMat.gen(len(x), rows[0].cols_, lambda i, j: pick([r.entry(0, j) for r in rows], i), 'array', kd, 2)
    raise Unsupported('array of %r' % (x,))
class Pointer:
    """pointer on the data of an array (ctypes)"""
    def __init__(self, m): self.m = m
class _Ctypes:
    def __init__(self, m): self.m = m
    def data_as(self, t):
        if not getattr(self.m, 'owned', False): raise Unsupported('pointer on a matrix that may be a view')
        if self.m.ek != 'float': raise Unsupported('pointer to double on a matrix of %s' % self.m.ek)
        return Pointer(self.m)
SMat.ctypes = property(_Ctypes)
def pick(gs, i):
    if i.isconst: return gs[i.value]
    r = GE0
    for k, g in enumerate(gs): r = r + g.guard(f_same(i, k))
    return r
def _shape_arg(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): a = tuple(a[0])
    a = list(a)
    c = Ctx.cur
    for x in a:
        if isinstance(x, (SReal, float)): raise TypeError("'float' object cannot be interpreted as an integer")
        if not c.decide(f_ge(IP.of(x))): raise ValueError('negative dimensions are not allowed')
    return a
def _filled(v):
    def f(shape, dtype=None, *a, **k):
        s = _shape_arg((shape,))
        ek = {'sint': 'int', 'int': 'int', 'complex': 'complex', 'scomplex': 'complex'}.get(getattr(dtype, '__name__', ''), 'float')
        if dtype is object: ek = 'obj'
        if len(s) == 3: return S3([IP.of(x) for x in s], Store(GE.const(v)), ek)
        r = SMat.gen(s[0], 1, lambda i, j: GE.const(v), 'array', ek, 1) if len(s) == 1 else SMat.gen(s[0], s[1], lambda i, j: GE.const(v), 'array', ek)
        r.owned = True
        return r
    return f
np_zeros = _filled(0)
np_ones = _filled(1)
def np_eye(n, m=None, *a, **k):
    m = n if m is None else m
    return SMat.gen(n, m, lambda i, j: GE1.guard(f_same(i, j)), 'array')
_cnt_empty = [0]
def np_empty(shape, dtype=None, **k):
    s = _shape_arg((shape,))
    nm = fresh('empty')
    if len(s) == 1: return SMat.gen(s[0], 1, lambda i, j: GE.atom(nm, i), 'array', 'float', 1)
    return SMat.gen(s[0], s[1], lambda i, j: GE.atom(nm, i, j), 'array')
def _as2(x, col=False):
    """2-D view of an operand of a stacking function"""
    m = coerce(x)
    if isinstance(m, SReal): return SMat.gen(1, 1, lambda i, j: m.ge, 'array', m.kind)
    if m is None: raise Unsupported('stack of %r' % (x,))
    if m.ndim_ == 1:
        if col: return SMat.gen(m.rows_, 1, lambda i, j: m.entry(i), 'array', m.ek)
        return SMat.gen(1, m.rows_, lambda i, j: m.entry(j), 'array', m.ek)
    return m
def hcat(ms, tag=None, ndim=2):
    c = Ctx.cur
    ms = list(ms)
    for m in ms[1:]:
        if not c.decide(f_same(m.rows_, ms[0].rows_)): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    off = [IP0]
    for m in ms: off.append(off[-1] + m.cols_)
    kd = ms[0].ek
    for m in ms: kd = joink(kd, m.ek)
    tag = tag or ('matrix' if any(m.tag == 'matrix' for m in ms) else 'array')
    snaps = [m.copy() for m in ms]
    def f(i, j):
        r = GE0
        for k, m in enumerate(snaps):
            cond = f_and(T if k == 0 else f_le(off[k], j), T if k == len(snaps) - 1 else f_lt(j, off[k + 1]))
            if m.rows_ == IP0 or m.cols_ == IP0 or cond == F: continue
            r = r + m.entry(i, j - off[k]).guard(cond)
        return r
    return SMat.gen(ms[0].rows_, off[-1], f, tag, kd, 2)
def vcat(ms, tag=None):
    return mat._transpose(hcat([mat._transpose(m) for m in ms], tag or ('matrix' if any(m.tag == 'matrix' for m in ms) else 'array')))
def cat1(ms):
    off = [IP0]
    for m in ms: off.append(off[-1] + m.rows_)
    kd = ms[0].ek
    for m in ms: kd = joink(kd, m.ek)
    snaps = [m.copy() for m in ms]
    def f(i, j):
        r = GE0
        for k, m in enumerate(snaps):
            cond = f_and(T if k == 0 else f_le(off[k], i), T if k == len(snaps) - 1 else f_lt(i, off[k + 1]))
            if cond == F: continue
            r = r + m.entry(i - off[k]).guard(cond)
        return r
    return SMat.gen(off[-1], 1, f, 'array', kd, 1)
class _RC:
    def __init__(self, axis): self.axis = axis
    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        ms = []
        axis = self.axis
        if isinstance(k[0], str):
            if k[0] not in ('0', '1') or self.axis != 0: raise Unsupported('r_[%r]' % k[0])
            return np_concatenate(k[1:], int(k[0]))
        for x in k:
            if isinstance(x, slice):
                a = builtins.range
                n = forced_const(IP.of(x.stop if x.stop is not None else 0)); lo = forced_const(IP.of(x.start or 0))
                if n is None or lo is None:
                    lo_, hi_ = IP.of(x.start or 0), IP.of(x.stop)
                    ms.append(SMat.gen(hi_ - lo_, 1, lambda i, j: GE.ofint(i + lo_), 'array', 'int', 1)); continue
                ms.append(np_array(list(builtins.range(lo, n, x.step or 1))))
            else: ms.append(coerce(x))
        ms = [SMat.gen(1, 1, (lambda m: lambda i, j: m.ge)(m), 'array', m.kind, 1) if isinstance(m, SReal) else m for m in ms]
        if any(m is None for m in ms): raise Unsupported('r_/c_')
        if all(m.ndim_ == 1 for m in ms):
            if self.axis == 0: return cat1(ms)
            return hcat([_as2(m, True) for m in ms])
        if self.axis == 0:
            for m in ms:
                if m.ndim_ == 1: raise ValueError('all the input arrays must have same number of dimensions')
            return vcat(ms)
        return hcat([_as2(m, True) for m in ms])
def np_concatenate(xs, axis=0, **k):
    ms = [coerce(x) for x in xs]
    if any(isinstance(m, SReal) for m in ms): raise ValueError('zero-dimensional arrays cannot be concatenated')
    if all(m.ndim_ == 1 for m in ms):
        return cat1(ms)
    if any(m.ndim_ == 1 for m in ms): raise ValueError('all the input arrays must have same number of dimensions')
    return vcat(ms) if axis in (0, -2) else hcat(ms)
def np_hstack(xs, **k):
    ms = [coerce(x) for x in xs]
    ms = [SMat.gen(1, 1, (lambda m: lambda i, j: m.ge)(m), 'array', m.kind, 1) if isinstance(m, SReal) else m for m in ms]
    if all(m.ndim_ == 1 for m in ms): return cat1(ms)
    return hcat(ms)
def np_vstack(xs, **k): return vcat([_as2(x) for x in xs])
def np_bmat(rows, *a, **k):
    if isinstance(rows, SMat): return np_matrix(rows)
    if isinstance(rows, str): raise Unsupported('bmat of a string')
    if all(isinstance(r, (list, tuple)) for r in rows):
        return vcat([hcat([_as2(x) for x in r]) for r in rows], 'matrix')
    return hcat([_as2(x) for x in rows], 'matrix')
def np_delete(x, idx, axis=None):
    m = coerce(x)
    if isinstance(idx, slice): raise Unsupported('delete of a slice')
    if isinstance(idx, (list, tuple)):
        # several places, all of the matrix as given: from the last one to the first one
        dim = m.rows_ if m.ndim_ == 1 or axis == 0 else m.cols_
        ks = [check_index(k, dim) for k in idx]
        if not all(k.isconst for k in ks): raise Unsupported('delete at symbolic places')
        for k in sorted(set(k.value for k in ks), reverse=True): m = np_delete(m, k, axis)
        return m if ks else m.copy()
    if m.ndim_ == 1:
        k = check_index(idx, m.rows_)
        return SMat.gen(m.rows_ - 1, 1, lambda i, j: ite(f_lt(i, k), m.entry(i), m.entry(i + 1)), m.tag, m.ek, 1)
    if axis is None: raise Unsupported('delete without axis')
    m = m.copy()
    if axis == 0:
        k = check_index(idx, m.rows_)
        return SMat.gen(m.rows_ - 1, m.cols_, lambda i, j: ite(f_lt(i, k), m.entry(i, j), m.entry(i + 1, j)), m.tag, m.ek)
    k = check_index(idx, m.cols_)
    return SMat.gen(m.rows_, m.cols_ - 1, lambda i, j: ite(f_lt(j, k), m.entry(i, j), m.entry(i, j + 1)), m.tag, m.ek)
def np_transpose(x, *a):
    return mat._transpose(coerce(x))
def np_tril(x, k=0):
    m = coerce(x)
    return SMat.gen(m.rows_, m.cols_, lambda i, j: m.entry(i, j).guard(f_le(j, i + k)), m.tag, m.ek)
def np_triu(x, k=0):
    m = coerce(x)
    return SMat.gen(m.rows_, m.cols_, lambda i, j: m.entry(i, j).guard(f_le(i + k, j)), m.tag, m.ek)
def np_all(x, *a, **k):
    if isinstance(x, (SBMat, SMat)): return x.all()
    if isinstance(x, (bool, SBool)): return x
    from vx.interp import sall
    return sall(x)
def np_any(x, *a, **k):
    if isinstance(x, (SBMat, SMat)): return x.any()
    if isinstance(x, (bool, SBool)): return x
    from vx.interp import sany
    return sany(x)
class Count(SReal):
    """a number of entries that are not null; it is compared with zero by looking at all the entries"""
    def _null(self):
        m = self.of
        return bool(mat.bool_forall(m.rows_, m.cols_, lambda i, j: f_rc('==', m.entry(i, j))))
    def __bool__(self): return not self._null()
    def __eq__(self, o): return self._null() if isinstance(o, int) and o == 0 else SReal.__eq__(self, o)
    def __ne__(self, o): return not self._null() if isinstance(o, int) and o == 0 else SReal.__ne__(self, o)
    def __gt__(self, o): return not self._null() if isinstance(o, int) and o == 0 else SReal.__gt__(self, o)
    def __le__(self, o): return self._null() if isinstance(o, int) and o == 0 else SReal.__le__(self, o)
    def __ge__(self, o): return not self._null() if isinstance(o, int) and o == 1 else SReal.__ge__(self, o)
    def __lt__(self, o): return self._null() if isinstance(o, int) and o == 1 else SReal.__lt__(self, o)
    def __hash__(self): return SReal.__hash__(self)
def np_count_nonzero(x, **k):
    if k: raise Unsupported('count_nonzero with an axis')
    m = coerce(x) if not isinstance(x, SBMat) else x.tomat()
    if m.rows_.isconst and m.cols_.isconst:
        g = sum((GE1.guard(f_not(f_rc('==', m.entry(i, j)))) for i in range(m.rows_.value) for j in range(m.cols_.value)), GE0)
    else: g = GE1.guard(f_not(f_rc('==', m.entry('q?', 'p?')))).sum('p?', 0, m.cols_).sum('q?', 0, m.rows_)
    r = Count(g, 'int')
    r.of = m.copy()
    return r
def np_matrix_rank(x, *a, **k):
    """an integer between 0 and the sizes (nothing more is known)"""
    m = coerce(x)
    r = IP.sym(fresh('rank'))
    for f in (f_ge(r), f_le(r, m.rows_), f_le(r, m.cols_)): Ctx.cur.assume(f)
    return mk_int(r)
def np_diag(x, k=0):
    m = coerce(x)
    if m.ndim_ == 1 :
        if k: raise Unsupported('diag k')
        return SMat.gen(m.rows_, m.rows_, lambda i, j: m.entry(i).guard(f_same(i, j)), 'array', m.ek)
    if k: raise Unsupported('diag k')
    c = Ctx.cur
    n = m.rows_ if c.decide(f_le(m.rows_, m.cols_)) else m.cols_
    r = SMat.gen(n, 1, lambda i, j: m.entry(i, i), 'array', m.ek, 1)
    return np_matrix(r) if m.tag == 'matrix' else r
def np_diagflat(x, k=0):
    m0 = coerce(x)
    v = mat._ravel(m0) if isinstance(m0, SMat) else SMat.gen(1, 1, lambda i, j: m0.ge, 'array', m0.kind, 1)
    n = v.rows_ + abs(k)
    tag = 'matrix' if isinstance(m0, SMat) and m0.tag == 'matrix' else 'array'
    v = v.copy()
    if k >= 0: return SMat.gen(n, n, lambda i, j: v.entry(i).guard(f_same(j, i + k)), tag, v.ek)
    return SMat.gen(n, n, lambda i, j: v.entry(j).guard(f_same(i, j - k)), tag, v.ek)
def np_fliplr(x):
    m = coerce(x).copy(); n = m.cols_
    return SMat.gen(m.rows_, n, lambda i, j: m.entry(i, n - 1 - j), m.tag, m.ek)
def np_flipud(x):
    m = coerce(x).copy(); n = m.rows_
    if m.ndim_ == 1: return SMat.gen(n, 1, lambda i, j: m.entry(n - 1 - i), m.tag, m.ek, 1)
    return SMat.gen(n, m.cols_, lambda i, j: m.entry(n - 1 - i, j), m.tag, m.ek)
def np_rot90(x, k=1, *a):
    m = coerce(x).copy()
    for _ in range(k % 4):
        o = m; n = o.cols_
        m = SMat.gen(o.cols_, o.rows_, (lambda o, n: lambda i, j: o.entry(j, n - 1 - i))(o, n), o.tag, o.ek)
    return m
def np_atleast_2d(x):
    m = coerce(x)
    return _as2(m)
def np_kron(a, b):
    A, B = coerce(a), coerce(b)
    A, B = _as2(A), _as2(B)
    tag = 'matrix' if 'matrix' in (A.tag, B.tag) else 'array'
    if B.rows_.isconst and B.cols_.isconst:
        br, bc = B.rows_.value, B.cols_.value
        if br == 1 and bc == 1: return SMat.gen(A.rows_, A.cols_, lambda i, j: A.entry(i, j) * B.entry(0, 0), tag, joink(A.ek, B.ek))
    if A.rows_ == IP1 and A.cols_ == IP1:
        return SMat.gen(B.rows_, B.cols_, lambda i, j: A.entry(0, 0) * B.entry(i, j), tag, joink(A.ek, B.ek))
    if all(x.isconst for x in (A.rows_, A.cols_, B.rows_, B.cols_)):
        br, bc = B.rows_.value, B.cols_.value
        return SMat.gen(A.rows_ * br, A.cols_ * bc, lambda i, j: A.entry(IP.const(i.value // br), IP.const(j.value // bc)) * B.entry(IP.const(i.value % br), IP.const(j.value % bc)), tag, joink(A.ek, B.ek))
    if A.cols_ == IP1 and B.rows_ == IP1:    # column (x) row = outer product
        return SMat.gen(A.rows_, B.cols_, lambda i, j: A.entry(i, 0) * B.entry(0, j), tag, joink(A.ek, B.ek))
    if A.rows_ == IP1 and B.cols_ == IP1:
        return SMat.gen(B.rows_, A.cols_, lambda i, j: A.entry(0, j) * B.entry(i, 0), tag, joink(A.ek, B.ek))
    raise Unsupported('kron of symbolic sizes')
def polyconv(a, b):
    """full convolution of 1-D sequences"""
    A, B = _vec(a), _vec(b)
    n, m = A.rows_, B.rows_
    A = A.copy(); B = B.copy()
    def f(i, j):
        if n.isconst and m.isconst and i.isconst:
            r = GE0
            for k in range(n.value):
                if 0 <= i.value - k < m.value: r = r + A.entry(k) * B.entry(i.value - k)
            return r
        q = IP.sym('q?')
        g = (A.entry(q) * B.entry(i - q)).guard(f_and(f_le(0, i - q), f_lt(i - q, m)))
        return g.sum('q?', 0, n)
    return SMat.gen(n + m - 1, 1, f, 'array', joink(A.ek, B.ek), 1)
def _vec(x):
    m = coerce(x)
    if isinstance(m, SReal): return SMat.gen(1, 1, lambda i, j: m.ge, 'array', m.kind, 1)
    return mat._ravel(m)
def np_convolve(a, b, mode='full'):
    if mode != 'full': raise Unsupported('convolve mode')
    A, B = coerce(a), coerce(b)
    for X in (A, B):
        if isinstance(X, SMat) and X.ndim_ == 2: raise ValueError('object too deep for desired array')
    return polyconv(a, b)
def _ufunc(fn, name):
    def f(x, *a, **k):
        if isinstance(x, SMat): return SMat.gen(x.rows_, x.cols_, lambda i, j: GE.of(fn(SReal(x.entry(i, j), x.ek))), x.tag, x.ek, x.ndim_)
        if isinstance(x, (list, tuple, SList)):
            y = np_array(x)
            return f(y)
        if isinstance(x, (int, float)) and not isinstance(x, bool) and name in _native and not (name == 'sqrt' and Ctx.cur is not None and Ctx.cur.memo.get('exact roots')): return _native[name](x)
        return fn(to_real(x))
    f.__name__ = name
    return f
_native = {'sqrt': lambda x: _math.sqrt(x) if x >= 0 else float('nan'), 'log2': lambda x: _math.log2(x) if x > 0 else float('-inf'), 'log10': lambda x: _math.log10(x), 'cos': _math.cos, 'sin': _math.sin, 'floor': lambda x: float(_math.floor(x)), 'ceil': lambda x: float(_math.ceil(x)), 'exp': _math.exp}
def _op(name):
    def f(x):
        g = x.ge.light()
        if g.isconst and g.constval in (0,) and name == 'sqrt': return SReal(GE0)
        if g.isconst and g.constval == 1 and name == 'sqrt': return SReal(GE1)
        return SReal(GE.atom(name, g), 'float')
    return f
def math_log(x, base=None):
    if isinstance(x, (int, float)) and not isinstance(x, bool): return _math.log(x) if base is None else _math.log(x, base)
    if base != 2: raise Unsupported('log')
    return log2(x)
def mp_log(x, base=None):
    if base is None or to_real(base).ge != GE.const(2): raise Unsupported('mpmath.log')
    Ctx.cur.memo.setdefault('log precision', []).append(Ctx.cur.memo.get('mp.prec'))
    return SReal(to_real(log2(x)).ge, 'mpf')
def log2(x):
    """real base 2 logarithm"""
    g = to_real(x).ge.light()
    c = Ctx.cur
    if not c.decide(f_rc('>', g)): raise ValueError('math domain error')
    if g.isconst and g.constval > 0:
        k = 0
        while g.constval > Fraction(2) ** k: k += 1
        while g.constval < Fraction(2) ** k: k -= 1
        if g.constval == Fraction(2) ** k: return SReal(GE.const(k), 'float')
    if len(g.terms) == 1 and g.terms[0].c == 1 and not g.terms[0].bv and not g.terms[0].g and len(g.terms[0].at) == 1 and g.terms[0].at[0].name == 'pow2': return SReal(GE.of(g.terms[0].at[0].args[0]), 'float')
    return SReal(GE.atom('log2', g), 'float')
def np_abs(x):
    if isinstance(x, SMat):
        def f(i, j):
            e = x.entry(i, j)
            return ite(f_rc('>=', e), e, -e)
        return SMat.gen(x.rows_, x.cols_, f, x.tag, x.ek, x.ndim_)
    if isinstance(x, SReal): return SReal(ite(f_rc('>=', x.ge), x.ge, -x.ge), x.kind)
    return abs(x)
def np_multiply(a, b):
    A, B = coerce(a), coerce(b)
    if isinstance(A, SReal) or isinstance(B, SReal):
        if isinstance(A, SReal) and isinstance(B, SReal): return A * B
        M, s = (A, B) if isinstance(A, SMat) else (B, A)
        return scalmap(M, lambda x: x * s.ge, joink(M.ek, s.kind))
    return elementwise(A, B, lambda x, y: x * y)
def np_dot(a, b):
    A, B = coerce(a), coerce(b)
    if isinstance(A, SMat) and isinstance(B, SMat): return matprod(A, B)
    return np_multiply(A, B)
def np_prod(x, *a):
    if isinstance(x, SMat):
        v = mat._ravel(x); n = forced_const(v.rows_)
        if n is None: return _prod_symbolic(v, x.ek)
        r = GE1
        for i in range(n): r = r * v.entry(i)
        return SReal(r, x.ek)
    r = SReal(GE1, 'int')
    for e in x: r = r * e
    return r
def np_array_equal(a, b):
    A, B = coerce(a), coerce(b)
    if isinstance(A, SReal) or isinstance(B, SReal): return A == B
    if A.ndim_ != B.ndim_: return False
    c = Ctx.cur
    if not (c.decide(f_same(A.rows_, B.rows_)) and c.decide(f_same(A.cols_, B.cols_))): return False
    return bool_forall(A.rows_, A.cols_, lambda i, j: f_rc('==', A.entry(i, j) - B.entry(i, j)))
def np_ndenumerate(x):
    r, c_ = forced_const(x.rows_), forced_const(x.cols_)
    if r is None or c_ is None: raise Unsupported('ndenumerate of a symbolic size')
    if x.ndim_ == 1: return iter([((i,), x.scal(i)) for i in range(r)])
    return iter([((i, j), x.scal(i, j)) for i in range(r) for j in range(c_)])
def np_nditer(x, **k):
    if isinstance(x, SMat) and (forced_const(x.rows_) is None or forced_const(x.cols_) is None) and (x.ndim_ == 1 or forced_const(x.rows_) == 1 or forced_const(x.cols_) == 1):
        if x.ndim_ == 1 or forced_const(x.cols_) == 1: return SList(mk_int(x.rows_), lambda i: x.scal(i, 0))
        return SList(mk_int(x.cols_), lambda i: x.scal(0, i))
    return iter([v for _, v in np_ndenumerate(x)])
def np_vectorize(f, *a, **k):
    def g(x, *rest):
        m = coerce(x)
        if isinstance(m, SReal): return f(m, *rest)
        if m.rows_.isconst and m.cols_.isconst and (rest or all(m.entry(i, j).isconst for i in range(m.rows_.value) for j in range(m.cols_.value)) and not Ctx.cur.memo.get('lazy vectorize')):
            d = {(i, j): to_real(f(m.scal(i, j), *rest)) for i in range(m.rows_.value) for j in range(m.cols_.value)}
            return SMat.gen(m.rows_, m.cols_, lambda i, j: d[(i.value, j.value)].ge, m.tag, m.ek, m.ndim_)
        # the function applied to each entry is kept as an uninterpreted symbol (the contracts may ask what it is: memo 'vec')
        c = Ctx.cur
        if rest: raise Unsupported('vectorize over a symbolic size, with other arguments')
        if c.memo.get('generic vectorize'):
            from vx import loops
            ki, kj = fresh('i'), fresh('j')
            e = loops.generic_elem(lambda j: loops.generic_elem(lambda i: to_real(f(m.scal(i, j))), ki, m.rows_), kj, m.cols_)
            r = to_real(e)
            return SMat.gen(m.rows_, m.cols_, lambda i, j: r.ge.subst({ki: i, kj: j}), m.tag, r.kind, m.ndim_)
        nm = fresh('Vec')
        c.memo['vec'] = c.memo.get('vec', ()) + ((nm, f),)
        return SMat.gen(m.rows_, m.cols_, lambda i, j: GE.atom(nm, m.entry(i, j)), m.tag, 'float', m.ndim_)
    return g
def np_power(a, b):
    A = coerce(a); B = coerce(b)
    if isinstance(A, SReal) and isinstance(B, SMat):
        return SMat.gen(B.rows_, B.cols_, lambda i, j: (A ** SReal(B.entry(i, j))).ge, B.tag, 'float', B.ndim_)
    if isinstance(A, SReal): return A ** B
    return scalmap(A, lambda x: (SReal(x) ** b).ge)
def np_flatten_poly(*a): raise Unsupported('poly')
def slice_template(v):
    """(template, lo, hi): the entries of v are template(lo), .., template(hi - 1), where the template does not depend on the bounds"""
    k = '$k'
    e = v.entry(IP.sym(k)).light()
    L = v.rows_
    rng = Ctx.cur.all() + [f_ge(IP.sym(k)), f_lt(IP.sym(k), L)]
    e = GE(tuple(Term(t.c, t.bv, tuple(f for f in t.g if f_syms(f) & set(t.bv) or not pureint(f) or not entails(rng, f)), t.at) for t in e.terms)).light()
    offs = []
    def ip(x):
        if k in x.syms() and x.lincoef(k) in (1, -1):
            o = (x - IP.sym(k) * x.lincoef(k)) * x.lincoef(k)
            if k not in o.syms() and o not in offs: offs.append(o)
    def form(f):
        if f[0] in ('ge', 'eq'): ip(f[1])
        elif f[0] == 'not': form(f[1])
        elif f[0] in ('and', 'or'):
            for y in f[1]: form(y)
        elif f[0] == 'rc': ge(f[2])
    def ge(g):
        for t in g.terms:
            for f in t.g: form(f)
            for a in t.at:
                for y in a.args: ge(y) if isinstance(y, GE) else ip(y)
    ge(e)
    ok = []
    for o in offs + [IP0]:
        t = e.subst({k: IP.sym(k) - o}).light()
        if not (t.syms() & o.syms()): ok.append((t, o))
    # a template already used, or the one whose offset has no constant part
    for t, o in ok:
        if k in e.syms() and any(t == u for _, u in TEMPLATES.values()): return t, o, o + L
    const = lambda o: abs(sum(c for m, c in o.t if m == ()))
    others = lambda t: len(re.findall(r'(?<![\w$])[a-z]\w*(?![\w$(])', str(t)))
    for t, o in sorted(ok, key=lambda x: (others(x[0]), const(x[1]))): return t, o, o + L
    return e, IP0, L
TEMPLATES = {}
def _template_name(kind, t):
    for nm, (k, u) in TEMPLATES.items():
        if k == kind and u == t: return nm
    nm = '%s$%d' % (kind, len(TEMPLATES))
    TEMPLATES[nm] = (kind, t)
    return nm
def _poly_symbolic(v):
    t, lo, hi = slice_template(v)
    nm = _template_name('Poly', t)
    L = v.rows_
    return SMat.gen(L + 1, IP1, lambda i, j: GE1.guard(f_eq(i)) + GE.atom(nm, lo, hi, i).guard(f_and(f_le(1, i), f_le(i, L))), 'array', 'float', 1)
def _prod_symbolic(v, ek):
    t, lo, hi = slice_template(v)
    if t == GE1: return SReal(GE1, ek)
    return SReal(GE.atom(_template_name('Prod', t), lo, hi), ek)
def product_rule(i, c=None):
    """contracts of numpy.poly and numpy.prod on the slices starting at i (first factor apart), as a rewriting rule"""
    c = c or Ctx.cur
    i = IP.of(i)
    def rule(t, gamma):
        P, R = [{nm: t for nm, (k, t) in TEMPLATES.items() if k == kind} for kind in ('Poly', 'Prod')]
        for n, a in enumerate(t.at):
            rest = Term(t.c, t.bv, t.g, t.at[:n] + t.at[n + 1:])
            def times(g): return [Term(x.c * rest.c, x.bv + rest.bv, x.g + rest.g, x.at + rest.at) for x in g.terms]
            def first(nm, lo, hi, tm):
                # (new lo, new hi, first factor)
                if '$k' in tm.syms():
                    here = lo == i or (lo == IP0 and not any(i.syms() & f_syms(f) for f in list(gamma) + list(t.g)))       # i = 0
                    if not here and not ((hi - lo).isconst and (hi - lo).value >= 1): return None
                    return lo + 1, hi, tm.subst({'$k': lo})
                return (lo, hi - 1, tm) if (hi - lo) == c.memo.get('product length') else None
            if a.name in P:
                lo, hi, k = a.args
                r = first(a.name, lo, hi, P[a.name])
                if r is None: continue
                l2, h2, f = r
                p = lambda e: GE1.guard(f_eq(e)) + GE.atom(a.name, l2, h2, e).guard(f_and(f_le(1, e), f_le(e, h2 - l2)))
                return times(p(k) - f * p(k - 1))
            if a.name in R or (a.name == 'inv' and len(a.args[0].terms) == 1 and len(a.args[0].terms[0].at) == 1 and a.args[0].terms[0].at[0].name in R and a.args[0].terms[0].c == 1 and not a.args[0].terms[0].g):
                b = a if a.name in R else a.args[0].terms[0].at[0]
                lo, hi = b.args
                r = first(b.name, lo, hi, R[b.name])
                if r is None: continue
                l2, h2, f = r
                one = f_same(l2, h2)
                if a.name == 'inv': g = ge_div(GE1, f) * (GE1.guard(one) + ge_div(GE1, GE.atom(b.name, l2, h2)).guard(f_not(one)))
                else: g = f * (GE1.guard(one) + GE.atom(b.name, l2, h2).guard(f_not(one)))
                return times(g)
        return None
    return rule
def np_poly(r):
    v = _vec(r); n = forced_const(v.rows_)
    if n is None: return _poly_symbolic(v)
    p = np_array([1])
    for i in range(n): p = polyconv(p, np_array([1, SReal(-v.entry(i))]))
    p.ek = 'float'
    return p
class poly1d:
    """numpy.poly1d: leading zero coefficients are dropped"""
    def __init__(self, c, *a, **k):
        if isinstance(c, poly1d): v = c.v
        else: v = _vec(c)
        self.v = _trim(v)
    @property
    def coeffs(self): return self.v
    c = coefficients = coef = coeffs
    @property
    def order(self): return mk_int(self.v.rows_ - 1)
    def __mul__(self, o):
        if isinstance(o, poly1d): return poly1d(polyconv(self.v, o.v))
        return poly1d(self.v * o)
    __rmul__ = __mul__
    def __add__(self, o): return poly1d(_padd(self.v, o.v if isinstance(o, poly1d) else _vec(o), 1))
    __radd__ = __add__
    def __sub__(self, o): return poly1d(_padd(self.v, o.v if isinstance(o, poly1d) else _vec(o), -1))
    def __neg__(self): return poly1d(-self.v)
    def __getitem__(self, k):
        n = forced_const(self.v.rows_)
        if n is None: raise Unsupported('poly1d index')
        return self.v.scal(n - 1 - k) if 0 <= k < n else 0
def _trim(v):
    n = forced_const(v.rows_)
    if n is None: raise Unsupported('poly1d of a symbolic length')
    k = 0
    while k < n - 1 and Ctx.cur.decide(f_rc('==', v.entry(k))): k += 1
    if k == n - 1 and n and False: pass
    return SMat.gen(n - k, 1, lambda i, j: v.entry(i + k), 'array', v.ek, 1)
def _padd(a, b, s):
    n, m = a.rows_, b.rows_
    c = Ctx.cur
    big = n if c.decide(f_le(m, n)) else m
    def f(i, j):
        x = a.entry(i - (big - n)).guard(f_le(big - n, i)) if not (big == n) else a.entry(i)
        y = b.entry(i - (big - m)).guard(f_le(big - m, i)) if not (big == m) else b.entry(i)
        return x + y.scale(s)
    return SMat.gen(big, 1, f, 'array', joink(a.ek, b.ek), 1)
def np_polymul(a, b):
    if isinstance(a, poly1d) or isinstance(b, poly1d): return poly1d(a) * poly1d(b)
    return (poly1d(a) * poly1d(b)).v
def np_polyadd(a, b): return _padd(_vec(a), _vec(b), 1)
def np_polysub(a, b): return _padd(_vec(a), _vec(b), -1)
def np_absolute(x): return np_abs(x)
def np_outer(a, b):
    A, B = _vec(a), _vec(b)
    return SMat.gen(A.rows_, B.rows_, lambda i, j: A.entry(i) * B.entry(j), 'array', joink(A.ek, B.ek))
def np_trace(x): return coerce(x).trace()
def np_sum(x, axis=None, **k):
    if isinstance(x, (SMat, SBMat)): return x.sum(axis)
    return np_array(x).sum(axis)
def np_max(x, *a, **k):
    from vx.interp import smax
    v = mat._ravel(x) if isinstance(x, SMat) else x
    return smax(v)
def np_arange(*a, **k):
    from vx.interp import srange
    return np_array(srange(*a))

# inverse: a fresh matrix with its defining property
def np_conj(x):
    if isinstance(x, (SMat, S3)): return x.conj()
    if isinstance(x, SReal): return x.conjugate()
    y = coerce(x)
    return y.conj() if isinstance(y, SMat) else y.conjugate()
def np_norm(x, ord=None, *a, **k):
    """Frobenius norm of a matrix, 2-norm of a vector"""
    if a or k: raise Unsupported('norm with an axis')
    A = coerce(x)
    if not isinstance(A, SMat): raise Unsupported('norm of %r' % (x,))
    if not (ord is None or (ord == 'fro' and A.ndim_ == 2) or (A.ndim_ == 1 and isinstance(ord, int) and ord == 2)):
        if ord == 'fro': raise ValueError('Invalid norm order for vectors.')
        raise Unsupported('norm of order %r' % (ord,))
    sq = (lambda g: g * conj_ge(g)) if A.ek in ('complex', 'mpc') else (lambda g: g * g)
    g = sq(A.entry(IP.sym('i?'), IP.sym('j?') if A.ndim_ == 2 else IP0)).sum('i?', 0, A.rows_)
    if A.ndim_ == 2: g = g.sum('j?', 0, A.cols_)
    g = g.light()
    return SReal(g) if g == GE0 else SReal(GE.atom('sqrt', g))
def np_eig(x):
    """eigenvalues and eigenvectors: given by the contract under verification"""
    f = Ctx.cur.memo.get('numpy eig')
    if f is None: raise Unsupported('eigenvalues')
    return f(coerce(x))
def mat_inv(x):
    A = coerce(x)
    c = Ctx.cur
    if not c.decide(f_same(A.rows_, A.cols_)): raise LinAlgError('Last 2 dimensions of the array must be square')
    if A.rows_.isconst and A.cols_.isconst:
        n = A.rows_.value
        if n == 0: return A.copy()
        if n == 1: return SMat.gen(1, 1, lambda i, j: ge_div(GE1, A.entry(0, 0)), A.tag, A.ek)
    iname = known_inverse(A)
    if iname is not None:
        return SMat.gen(A.rows_, A.cols_, lambda i, j: iname(i, j), A.tag, A.ek)
    if c.memo.get('singular draws'):
        g = A.entry(IP.sym('$i'), IP.sym('$j'))
        for d, r, q in c.memo.get('normal draws', ()):
            if d in g.names() and c.decide(('ba', 'singular ' + d)): raise LinAlgError('Singular matrix')
    if A.ek in ('complex', 'mpc') and complex_names(): raise Unsupported('inverse of a complex matrix')
    # an inverse already computed (same matrix, opposite or transposed one)
    i, j = IP.sym('$i'), IP.sym('$j')
    for M, nm in c.memo.get('invs', ()):
        if not (c.entails(f_same(M.rows_, A.rows_))): continue
        for tr in (False, True):
            for sg in (1, -1):
                w = (M.entry(j, i) if tr else M.entry(i, j)).scale(sg)
                rng = [f_ge(i), f_ge(j), f_lt(i, A.rows_), f_lt(j, A.cols_)]
                if core_names(A.entry(i, j)) == core_names(w) and ge_zero(A.entry(i, j) - w, c.all() + rng, c.rules, depth=3) is True:
                    return SMat.gen(A.rows_, A.cols_, lambda p, q: GE.atom(nm, *((q, p) if tr else (p, q))).scale(sg), A.tag, 'float')
    nm = fresh('Inv')
    c.memo['invs'] = c.memo.get('invs', ()) + ((A.copy(), nm),)
    return SMat.gen(A.rows_, A.cols_, lambda p, q: GE.atom(nm, p, q), A.tag, 'float')
def known_inverse(A):
    """matrix of declared invertible atoms -> entries of the inverse (transposed and scaled versions included)"""
    c = Ctx.cur
    i, j = IP.sym('$i'), IP.sym('$j')
    for nm, inm, n in c.rules.inv:
        for a, b in ((nm, inm), (inm, nm)):
            for tr in (False, True):
                want = GE.atom(a, j, i) if tr else GE.atom(a, i, j)
                r = _same_entries(A, want, i, j)
                if r is not None:
                    return (lambda k: lambda p, q: (GE.atom(b, q, p) if tr else GE.atom(b, p, q)).scale(1 / k))(r)
    # identity
    if _same_entries(A, GE1.guard(f_same(i, j)), i, j) == 1: return lambda p, q: GE1.guard(f_same(p, q))
    # ghost matrices of the contract (rows, entries, atom of the inverse, factor)
    for n, fn, inm, k in c.memo.get('ghost matrices', ()):
        if not c.entails(f_same(A.rows_, n)): continue
        rng = [f_ge(i), f_lt(i, n), f_ge(j), f_lt(j, n)]
        if ge_zero(A.entry(i, j) - fn(i, j), c.all() + rng, c.rules) is True: return lambda p, q: GE.atom(inm, p, q) * k()
    # reversal
    if not (A.rows_.isconst) and _same_entries(A, GE1.guard(f_same(i + j + 1, A.rows_)), i, j) == 1: return lambda p, q: GE1.guard(f_same(IP.of(p) + q + 1, A.rows_))
    if A.rows_.isconst:
        n = A.rows_.value
        E = [[A.entry(p, q).light() for q in range(n)] for p in range(n)]
        if all(g.isconst for r in E for g in r):
            inv = _const_inverse([[g.constval for g in r] for r in E])
            return lambda p, q: sum((GE.const(inv[a][b]).guard(f_and(f_same(p, a), f_same(q, b))) for a in range(n) for b in range(n)), GE0)
    # candidates given by the contract, accepted when A * candidate = I is proved
    for n, g in c.memo.get('candidates', ()):
        if not c.entails(f_same(A.rows_, n)): continue
        rng = [f_ge(i), f_lt(i, n), f_ge(j), f_lt(j, n)]
        if ge_zero((A.entry(i, 'r?') * g(IP.sym('r?'), j)).sum('r?', 0, n) - GE1.guard(f_same(i, j)), c.all() + rng, c.rules) is True: return g
    return None
def _const_inverse(M):
    n = len(M)
    M = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c]), None)
        if p is None: raise LinAlgError('Singular matrix')
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]: M[r] = [x - M[r][c] * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]
def _same_entries(A, want, i, j):
    """scalar k with A = k * want, entry by entry"""
    if A.st.cells is not None:
        n = A.rows_.value
        k = None
        for (p, q), v in A.st.cells.items():
            w = want.subst({'$i': IP.const(p), '$j': IP.const(q)}).light()
            if v == w: kk = Fraction(1)
            elif (v + w).light() == GE0: kk = Fraction(-1)
            else: return None
            if not v.terms: continue
            if k is None: k = kk
            elif k != kk: return None
        return k
    e = A.entry(i, j)
    if e == want: return Fraction(1)
    if e == -want: return Fraction(-1)
    rng = [f_ge(i), f_ge(j), f_lt(i, A.rows_), f_lt(j, A.cols_)]
    if len(e.terms) > 1 or any(t.g for t in e.terms):
        e = sym.ge_known(e, rng, 80)
        if e == want: return Fraction(1)
        if e == -want: return Fraction(-1)
    if core_names(e) == core_names(want) and ge_zero(e - want, Ctx.cur.all() + rng, Ctx.cur.rules, depth=3) is True: return Fraction(1)
    return None
def core_names(g): return {a.name for a in g.atoms()}
def np_solve(a, b):
    A, B = coerce(a), coerce(b)
    return matprod(mat_inv(A).retag('matrix'), B)
def sp_lyapunov(a, q, method=None):
    """scipy.linalg.solve_discrete_lyapunov (documented contract): X with a X a^H - X + q = 0"""
    A, Q = coerce(a), coerce(q)
    c = Ctx.cur
    if not (c.decide(f_same(A.rows_, A.cols_)) and c.decide(f_same(Q.rows_, Q.cols_)) and c.decide(f_same(A.rows_, Q.rows_))): raise ValueError('Matrices are not square or have inconsistent sizes')
    nm = fresh('Lyap')
    c.memo['lyap'] = c.memo.get('lyap', ()) + ((A.copy(), Q.copy(), nm),)
    return SMat.gen(A.rows_, A.rows_, lambda i, j: GE.atom(nm, i, j), 'array', 'float')
class LinAlgError(Exception): pass

# ---- pseudo-random numbers: the k-th draw after the generator has been set to a state is a function of the state and of k
def _draw():
    c = Ctx.cur
    key, k = c.memo.get('rng', ('start', 0))
    c.memo['rng'] = (key, k + 1)
    return 'draw[%s,%d]' % (key, k)
def rng_seed(s=None):
    c = Ctx.cur
    if s is None: key = fresh('os')
    else:
        if isinstance(s, (float, SReal, str)): raise TypeError('the seed is not an integer')
        if not c.decide(f_ge(IP.of(s))): raise ValueError('Seed must be between 0 and 2**32 - 1')
        key = 'seed %s' % (IP.of(s),)
    c.memo['rng'] = (key, 0)
def rng_rand(*d):
    c, nm = Ctx.cur, _draw()
    if not d:
        g = GE.atom(nm)
        c.assume(f_and(f_rc('>', g), f_rc('>', GE1 - g)))
        return SReal(g, 'float')
    r, q = IP.of(d[0]), IP.of(d[1]) if len(d) > 1 else IP1
    if len(d) > 2: raise Unsupported('array of random numbers')
    at = lambda i, j: GE.atom(nm, i, j)
    u, v = fresh('i'), fresh('j')
    a = at(IP.sym(u), IP.sym(v))
    c.assume(('all', (u, v), f_and(f_rc('>', a), f_rc('>', GE1 - a))))
    return SMat.gen(r, q, at, 'array', 'float', len(d))
def rng_randn(*d):
    c, nm = Ctx.cur, _draw()
    if not d: return SReal(GE.atom(nm), 'float')
    if len(d) > 2: raise Unsupported('array of random numbers')
    at = lambda i, j: GE.atom(nm, i, j)
    u, v = fresh('i'), fresh('j')
    c.assume(('all', (u, v), f_not(f_rc('==', at(IP.sym(u), IP.sym(v))))))
    c.memo['normal draws'] = c.memo.get('normal draws', ()) + ((nm, IP.of(d[0]), IP.of(d[1]) if len(d) > 1 else IP1),)
    return SMat.gen(d[0], d[1] if len(d) > 1 else 1, at, 'array', 'float', len(d))
def _ip(x):
    if isinstance(x, SReal): raise Unsupported('random integer between reals')
    if isinstance(x, float):
        if x != int(x): raise Unsupported('random integer between reals')
        x = int(x)
    return IP.of(x)
def rng_randint(lo, hi=None, size=None):
    """low (included) to high (excluded)"""
    if size is not None: raise Unsupported('array of random integers')
    if hi is None: lo, hi = 0, lo
    c = Ctx.cur
    a, b = _ip(lo), _ip(hi)
    if not c.decide(f_lt(a, b)): raise ValueError('low >= high')
    x = IP.sym(_draw())
    c.assume(f_and(f_le(a, x), f_lt(x, b)))
    return mk_int(x)
def rng_uniform(lo=0.0, hi=1.0, size=None):
    if size is not None: raise Unsupported('array of random numbers')
    return rng_rand() * (hi - lo) + lo
def rng_choice(seq, *a, **k):
    if a or k or isinstance(seq, SMat): raise Unsupported('random choice')
    seq = list(range(seq)) if isinstance(seq, int) else list(seq)
    if not seq: raise ValueError('a must be non-empty')
    i = rng_randint(0, len(seq))
    for k, x in enumerate(seq[:-1]):
        if Ctx.cur.decide(f_same(IP.of(i), k)): return x
    return seq[-1]
RNG = dict(seed=rng_seed, rand=rng_rand, randn=rng_randn, randint=rng_randint, random_sample=lambda size=None: rng_rand() if size is None else rng_rand(*(size if isinstance(size, tuple) else (size,))), uniform=rng_uniform, choice=rng_choice)
RNG['random'] = RNG['sample'] = RNG['ranf'] = RNG['random_sample']
RNG['standard_normal'] = lambda size=None: rng_randn() if size is None else rng_randn(*(size if isinstance(size, tuple) else (size,)))

def _const_types(m):
    for n in ('int8', 'int16', 'int32', 'int64', 'long', 'uint8', 'uint16', 'uint32', 'uint64', 'integer', 'int_'):
        setattr(m, n, int)

def sp_tf2ss(num, den):
    """scipy.signal.tf2ss (documented contract): controller canonical form of num/den"""
    b, a = coerce(np_atleast_1d_(num)), coerce(np_atleast_1d_(den))
    if b.ndim_ != 1 or a.ndim_ != 1: raise Unsupported('tf2ss of matrices')
    K, M = a.rows_, b.rows_
    c = Ctx.cur
    if c.decide(f_lt(K, M)): raise ValueError('Improper transfer function. `num` is longer than `den`.')
    a0 = a.entry(IP0)
    if c.decide(f_rc('==', a0)): raise ValueError('Denominator must have at least on nonzero element.')
    nb = lambda i: ge_div(b.entry(i - (K - M)).guard(f_le(K - M, i)), a0)
    na = lambda i: ge_div(a.entry(i), a0)
    n = K - 1
    if not c.decide(f_le(1, n)): raise Unsupported('tf2ss of a static system')
    A = SMat.gen(n, n, lambda i, j: (-na(j + 1)).guard(f_eq(i)) + GE1.guard(f_and(f_le(1, i), f_same(j, i - 1))), 'array')
    B = SMat.gen(n, IP1, lambda i, j: GE1.guard(f_eq(i)), 'array')
    C = SMat.gen(IP1, n, lambda i, j: nb(j + 1) - nb(IP0) * na(j + 1), 'array')
    D = SMat.gen(IP1, IP1, lambda i, j: nb(IP0), 'array')
    return A, B, C, D
def sp_ss2tf(A, B, C, D, input=0):
    """scipy.signal.ss2tf (documented contract): the transfer function num/den of the system (den monic, of degree n)"""
    A, B, C, D = map(coerce, (A, B, C, D))
    c = Ctx.cur
    for f in (f_same(A.rows_, A.cols_), f_same(B.rows_, A.rows_), f_same(C.cols_, A.rows_), f_same(D.rows_, C.rows_), f_same(D.cols_, B.cols_)):
        if not c.decide(f): raise ValueError('The input system must have one of the following forms')
    if input != 0 or not c.decide(f_same(B.cols_, 1)): raise Unsupported('ss2tf of a system with several inputs')
    nm = fresh('tf')
    n = A.rows_ + 1
    c.memo['ss2tf'] = c.memo.get('ss2tf', ()) + (((A.copy(), B.copy(), C.copy(), D.copy()), nm),)
    return (SMat.gen(D.rows_, n, lambda i, j: GE.atom(nm + 'n', i, j), 'array', 'float'),
            SMat.gen(n, IP1, lambda i, j: GE1.guard(f_eq(i)) + GE.atom(nm + 'd', i).guard(f_le(1, i)), 'array', 'float', 1))
def np_atleast_1d_(x): return x if isinstance(x, SMat) else np_array(x)
# --------------------------------------------------------------------------- mpmath
def mp_zeros(n, m=None, **k):
    if m is None: m = n
    c = Ctx.cur
    if not c.decide(f_and(f_ge(IP.of(n)), f_ge(IP.of(m)))): raise Unsupported('mpmath matrix with a negative size')
    return SMat.gen(n, m, lambda i, j: GE0, 'mp', 'mpf')
def mp_eig(A, left=False, right=True, **k):
    f = Ctx.cur.memo.get('eig')         # given by the contract
    if f is None or left or not right or k: raise Unsupported('eigenvalues')
    return f(A)
def mp_ones(n, m=None, **k): return SMat.gen(n, n if m is None else m, lambda i, j: GE1, 'mp', 'mpf')
def mp_eye(n, **k): return SMat.gen(n, n, lambda i, j: GE1.guard(f_same(i, j)), 'mp', 'mpf')
def _mpk(*xs):
    k = 'mpf'
    for x in xs: k = joink(k, x.kind)
    return 'mpc' if k in ('mpc', 'complex') else 'mpf'
def _round_kw(g, exact, kw):
    """one rounding: exact, at the working precision, or at the precision given (53 bits to nearest: the double format)"""
    kw = dict(kw)
    if Ctx.cur.memo.get('real parts'): return g          # the contract takes the rounded operations as exact ones
    prec, mode = kw.pop('prec', None), kw.pop('rounding', 'n')
    if kw: raise Unsupported('mpmath operation with %s=' % '/'.join(kw))
    if exact is True or exact == 1 and not isinstance(exact, (SBool, SInt)): return g
    if isinstance(exact, (SBool, SInt)): raise Unsupported('exact=symbolic')
    if mode not in ('n', 'd', 'u', 'f', 'c'): raise Unsupported('rounding=%r' % (mode,))
    if prec is None: return rnd(g) if mode == 'n' else GE.atom('rnd:' + mode, g)
    if isinstance(prec, float) and prec == float('inf'): return g
    pg = to_real(prec).ge.light()
    if mode == 'n' and pg == GE.const(53): return rd53(g)
    if g.isconst and abs(g.constval) in (0, 1): return g
    if mode == 'n' and Ctx.cur.entails(f_rc('>=', pg - to_real(MODS['mpmath'].mp.prec).ge.scale(2))): return GE.atom('rd2w', g)    # to nearest, at least twice the working precision
    return GE.atom('rdp:' + mode, g, pg)
def rd53(g):
    g = GE.of(g).light()
    if g == GE0 or Ctx.cur.memo.get('real parts'): return g
    return GE.atom('rd53', g)
def _fop(op):
    def f(x, y, exact=False, **kw):
        a, b = to_real(x), to_real(y)
        g = op(a.ge, b.ge).light()
        return SReal(_round_kw(g, exact, kw), _mpk(a, b))
    return f
mp_fadd = _fop(lambda a, b: a + b)
mp_fsub = _fop(lambda a, b: a - b)
mp_fmul = _fop(lambda a, b: a * b)
def mp_fdiv(x, y, **kw):
    a, b = to_real(x), to_real(y)
    return SReal(_round_kw(ge_div(a.ge, b.ge).light(), False, kw), _mpk(a, b))
def mp_fneg(x, exact=False, **kw):
    a = to_real(x)
    return SReal(-a.ge if exact else rnd(-a.ge), _mpk(a))
def mp_fabs(x):
    a = to_real(x)
    return SReal(ite(f_rc('>=', a.ge), a.ge, -a.ge), 'mpf')
def _special(x):
    """'inf', '-inf', 'nan' or None (numbers are finite, except the explicit special ones)"""
    if isinstance(x, float) and (x != x or x in (float('inf'), -float('inf'))): return 'nan' if x != x else ('inf' if x > 0 else '-inf')
    g = to_real(x).ge.light()
    n = [a for a in g.names() if a.startswith('fp:')]
    if not n: return None
    if len(g.terms) == 1 and len(g.terms[0].at) == 1 and not g.terms[0].g and not g.terms[0].bv: return g.terms[0].at[0].name[3:]
    if all(t.g for t in g.terms if any(a.name.startswith('fp:') for a in t.at)): raise Unsupported('special value under a condition')
    raise Unsupported('arithmetic on a special value')
class FxPConstant:
    """fixif.FxP.Constant (external package): its approximation is an arbitrary function of the value and of the word-length"""
    def __init__(self, value, wl=None, signed=True):
        self.value, self._wl = value, wl
    @property
    def approx(self): return SReal(GE.atom('fix', to_real(self.value).ge.light(), IP.of(self._wl)), 'float')
def mp_isnan(x): return _special(x) == 'nan'
def mp_isinf(x): return _special(x) in ('inf', '-inf')
def mp_isfinite(x): return _special(x) is None
class SollyaObject_t(metaclass=_TMeta):
    """sollya numbers: exact expressions"""
    @staticmethod
    def check(x): return isinstance(x, SReal) and x.kind == 'sollya'
    @staticmethod
    def make(x): return SReal(to_real(x).ge, 'sollya')
def sollya_round(x, prec, mode):
    if mode != 'RN' or not isinstance(prec, int): raise Unsupported('sollya.round')
    if prec == 53: return SReal(GE.atom('rd53', to_real(x).ge.light()), 'sollya')
    return SReal(GE.atom('rdsollya', to_real(x).ge.light(), IP.const(prec)), 'sollya')
def mp_almosteq(a, b, rel_eps=None, abs_eps=None):
    """mpmath.almosteq: |a-b| <= abs_eps, or |a-b|/max(|a|,|b|) <= rel_eps"""
    d = to_real(a).ge - to_real(b).ge
    x, y = to_real(a).ge, to_real(b).ge
    c = Ctx.cur
    if d.light() == GE0: return True
    if repr(y) < repr(x): x, y = y, x        # a symmetric relation
    atom = GE.atom('almosteq', x.light(), y.light(), GE.of(rel_eps) if rel_eps is not None else GE.const(-1), GE.of(abs_eps) if abs_eps is not None else GE.const(-1))
    return mk_bool(f_not(f_rc('==', atom)))
def mp_nsum(f, lim, **k):
    lo, hi = lim
    lo = IP.of(sint_(lo)); hi = IP.of(sint_(hi))
    from vx.interp import srange, ssum
    n = forced_const(hi - lo + 1)
    if n is not None:
        r = SReal(GE0, 'mpf')
        for i in range(n): r = SReal(r.ge + to_real(f(mk_int(lo + i))).ge, 'mpf')
        return SReal(rnd(r.ge), 'mpf') if False else r
    from vx import loops
    k_ = fresh('s')
    v = loops.generic_elem(lambda i: f(mk_int(i + lo)), k_, hi - lo + 1)
    return SReal(to_real(v).ge.sum(k_, 0, hi - lo + 1), 'mpf')
def sint_(x):
    if isinstance(x, SReal): 
        ip = ge_to_ip(x.ge.light())
        if ip is None: raise Unsupported('real bound')
        return mk_int(ip)
    return x
class _MP:
    """mpmath.mp"""
    def __init__(self): self.__dict__['_prec'] = None
    zero = property(lambda s: SReal(GE0, 'mpf'))
    one = property(lambda s: SReal(GE1, 'mpf'))
    inf = property(lambda s: SReal(GE.atom('fp:inf'), 'mpf'))
    prec = property(lambda s: (Ctx.cur.memo.setdefault('mp.prec', mk_int(IP.sym('mp_prec')))), lambda s, v: Ctx.cur.memo.__setitem__('mp.prec', v))
    dps = property(lambda s: mk_int(IP.sym('mp_dps')), lambda s, v: None)
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        v = getattr(MODS['mpmath'], a)
        return v
class _WorkPrec:
    def __init__(self, n): self.n = n
    def __enter__(self):
        c = Ctx.cur
        self.old = c.memo.get('mp.prec')
        c.memo['mp.prec'] = self.n
        return self
    def __exit__(self, *a):
        c = Ctx.cur
        if self.old is None: c.memo.pop('mp.prec', None)
        else: c.memo['mp.prec'] = self.old
        return False

# --------------------------------------------------------------------------- module table
MODS = {}
SITE = '/opt/venv/lib/python3.12/site-packages'
def _resource(pkg, path):
    import os
    from vx.interp import REPO
    d = os.path.join(REPO, *pkg.split('.'))
    if not os.path.isdir(d): raise ModuleNotFoundError(pkg)
    return os.path.join(d, path)
def _real(module, name):
    """the template engines are not modelled: the real ones are run, on texts"""
    def f(*a, **k):
        import sys, importlib
        if SITE not in sys.path: sys.path.append(SITE)
        return getattr(importlib.import_module(module), name)(*a, **k)
    return f
def build():
    m = MODS
    m.clear()
    def mod(name, **kw):
        x = Mod(name)
        for k, v in kw.items(): setattr(x, k, v)
        m[name] = x
        if '.' in name:
            p, _, l = name.rpartition('.')
            if p not in m: mod(p)
            setattr(m[p], l, x)
        x.__path__ = []
        return x
    from vx.interp import real_floor, real_ceil
    def npfloor(x):
        if isinstance(x, SMat): return SMat.gen(x.rows_, x.cols_, lambda i, j: to_real(real_floor(SReal(x.entry(i, j)))).ge, x.tag, 'float', x.ndim_)
        return SReal(to_real(real_floor(x)).ge, "float") if not isinstance(x, (int, float)) else float(_math.floor(x))
    def npceil(x):
        if isinstance(x, SMat): return SMat.gen(x.rows_, x.cols_, lambda i, j: to_real(real_ceil(SReal(x.entry(i, j)))).ge, x.tag, 'float', x.ndim_)
        return SReal(to_real(real_ceil(x)).ge, "float") if not isinstance(x, (int, float)) else float(_math.ceil(x))
    np = mod('numpy', matrix=np_matrix, mat=np_matrix, ndarray=np_ndarray, array=np_array, asarray=lambda x, *a, **k: x if isinstance(x, SMat) and x.tag == 'array' else np_array(x), asmatrix=np_matrix,
             zeros=np_zeros, ones=np_ones, eye=np_eye, identity=np_eye, empty=np_empty, r_=_RC(0), c_=_RC(1), concatenate=np_concatenate, hstack=np_hstack, vstack=np_vstack,
             bmat=np_bmat, delete=np_delete, transpose=np_transpose, tril=np_tril, triu=np_triu, all=np_all, any=np_any, count_nonzero=np_count_nonzero, diag=np_diag,
             diagflat=np_diagflat, fliplr=np_fliplr, flipud=np_flipud, rot90=np_rot90, atleast_2d=np_atleast_2d, kron=np_kron, convolve=np_convolve, dot=np_dot,
             multiply=np_multiply, prod=np_prod, array_equal=np_array_equal, ndenumerate=np_ndenumerate, nditer=np_nditer, vectorize=np_vectorize, power=np_power,
             poly=np_poly, poly1d=poly1d, polymul=np_polymul, polyadd=np_polyadd, polysub=np_polysub, absolute=np_abs, abs=np_abs, outer=np_outer, trace=np_trace, sum=np_sum,
             max=np_max, arange=np_arange, conj=np_conj, conjugate=np_conj, real=lambda x: x.real if isinstance(x, (SMat, SReal)) else x, ravel=lambda x: coerce(x).ravel(), 
             sqrt=_ufunc(_op('sqrt'), 'sqrt'), log2=_ufunc(_op('log2'), 'log2'), log10=_ufunc(_op('log10'), 'log10'), cos=_ufunc(_op('cos'), 'cos'), sin=_ufunc(_op('sin'), 'sin'),
             exp=_ufunc(_op('exp'), 'exp'), floor=npfloor, ceil=npceil, inf=float('inf'), infty=float('inf'), Inf=float('inf'), nan=float('nan'), pi=_math.pi, float64=f64_t,
             set_printoptions=lambda *a, **k: None, errstate=Missing('errstate'), newaxis=None, matmul=lambda a, b: matprod(coerce(a), coerce(b)), full=lambda s, v, **k: np_zeros(s) + v,
             zeros_like=lambda x, **k: SMat.gen(x.rows_, x.cols_, lambda i, j: GE0, x.tag, x.ek, x.ndim_), ones_like=lambda x, **k: SMat.gen(x.rows_, x.cols_, lambda i, j: GE1, x.tag, x.ek, x.ndim_),
             copy=lambda x: coerce(x).copy(), shape=lambda x: coerce(x).shape, size=lambda x: coerce(x).size, isscalar=lambda x: is_num(x), squeeze=lambda x: coerce(x).squeeze(),
             flatnonzero=Missing('flatnonzero'), bool_=bool, float_=f64_t, subtract=lambda a, b: coerce(a) - coerce(b), add=lambda a, b: coerce(a) + coerce(b), divide=lambda a, b: coerce(a) / coerce(b))
    _const_types(np)
    mod('numpy.linalg', inv=mat_inv, solve=np_solve, LinAlgError=LinAlgError, norm=np_norm, eig=np_eig, matrix_rank=np_matrix_rank)
    mod('numpy.linalg.linalg', LinAlgError=LinAlgError)
    mod('numpy.random', **RNG); mod('numpy.random.mtrand', **RNG); mod('numpy.testing')
    mod('numpy.core'); mod('numpy.core.umath', pi=_math.pi, cos=np.cos, sin=np.sin)
    mp = _MP()
    mpm = mod('mpmath', mp=mp, mpf=mpf_t, mpc=mpc_t, matrix=mp_matrix, zeros=mp_zeros, eig=mp_eig, ones=mp_ones, eye=mp_eye, fadd=mp_fadd, fsub=mp_fsub, fmul=mp_fmul, fdiv=mp_fdiv, fneg=mp_fneg, fabs=mp_fabs,
              isnan=mp_isnan, isinf=mp_isinf, isfinite=mp_isfinite, almosteq=mp_almosteq, nsum=mp_nsum, workprec=lambda n: _WorkPrec(n), inf=SReal(GE.atom('fp:inf'), 'mpf'),
              floor=lambda x: SReal(to_real(real_floor(x)).ge, 'mpf'), ceil=lambda x: SReal(to_real(real_ceil(x)).ge, 'mpf'), log=mp_log, power=lambda a, b: SReal((to_real(a) ** to_real(b)).ge, 'mpf'), inverse=mat_inv, convert=lambda x: mpf_t(x))
    mod('scipy'); mod('scipy.linalg', solve_discrete_lyapunov=sp_lyapunov, inv=mat_inv, solve=np_solve, LinAlgError=LinAlgError); mod('scipy.signal', tf2ss=sp_tf2ss, ss2tf=sp_ss2tf); mod('scipy.weave')
    mod('math', floor=real_floor, ceil=real_ceil, sqrt=_ufunc(_op('sqrt'), 'sqrt'), log=math_log, pi=_math.pi, log2=np.log2, log10=np.log10, inf=float('inf'))
    mod('sollya', SollyaObject=SollyaObject_t, round=sollya_round, RN='RN', RU='RU', RD='RD'); mod('fixif.WCPG'); mod('fixif.FxP'); mod('fixif.FxP.Constant', Constant=FxPConstant); mod('jinja2', Environment=_real('jinja2', 'Environment'), FileSystemLoader=_real('jinja2', 'FileSystemLoader')); mod('jinja2.loaders', FileSystemLoader=_real('jinja2', 'FileSystemLoader')); mod('latex'); mod('latex.jinja2', make_env=_real('latex.jinja2', 'make_env')); mod('lxml'); mod('lxml.etree', fromstring=_real('lxml.etree', 'fromstring'), XML=_real('lxml.etree', 'XML'), parse=_real('lxml.etree', 'parse')); mod('matplotlib'); mod('matplotlib.pyplot'); mod('matplotlib.patches')
    mod('pylatexenc'); mod('pylatexenc.latexencode', utf8tolatex=_real('pylatexenc.latexencode', 'utf8tolatex')); mod('colorama'); mod('pytest'); mod('pkg_resources', resource_filename=_resource)
    m.pop('fixif', None)
    return m
