"""Matrix operators: contracts of numpy.matrix / numpy.ndarray / mpmath.matrix (trusted), attached to SMat."""
from vx.sym import *
from vx.core import *

def bdim(a, b):
    """broadcast two dimensions"""
    if a == b: return a, False, False
    c = Ctx.cur
    if c.decide(f_same(a, b)): return a, False, False
    if c.decide(f_same(a, 1)): return b, True, False
    if c.decide(f_same(b, 1)): return a, False, True
    raise ValueError('operands could not be broadcast together with shapes (%r) (%r)' % (a, b))
def elementwise(A, B, op, ek=None):
    """broadcasting element-wise operation; op: GE, GE -> GE"""
    tag = 'matrix' if 'matrix' in (A.tag, B.tag) else ('mp' if 'mp' in (A.tag, B.tag) else 'array')
    if tag == 'mp':
        c = Ctx.cur
        if not (c.decide(f_same(A.rows_, B.rows_)) and c.decide(f_same(A.cols_, B.cols_))):
            raise ValueError('incompatible dimensions for addition')
        r, cc, nd = A.rows_, A.cols_, 2
        ga, gb = A.entry, B.entry
    else:
        ga, gb = A.entry, B.entry
        ra, ca, rb, cb = A.rows_, A.cols_, B.rows_, B.cols_
        if A.ndim_ == 1 and B.ndim_ == 1:
            r, ea, eb = bdim(ra, rb)
            z = IP0
            fa = (lambda i, j: A.entry(z)) if ea else (lambda i, j: A.entry(i))
            fb = (lambda i, j: B.entry(z)) if eb else (lambda i, j: B.entry(i))
            return SMat.gen(r, 1, lambda i, j: op(fa(i, j), fb(i, j)), tag, ek or joink(A.ek, B.ek), 1)
        if A.ndim_ == 1:
            ra, ca = IP1, A.rows_; ga = lambda i, j: A.entry(j)
        if B.ndim_ == 1:
            rb, cb = IP1, B.rows_; gb = lambda i, j: B.entry(j)
        r, ea, eb = bdim(ra, rb)
        cc, fa_, fb_ = bdim(ca, cb)
        oga, ogb = ga, gb
        ga = lambda i, j: oga(IP0 if ea else i, IP0 if fa_ else j)
        gb = lambda i, j: ogb(IP0 if eb else i, IP0 if fb_ else j)
        nd = 2
    k = ek or joink(A.ek, B.ek)
    if k in ('mpf', 'mpc') and tag == 'mp':
        return SMat.gen(r, cc, lambda i, j: rnd(op(ga(i, j), gb(i, j))), tag, k, nd)
    return SMat.gen(r, cc, lambda i, j: op(ga(i, j), gb(i, j)), tag, k, nd)
def scalmap(A, f, ek=None):
    return SMat.gen(A.rows_, A.cols_, lambda i, j: f(A.entry(i, j)), A.tag, ek or A.ek, A.ndim_)
def matprod(A, B):
    c = Ctx.cur
    tag = 'matrix' if 'matrix' in (A.tag, B.tag) else ('mp' if 'mp' in (A.tag, B.tag) else 'array')
    ra, ca, rb, cb = A.rows_, A.cols_, B.rows_, B.cols_
    ga, gb = A.entry, B.entry
    nd = 2
    if A.ndim_ == 1 and B.ndim_ == 1 and tag == 'array':
        if not c.decide(f_same(ra, rb)): raise ValueError('shapes not aligned')
        return SReal((A.entry('q?') * B.entry('q?')).sum('q?', 0, ra), joink(A.ek, B.ek))
    if A.ndim_ == 1:
        ra, ca = IP1, A.rows_; ga = lambda i, j: A.entry(j)
        nd = 2 if tag == 'matrix' else 1
    if B.ndim_ == 1:
        if tag == 'matrix':
            rb, cb = IP1, B.rows_; gb = lambda i, j: B.entry(j)
        else:
            rb, cb = B.rows_, IP1; nd = 1
    if not c.decide(f_same(ca, rb)): raise ValueError('shapes (%r,%r) and (%r,%r) not aligned' % (ra, ca, rb, cb))
    k = joink(A.ek, B.ek)
    def f(i, j):
        if ca.isconst and ca.value <= 12:
            s = GE0
            for q in range(ca.value): s = s + ga(i, IP.const(q)) * gb(IP.const(q), j)
            s = s.light()
        else:
            s = (ga(i, IP.sym('q?')) * gb(IP.sym('q?'), j)).sum('q?', 0, ca)
        return rnd(s) if tag == 'mp' else s
    return SMat.gen(ra, cb, f, tag, k, nd)
def coerce(x):
    """numbers stay numbers; nested lists become arrays"""
    if isinstance(x, SMat): return x
    if isinstance(x, (SReal, SInt, SBool, int, float, Fraction, complex)): return to_real(x)
    if isinstance(x, (list, tuple, SList, SSeq, SRange)):
        from vx.libs import np_array
        return np_array(x)
    if isinstance(x, SBMat): return x.tomat()
    return None
def _arith(name, op):
    def f(self, o):
        b = coerce(o)
        if b is None: return NotImplemented
        if isinstance(b, SMat): return elementwise(self, b, op)
        if self.tag == 'mp': return scalmap(self, lambda x: rnd(op(x, b.ge)), joink(self.ek, b.kind))
        return scalmap(self, lambda x: op(x, b.ge), joink(self.ek, b.kind))
    return f
def _rarith(op):
    def f(self, o):
        b = coerce(o)
        if b is None: return NotImplemented
        if isinstance(b, SMat): return elementwise(b, self, op)
        if self.tag == 'mp': return scalmap(self, lambda x: rnd(op(b.ge, x)), joink(self.ek, b.kind))
        return scalmap(self, lambda x: op(b.ge, x), joink(self.ek, b.kind))
    return f
SMat.__add__ = _arith('add', lambda a, b: a + b)
SMat.__radd__ = _rarith(lambda a, b: a + b)
SMat.__sub__ = _arith('sub', lambda a, b: a - b)
SMat.__rsub__ = _rarith(lambda a, b: a - b)
_emul = _arith('mul', lambda a, b: a * b)
def _mul(self, o):
    b = coerce(o)
    if b is None: return NotImplemented
    if isinstance(b, SMat) and ('matrix' in (self.tag, b.tag) or 'mp' in (self.tag, b.tag)): return matprod(self, b)
    return _emul(self, b)
def _rmul(self, o):
    b = coerce(o)
    if b is None: return NotImplemented
    if isinstance(b, SMat) and ('matrix' in (self.tag, b.tag) or 'mp' in (self.tag, b.tag)): return matprod(b, self)
    if isinstance(b, SMat): return elementwise(b, self, lambda x, y: x * y)
    return _emul(self, b)
SMat.__mul__ = _mul
SMat.__rmul__ = _rmul
SMat.__matmul__ = lambda self, o: matprod(self, coerce(o))
SMat.__rmatmul__ = lambda self, o: matprod(coerce(o), self)
SMat.__truediv__ = _arith('div', ge_div)
SMat.__rtruediv__ = _rarith(ge_div)
def _neg(self):
    if self.tag == 'mp': return scalmap(self, lambda x: -rnd(x))
    return scalmap(self, lambda x: -x)
SMat.__neg__ = _neg
SMat.__pos__ = lambda self: self.copy()
def _pow(self, o):
    if isinstance(o, int) and 0 <= o <= 6 and self.tag != 'array':
        if o == 0: return SMat.gen(self.rows_, self.cols_, lambda i, j: GE1.guard(f_same(i, j)), self.tag, self.ek)
        r = self
        for _ in range(o - 1): r = matprod(r, self)
        return r
    if isinstance(o, int) and 0 <= o <= 6:
        return scalmap(self, lambda x: (SReal(x) ** o).ge)
    if isinstance(o, int) and o == -1 and self.tag != 'array':
        from vx.libs import mat_inv
        return mat_inv(self)
    raise Unsupported('matrix power')
SMat.__pow__ = _pow
def _iop(opname):
    def f(self, o):
        r = getattr(self, opname)(o)
        if r is NotImplemented: return r
        if self.tag == 'mp': return r
        # numpy: in place
        if not (r.rows_ == self.rows_ and r.cols_ == self.cols_): raise Unsupported('in-place operation that changes the shape')
        self.update(lambda i, j: T, lambda i, j: r.entry(i, j))
        if getattr(self, 'base', None) is not None: self.base[0][self.base[1]] = r
        return self
    return f
SMat.__iadd__ = _iop('__add__')
SMat.__isub__ = _iop('__sub__')
SMat.__imul__ = _iop('__mul__')
SMat.__itruediv__ = _iop('__truediv__')

# ------------------------------------------------------------ comparisons: boolean matrices
class SBMat:
    """boolean matrix; fn(i, j) -> form"""
    def __init__(self, rows, cols, fn, ndim=2, tag='array'):
        self.rows_, self.cols_, self.fn, self.ndim_, self.tag = IP.of(rows), IP.of(cols), fn, ndim, tag
    def all(self, axis=None):
        if axis is not None: raise Unsupported('all(axis)')
        return bool_forall(self.rows_, self.cols_, self.fn)
    def any(self, axis=None):
        r = bool_forall(self.rows_, self.cols_, lambda i, j: f_not(self.fn(i, j)))
        return (not r) if isinstance(r, bool) else mk_bool(f_not(r.form))
    def __invert__(self): return SBMat(self.rows_, self.cols_, lambda i, j: f_not(self.fn(i, j)), self.ndim_, self.tag)
    def __and__(self, o): return SBMat(self.rows_, self.cols_, lambda i, j: f_and(self.fn(i, j), o.fn(i, j)), self.ndim_, self.tag)
    def __or__(self, o): return SBMat(self.rows_, self.cols_, lambda i, j: f_or(self.fn(i, j), o.fn(i, j)), self.ndim_, self.tag)
    @property
    def shape(self): return (mk_int(self.rows_),) if self.ndim_ == 1 else (mk_int(self.rows_), mk_int(self.cols_))
    def __bool__(self):
        if self.rows_ == IP1 and self.cols_ == IP1: return Ctx.cur.decide(self.fn(IP0, IP0))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __getitem__(self, k):
        if isinstance(k, tuple): return mk_bool(self.fn(check_index(k[0], self.rows_), check_index(k[1], self.cols_)))
        if self.ndim_ == 1: return mk_bool(self.fn(check_index(k, self.rows_), IP0))
        raise Unsupported('boolean matrix index')
    def tomat(self): return SMat.gen(self.rows_, self.cols_, lambda i, j: GE1.guard(self.fn(i, j)), self.tag, 'int', self.ndim_)
    def sum(self, *a, **k): return self.tomat().sum(*a, **k)
    def astype(self, *a): return self.tomat()
    def __hash__(self): return id(self)
def bool_forall(rows, cols, fn):
    """conjunction over all the entries (quantified when the size is symbolic)"""
    if rows.isconst and cols.isconst and rows.value * cols.value <= 400:
        return mk_bool(f_and(*[fn(IP.const(i), IP.const(j)) for i in range(rows.value) for j in range(cols.value)]))
    i, j = fresh('i'), fresh('j')
    one = lambda v, n: IP0 if n.isconst and n.value == 1 else IP.sym(v)          # a row or a column has a single index
    f = fn(one(i, rows), one(j, cols))
    vs = tuple(v for v, n in ((i, rows), (j, cols)) if not (n.isconst and n.value == 1))
    rng = [x for v, n in ((i, rows), (j, cols)) if v in vs for x in (f_ge(IP.sym(v)), f_lt(v, n))]
    g = Ctx.cur.all()
    if entails(g + rng, f): return True
    return mk_bool(('all', vs, f_implies(f_and(*rng), f)))
def _cmp(op):
    def f(self, o):
        b = coerce(o)
        if b is None:
            if o is None: return op == '!='
            return NotImplemented
        if self.tag == 'mp' and op in ('==', '!='):
            if not isinstance(b, SMat): return op == '!='
            if not (Ctx.cur.decide(f_same(self.rows_, b.rows_)) and Ctx.cur.decide(f_same(self.cols_, b.cols_))): return op == '!='
            r = bool_forall(self.rows_, self.cols_, lambda i, j: form_of(SReal(self.entry(i, j), self.ek) == SReal(b.entry(i, j), b.ek)))
            if op == '==': return r
            return (not r) if isinstance(r, bool) else mk_bool(f_not(r.form))
        meth = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
        if isinstance(b, SMat):
            if self.ndim_ != b.ndim_:          # a vector is a row of the broadcast comparison
                row = lambda x: SMat.gen(IP1, x.rows_, lambda i, j: x.entry(j, IP0), x.tag, x.ek, 2) if x.ndim_ == 1 else x
                return getattr(row(self), meth)(row(b))
            if not (Ctx.cur.decide(f_same(self.rows_, b.rows_)) and Ctx.cur.decide(f_same(self.cols_, b.cols_))):
                r, ea, eb = bdim(self.rows_, b.rows_); cc, fa, fb = bdim(self.cols_, b.cols_)
                return SBMat(r, cc, lambda i, j: form_of(getattr(SReal(self.entry(IP0 if ea else i, IP0 if fa else j)), meth)(SReal(b.entry(IP0 if eb else i, IP0 if fb else j)))), self.ndim_, self.tag)
            return SBMat(self.rows_, self.cols_, lambda i, j: form_of(getattr(SReal(self.entry(i, j)), meth)(SReal(b.entry(i, j)))), self.ndim_, self.tag)
        return SBMat(self.rows_, self.cols_, lambda i, j: form_of(getattr(SReal(self.entry(i, j)), meth)(b)), self.ndim_, self.tag)
    return f
for _o, _n in (('==', '__eq__'), ('!=', '__ne__'), ('<', '__lt__'), ('<=', '__le__'), ('>', '__gt__'), ('>=', '__ge__')):
    setattr(SMat, _n, _cmp(_o))

# ------------------------------------------------------------ attributes
def _shape(self):
    if self.ndim_ == 1: return (mk_int(self.rows_),)
    return (mk_int(self.rows_), mk_int(self.cols_))
SMat.shape = property(_shape)
SMat.ndim = property(lambda self: self.ndim_)
SMat.size = property(lambda self: mk_int(self.rows_ * self.cols_))
class _Rows:
    """`.rows` is the IP inside the engine; the interpreted code sees an integer through vx_getattr"""
def vx_getattr(o, name):
    """attribute access by interpreted code on engine values"""
    if isinstance(o, SMat):
        if name in ('rows', 'cols'):
            if o.tag != 'mp': raise AttributeError("'%s' has no attribute '%s'" % (o.tag, name))
            return mk_int(o.rows_ if name == 'rows' else o.cols_)
        if name == 'shape' and o.tag == 'mp': raise AttributeError("'matrix' object has no attribute 'shape'")
    if isinstance(o, (SList,)) and name == 'n': raise AttributeError('n')
    return getattr(o, name)
def _transpose(self, *a):
    if self.ndim_ == 1: return self
    if self.st.cells is not None:
        return SMat(self.cols_, self.rows_, Store(None, {(j, i): v for (i, j), v in self.st.cells.items()}), self.tag, self.ek, 2)
    return SMat.gen(self.cols_, self.rows_, lambda i, j: self.entry(j, i), self.tag, self.ek, 2)
SMat.transpose = _transpose
SMat.T = property(_transpose)
SMat.H = property(_transpose)
SMat.transpose_conj = _transpose
SMat.conj = lambda self: scalmap(self, conj_ge) if self.ek in ('complex', 'mpc') else self
SMat.conjugate = SMat.conj
def _inv(self):
    from vx.libs import mat_inv
    return mat_inv(self)
SMat.I = property(_inv)
SMat.A = property(lambda self: SMat(self.rows_, self.cols_, self.st, 'array', self.ek, 2))
def _ravel(self, *a):
    if self.ndim_ == 1: return self
    t = self
    if self.cols_ == IP1:
        r = SMat.gen(self.rows_, 1, lambda i, j: t.entry(i, IP0), 'array', self.ek, 1)
    elif self.rows_ == IP1:
        r = SMat.gen(self.cols_, 1, lambda i, j: t.entry(IP0, i), 'array', self.ek, 1)
    elif self.cols_.isconst:
        n = self.cols_.value
        def f(i, j):
            q, m = int_div(mk_int(i), n)
            return t.entry(IP.of(q), IP.of(m))
        if self.rows_.isconst:
            r = SMat.gen(self.rows_ * self.cols_, 1, f, 'array', self.ek, 1)
        else: raise Unsupported('ravel of a matrix')
    else:
        if Ctx.cur.entails(f_same(self.rows_, 1)): r = SMat.gen(self.cols_, 1, lambda i, j: t.entry(IP0, i), 'array', self.ek, 1)
        elif Ctx.cur.entails(f_same(self.cols_, 1)): r = SMat.gen(self.rows_, 1, lambda i, j: t.entry(i, IP0), 'array', self.ek, 1)
        else: raise Unsupported('ravel of a matrix of symbolic width')
    return r
def _ravel_m(self, *a):
    r = _ravel(self)
    if self.tag == 'matrix': return SMat.gen(1, r.rows_, lambda i, j: r.entry(j), 'matrix', self.ek, 2)
    return r
SMat.ravel = _ravel_m
SMat.flatten = _ravel_m
SMat.A1 = property(_ravel)
class _Flat:
    def __init__(self, m): self.m = _ravel(m)
    def __getitem__(self, k): return self.m[k]
    def __iter__(self): return iter([self.m.scal(IP.const(i)) for i in range(len(self))])
    def __len__(self): return int(mk_int(self.m.rows_))
    def count(self): return self.m.rows_
    def elem(self, t): return self.m.scal(t)
SMat.flat = property(lambda self: _Flat(self))
def _tolist(self):
    if self.ndim_ == 1:
        if self.rows_.isconst: return [self.scal(IP.const(i)) for i in range(self.rows_.value)]
        return SList(self.rows_, lambda i: self.scal(i))
    if self.rows_.isconst:
        if self.cols_.isconst: return [[self.scal(IP.const(i), IP.const(j)) for j in range(self.cols_.value)] for i in range(self.rows_.value)]
        return [SList(self.cols_, (lambda i: lambda j: self.scal(IP.const(i), j))(i)) for i in range(self.rows_.value)]
    return SList(self.rows_, lambda i: (SList(self.cols_, lambda j: self.scal(i, j)) if not self.cols_.isconst else [self.scal(i, IP.const(j)) for j in range(self.cols_.value)]))
SMat.tolist = _tolist
def _item(self, *a):
    if not a: return to_real(self)
    if len(a) == 1 and self.ndim_ == 2 and not isinstance(a[0], tuple): return _ravel(self)[a[0]]
    return self[a if len(a) > 1 else a[0]]
SMat.item = _item
def _dot(self, o):
    return matprod(self, coerce(o))
SMat.dot = _dot
def _sum(self, axis=None, **k):
    if self.ndim_ == 1:
        return self.wrap(self.entry('q?').sum('q?', 0, self.rows_))
    if axis is None:
        return self.wrap(self.entry('q?', 'p?').sum('p?', 0, self.cols_).sum('q?', 0, self.rows_))
    if axis == 0:
        r = SMat.gen(1, self.cols_, lambda i, j: self.entry('q?', j).sum('q?', 0, self.rows_), self.tag, self.ek)
        return r if self.tag == 'matrix' else SMat.gen(self.cols_, 1, lambda i, j: r.entry(IP0, i), self.tag, self.ek, 1)
    r = SMat.gen(self.rows_, 1, lambda i, j: self.entry(i, 'q?').sum('q?', 0, self.cols_), self.tag, self.ek)
    return r if self.tag == 'matrix' else SMat.gen(self.rows_, 1, lambda i, j: r.entry(i), self.tag, self.ek, 1)
SMat.sum = _sum
def _trace(self, *a, **k):
    if not Ctx.cur.decide(f_same(self.rows_, self.cols_)): raise Unsupported('trace of a rectangular matrix')
    r = SReal(self.entry('q?', 'q?').sum('q?', 0, self.rows_), self.ek)
    return SMat.gen(1, 1, lambda i, j: r.ge, 'matrix', self.ek) if self.tag == 'matrix' else r
SMat.trace = _trace
SMat.astype = lambda self, t, **k: _astype(self, t)
def _astype(self, t):
    m = self.copy()
    return m
SMat.real = property(lambda self: self if self.ek not in ('mpc', 'complex') else scalmap(self, real_part, 'float'))
SMat.imag = property(lambda self: scalmap(self, imag_part, 'float'))
def _all(self, axis=None): return SBMat(self.rows_, self.cols_, lambda i, j: f_not(f_rc('==', self.entry(i, j))), self.ndim_).all(axis)
def _any(self, axis=None): return SBMat(self.rows_, self.cols_, lambda i, j: f_not(f_rc('==', self.entry(i, j))), self.ndim_).any(axis)
SMat.all = _all
SMat.any = _any
def _reshape(self, *a, **k):
    if len(a) == 1 and isinstance(a[0], (tuple, list)): a = tuple(a[0])
    c = Ctx.cur
    nd = len(a)
    v = _ravel(self)
    if nd == 1:
        return v if (isinstance(a[0], int) and a[0] == -1) or c.decide(f_same(a[0], v.rows_)) else _bad()
    if isinstance(a[0], int) and a[0] == 1:
        return SMat.gen(1, v.rows_, lambda i, j: v.entry(j), self.tag, self.ek)
    if isinstance(a[1], int) and a[1] == 1:
        return SMat.gen(v.rows_, 1, lambda i, j: v.entry(i), self.tag, self.ek)
    if is_int(a[0]) and is_int(a[1]) and isinstance(a[0], int) and isinstance(a[1], int) and v.rows_.isconst:
        if a[0] * a[1] != v.rows_.value: _bad()
        w = a[1]
        return SMat.gen(a[0], a[1], lambda i, j: v.entry(i * w + j), self.tag, self.ek)
    if c.entails(f_same(a[0], 1)): return SMat.gen(1, v.rows_, lambda i, j: v.entry(j), self.tag, self.ek)
    if c.entails(f_same(a[1], 1)): return SMat.gen(v.rows_, 1, lambda i, j: v.entry(i), self.tag, self.ek)
    raise Unsupported('reshape')
def _bad(): raise ValueError('cannot reshape array')
SMat.reshape = _reshape
SMat.squeeze = lambda self: self if self.tag == 'matrix' else (_ravel(self) if self.ndim_ == 2 and (self.rows_ == IP1 or self.cols_ == IP1) else self)
SMat.__len__ = lambda self: int(mk_int(self.rows_ if not (self.tag == 'mp' and self.rows_ == IP1) else self.cols_))
def mat_len(m):
    if m.tag == 'mp':
        c = Ctx.cur
        if m.rows_ == IP1 or c.entails(f_same(m.rows_, 1)): return mk_int(m.cols_)
        if m.cols_ == IP1 or c.entails(f_same(m.cols_, 1)): return mk_int(m.rows_)
        raise Unsupported('len of a mpmath matrix')
    return mk_int(m.rows_)
def _iter(self):
    n, f = mat_seq(self)
    c = forced_const(n)
    if c is None: raise Unsupported('native iteration over a matrix of symbolic size')
    return iter([f(IP.const(i)) for i in range(c)])
SMat.__iter__ = _iter
class _DT:
    """dtype"""
    def __init__(self, k): self.k = k
    def __eq__(self, o): return (isinstance(o, _DT) and o.k == self.k) or getattr(o, '__name__', o) == self.k or (self.k == 'float' and getattr(o, '__name__', '') in ('float', 'float64'))
    def __hash__(self): return hash(self.k)
    @property
    def kind(self): return {'float': 'f', 'int': 'i', 'complex': 'c'}.get(self.k, 'O')
SMat.dtype = property(lambda self: _DT(self.ek))

# ------------------------------------------------------------ indexing
def _fancy(k): return isinstance(k, (list, SList, SRange, SSeq)) or (isinstance(k, SMat))
def _axis(k, n):
    """-> ('int', ip) | ('map', count, fn ip->ip)"""
    if isinstance(k, slice):
        lo, hi, st = slice_bounds(k, n)
        if st == 1: return ('map', hi - lo, lambda i: i + lo)
        if st == -1: return ('map', hi - lo, lambda i: hi - 1 - i)
        d = hi - lo
        if st < 0: raise Unsupported('slice step %d' % st)
        cnt = IP.of(int_div(mk_int(d + (st - 1)), st)[0])
        return ('map', cnt, lambda i: lo + i * st)
    if _fancy(k):
        m, f = seq_of(k)
        if isinstance(k, (list, tuple)) or m.isconst:
            idx = [check_index(f(IP.const(t)), n) for t in range(m.value)]
            def g(i):
                if i.isconst: return idx[i.value]
                # affine lists
                raise Unsupported('symbolic access in a fancy index')
            return ('map', m, g)
        t = IP.sym(fresh('t'))
        if not Ctx.cur.entails(f_implies(f_and(f_ge(t), f_lt(t, m)), f_and(f_ge(f_of_int(f(t))), f_lt(f_of_int(f(t)), n)))): raise Unsupported('fancy index not proved in bounds')
        return ('map', m, lambda i: IP.of(f(i)))
    if k is None: raise Unsupported('newaxis')
    return ('int', check_index(k, n))
def f_of_int(v): return IP.of(v)
def pruned(m):
    """the pieces of the entries that do not concern the range of the indices are dropped"""
    g = m.st.gen
    if g is not None and len(g.terms) > 2 and sum(1 for t in g.terms if t.g) > 2:
        i, j = IP.sym(R_), IP.sym(C_)
        m.st.gen = ge_known(g, [f_ge(i), f_lt(i, m.rows_), f_ge(j), f_lt(j, m.cols_)], 80)
    return m
def _getitem(self, k):
    if k is Ellipsis: return self
    if self.ndim_ == 1:
        if isinstance(k, tuple):
            if len(k) == 1: k = k[0]
            elif len(k) == 2 and (k[0] is None or k[1] is None):
                if k[0] is None: return SMat.gen(1, self.rows_, lambda i, j: self.entry(j), 'array', self.ek)
                return SMat.gen(self.rows_, 1, lambda i, j: self.entry(i), 'array', self.ek)
            else: raise IndexError('too many indices for array')
        a = _axis(k, self.rows_)
        if a[0] == 'int': return self.scal(a[1])
        _, n, f = a
        return SMat.gen(n, 1, lambda i, j: self.entry(f(i)), self.tag, self.ek, 1)
    if not isinstance(k, tuple):
        if self.tag == 'mp':
            c = Ctx.cur
            if c.decide(f_same(self.rows_, 1)): k = (0, k)
            elif c.decide(f_same(self.cols_, 1)): k = (k, 0)
            else: raise IndexError('insufficient indices for matrix')
        elif isinstance(k, SBMat): raise Unsupported('boolean index')
        else: k = (k, slice(None))
    if len(k) > 2: raise IndexError('too many indices for array')
    if len(k) == 1: k = (k[0], slice(None))
    if k[0] is Ellipsis: k = (slice(None), k[1])
    if k[1] is Ellipsis: k = (k[0], slice(None))
    a = _axis(k[0], self.rows_); b = _axis(k[1], self.cols_)
    if a[0] == 'int' and b[0] == 'int': return self.scal(a[1], b[1])
    if a[0] == 'map' and b[0] == 'map':
        if _fancy(k[0]) and _fancy(k[1]): raise Unsupported('double fancy index')
        return pruned(SMat.gen(a[1], b[1], lambda i, j: self.entry(a[2](i), b[2](j)), self.tag, self.ek))
    if a[0] == 'int':
        if self.tag == 'array': return SMat.gen(b[1], 1, lambda i, j: self.entry(a[1], b[2](i)), 'array', self.ek, 1)
        return SMat.gen(1, b[1], lambda i, j: self.entry(a[1], b[2](j)), self.tag, self.ek)
    if self.tag == 'array': return SMat.gen(a[1], 1, lambda i, j: self.entry(a[2](i), b[1]), 'array', self.ek, 1)
    return SMat.gen(a[1], 1, lambda i, j: self.entry(a[2](i), b[1]), self.tag, self.ek)
def _basic(x): return isinstance(x, (int, SInt, slice)) and not isinstance(x, bool)
def _item(self, k):
    r = _getitem(self, k)
    # a basic index of a numpy array gives a view: what is written into it goes to the array
    if isinstance(r, SMat) and r is not self and self.tag != 'mp' and all(_basic(x) for x in (k if isinstance(k, tuple) else (k,))): r.base = (self, k)
    return r
SMat.__getitem__ = _item
def _through(self, k, v):
    m, key = self.base
    key = key if isinstance(key, tuple) else (key,)
    full = lambda x: isinstance(x, slice) and x == slice(None)
    if self.ndim_ == 1 and m.ndim_ == 2 and not isinstance(k, tuple):
        if _basic(key[0]) and not isinstance(key[0], slice) and all(full(x) for x in key[1:]): m[key[0], k] = v; return
        if len(key) == 2 and full(key[0]): m[k, key[1]] = v; return
    raise Unsupported('write through a view')
def _range_of(k, n):
    """for an assignment: (count or None, cond(ip)->form, inverse map ip->ip)"""
    a = _axis(k, n)
    if a[0] == 'int': return None, (lambda i: f_same(i, a[1])), (lambda i: IP0)
    if isinstance(k, slice):
        lo, hi, st = slice_bounds(k, n)
        if st == 1: return hi - lo, (lambda i: f_and(f_le(lo, i), f_lt(i, hi))), (lambda i: i - lo)
        if st == -1: return hi - lo, (lambda i: f_and(f_le(lo, i), f_lt(i, hi))), (lambda i: hi - 1 - i)
        if n.isconst:
            idx = list(range(n.value))[lo.value:hi.value:st]
            return IP.const(len(idx)), (lambda i: f_or(*[f_same(i, x) for x in idx])), (lambda i: IP.const(idx.index(i.value)))
    raise Unsupported('assignment through a fancy index')
def _setitem(self, k, v):
    c = Ctx.cur
    if getattr(self, 'base', None) is not None: _through(self, k, v)
    if self.ndim_ == 1:
        if isinstance(k, tuple): k = k[0]
        n, cond, inv = _range_of(k, self.rows_)
        if n is None:
            val = self._cast(v)
            self.update(lambda i, j: cond(i), lambda i, j: val.ge)
            return
        b = coerce(v)
        if isinstance(b, SReal): self.update(lambda i, j: cond(i), lambda i, j: b.ge); return
        w = _ravel(b).copy()
        if not c.decide(f_same(w.rows_, n)):
            if c.decide(f_same(w.rows_, 1)): self.update(lambda i, j: cond(i), lambda i, j: w.entry(IP0)); return
            raise ValueError('could not broadcast input array')
        self.update(lambda i, j: cond(i), lambda i, j: w.entry(inv(i)))
        return
    if not isinstance(k, tuple):
        if self.tag == 'mp':
            if c.decide(f_same(self.rows_, 1)): k = (0, k)
            elif c.decide(f_same(self.cols_, 1)): k = (k, 0)
            else: raise IndexError('insufficient indices for matrix')
        else: k = (k, slice(None))
    na, ca, ia = _range_of(k[0], self.rows_)
    nb, cb, ib = _range_of(k[1], self.cols_)
    cond = lambda i, j: f_and(ca(i), cb(j))
    if na is None and nb is None:
        val = self._cast(v)
        self.update(cond, lambda i, j: val.ge)
        return
    b = coerce(v)
    if b is None: raise Unsupported('assignment of %r' % (v,))
    _widen(self, b.kind if isinstance(b, SReal) else b.ek)
    if isinstance(b, SReal): self.update(cond, lambda i, j: b.ge); return
    w = b.copy()
    hr, hc = (IP1 if na is None else na), (IP1 if nb is None else nb)
    if w.ndim_ == 1:
        if na is None: wr, wc, we = IP1, w.rows_, (lambda i, j: w.entry(j))
        elif nb is None and self.tag == 'array': wr, wc, we = w.rows_, IP1, (lambda i, j: w.entry(i))
        else: wr, wc, we = IP1, w.rows_, (lambda i, j: w.entry(j))
    else: wr, wc, we = w.rows_, w.cols_, w.entry
    if self.tag == 'array' and w.ndim_ == 2 and na is not None and nb is None:
        # target is 1-D of length na; source (1, na)
        if c.decide(f_same(wr, 1)) and c.decide(f_same(wc, hr)): wr, wc, we = wc, IP1, (lambda i, j: w.entry(IP0, i))
    er = ec = False
    if not c.decide(f_same(wr, hr)):
        if self.tag == 'mp': raise ValueError('Dimensions do not match')
        if not c.decide(f_same(wr, 1)): raise ValueError('could not broadcast input array')
        er = True
    if not c.decide(f_same(wc, hc)):
        if self.tag == 'mp': raise ValueError('Dimensions do not match')
        if not c.decide(f_same(wc, 1)): raise ValueError('could not broadcast input array')
        ec = True
    self.update(cond, lambda i, j: we(IP0 if er else ia(i), IP0 if ec else ib(j)))
SMat.__setitem__ = _setitem
def _widen(self, kind):
    """complex numbers stored in a matrix of reals"""
    if kind not in ('mpc', 'complex') or self.ek in ('mpc', 'complex'): return
    if self.tag == 'mp': self.ek = 'mpc'
    elif self.ek != 'sollya': raise Unsupported('complex stored in a matrix of %s' % self.ek)
def _cast(self, v):
    if isinstance(v, str): raise Unsupported('string stored in a matrix')
    if isinstance(v, SMat):
        if v.rows_ == IP1 and v.cols_ == IP1: return SReal(v.entry(IP0, IP0), v.ek)
        if Ctx.cur.entails(f_and(f_same(v.rows_, 1), f_same(v.cols_, 1))): return SReal(v.entry(IP0, IP0), v.ek)
        raise ValueError('setting an array element with a sequence')
    r = to_real(v)
    _widen(self, r.kind)
    if self.ek == 'float' and r.kind == 'mpf': r = SReal(dbl(r.ge), 'float')
    elif self.ek == 'int' and r.kind == 'float':
        raise Unsupported('real stored in an integer matrix')
    elif self.tag == 'mp' and r.kind == 'float': r = SReal(rnd_in(r.ge), 'mpf')
    return r
SMat._cast = _cast
class S3:
    """3-D array (numpy.ndarray) with symbolic sizes"""
    tag = 'array'
    def __init__(self, dims, st, ek='float'):
        self.dims, self.st, self.ek = tuple(IP.of(x) for x in dims), st, ek
        st.shape = self.dims
    @property
    def shape(self): return tuple(mk_int(x) for x in self.dims)
    ndim = 3
    @property
    def size(self): raise Unsupported('size of a 3-D array')
    def entry(self, i, j, k): return self.st.gen.subst({R_: IP.of(i), C_: IP.of(j), D_: IP.of(k)}).light()
    def copy(self): return S3(self.dims, Store(self.st.gen), self.ek)
    def conj(self): return S3(self.dims, Store(conj_ge(self.st.gen)), self.ek) if self.ek == 'complex' else self
    conjugate = conj
    def _key(self, k):
        if not isinstance(k, tuple): k = (k,)
        if Ellipsis in k:
            p = k.index(Ellipsis); k = k[:p] + (slice(None),) * (4 - len(k)) + k[p + 1:]
        if len(k) > 3: raise IndexError('too many indices for array')
        return k + (slice(None),) * (3 - len(k))
    def __getitem__(self, k):
        k = self._key(k)
        ax = [_range_of(x, n) for x, n in zip(k, self.dims)]
        at_ = []
        for x, n, a in zip(k, self.dims, ax):
            if a[0] is None: at_.append(_axis(x, n)[1])
            else:
                lo, hi, st = slice_bounds(x, n)
                if st not in (1, -1): raise Unsupported('slice with a step of a 3-D array')
                at_.append((lambda i, lo=lo: i + lo) if st == 1 else (lambda i, hi=hi: hi - 1 - i))
        sl = [q for q in range(3) if ax[q][0] is not None]
        def e(*ix):
            full = list(at_)
            for q, i in zip(sl, ix): full[q] = full[q](IP.of(i))
            return self.entry(*full)
        if not sl: return SReal(e(), self.ek)
        if len(sl) == 1: return SMat.gen(ax[sl[0]][0], 1, lambda i, j: e(i), 'array', self.ek, 1)
        if len(sl) == 2: return SMat.gen(ax[sl[0]][0], ax[sl[1]][0], e, 'array', self.ek)
        return S3([a[0] for a in ax], Store(e(IP.sym(R_), IP.sym(C_), IP.sym(D_))), self.ek)
    def __setitem__(self, k, v):
        c = Ctx.cur
        k = self._key(k)
        ax = [_range_of(x, n) for x, n in zip(k, self.dims)]
        ix = [IP.sym(x) for x in (R_, C_, D_)]
        w = f_and(*[a[1](i) for a, i in zip(ax, ix)])
        sl = [q for q in range(3) if ax[q][0] is not None]
        b = coerce(v)
        if b is None: raise Unsupported('assignment of %r' % (v,))
        kind = b.kind if isinstance(b, SReal) else b.ek
        one = conj = lambda g: g
        if kind in ('complex', 'mpc') and self.ek != 'complex': conj = real_part        # numpy keeps the real part
        elif kind not in ('float', 'int', 'complex'): raise Unsupported('%s stored in a 3-D array' % kind)
        if isinstance(b, SReal): val = b.ge
        else:
            b = b.copy()
            dst = [ax[q][0] for q in sl]
            src = [b.rows_] if b.ndim_ == 1 else [b.rows_, b.cols_]
            pos = [ax[q][2](ix[q]) for q in sl]
            while len(src) > len(dst) and c.decide(f_same(src[0], 1)): src = src[1:]; b = SMat.gen(b.cols_, 1, lambda i, j, b=b: b.entry(IP0, i), 'array', b.ek, 1)
            if len(src) > len(dst): raise ValueError('could not broadcast input array')
            pos = pos[len(dst) - len(src):]; dst = dst[len(dst) - len(src):]
            for q in range(len(src)):
                if c.decide(f_same(src[q], dst[q])): continue
                if not c.decide(f_same(src[q], 1)): raise ValueError('could not broadcast input array')
                pos[q] = IP0
            val = b.entry(*pos)
        val = conj(val)
        c.touch(self.st)
        self.st.version += 1
        for r in c.recorders: r.wrote(self.st, w)
        self.st.gen = ite(w, val, self.st.gen).light()
def dbl(g):
    """rounding to double precision"""
    g = g.light()
    if not g.terms: return g
    if g.isconst and g.constval == Fraction(float(g.constval)): return g
    if len(g.terms) == 1 and len(g.terms[0].at) == 1 and not g.terms[0].g and not g.terms[0].bv and g.terms[0].c == 1:
        a = g.terms[0].at[0]
        if a.name == 'dbl': return g
        if a.name == 'rd53': return dbl(a.args[0])      # rounding to nearest with 53 bits, then conversion to a double (no subnormal numbers)
    return GE.atom('dbl', g)
def rnd_in(g):
    """conversion of a double into a mpf: exact (assumption: working precision >= 53)"""
    return g
