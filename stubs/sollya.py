"""Stand-in for the external sollya bindings (not installed here): exact rationals."""
from fractions import Fraction

RN, RU, RD = 'RN', 'RU', 'RD'

class SollyaObject(object):
	def __init__(self, v):
		if isinstance(v, SollyaObject):
			v = v.v
		self.v = v if isinstance(v, Fraction) else Fraction(v)
	@staticmethod
	def _c(o):
		return o.v if isinstance(o, SollyaObject) else Fraction(o)
	def __mul__(self, o): return NotImplemented if isinstance(o, Poly) else SollyaObject(self.v * self._c(o))
	__rmul__ = __mul__
	def __add__(self, o): return NotImplemented if isinstance(o, Poly) else SollyaObject(self.v + self._c(o))
	__radd__ = __add__
	def __sub__(self, o): return NotImplemented if isinstance(o, Poly) else SollyaObject(self.v - self._c(o))
	def __rsub__(self, o): return SollyaObject(self._c(o) - self.v)
	def __neg__(self): return SollyaObject(-self.v)
	def __truediv__(self, o): return SollyaObject(self.v / self._c(o))
	def __pow__(self, o):
		e = self._c(o)
		assert e.denominator == 1
		return SollyaObject(self.v ** int(e))
	def __rpow__(self, o):
		assert self.v.denominator == 1
		return SollyaObject(self._c(o) ** int(self.v))
	def __eq__(self, o): return self.v == self._c(o)
	def __hash__(self): return hash(self.v)
	def __lt__(self, o): return self.v < self._c(o)
	def __gt__(self, o): return self.v > self._c(o)
	def __le__(self, o): return self.v <= self._c(o)
	def __ge__(self, o): return self.v >= self._c(o)
	def __float__(self): return float(self.v)
	def __repr__(self): return 'S(%s)' % self.v

def round(x, prec, mode=RN):
	# exact for every value that fits in prec bits, nearest double otherwise
	x = SollyaObject(x)
	return SollyaObject(Fraction(float(x.v))) if prec == 53 else x

def max(a, b):
	a, b = SollyaObject(a), SollyaObject(b)
	return a if a.v >= b.v else b


class Poly(object):
	"""polynomials: exact coefficients, by increasing degrees"""
	def __init__(self, c):
		self.c = list(c)
	@staticmethod
	def of(o): return o.c if isinstance(o, Poly) else [SollyaObject(o).v]
	def coefficients(self):
		c = list(self.c)
		while c and c[-1] == 0: c.pop()
		return c
	def __add__(self, o):
		a, b = self.c, self.of(o)
		k = len(a) if len(a) > len(b) else len(b)
		a, b = [x + [Fraction(0)] * (k - len(x)) for x in (list(a), list(b))]
		return Poly([x + y for x, y in zip(a, b)])
	__radd__ = __add__
	def __mul__(self, o):
		a, b = self.c, self.of(o)
		r = [Fraction(0)] * (len(a) + len(b))
		for i, x in enumerate(a):
			for j, y in enumerate(b): r[i + j] += x * y
		return Poly(r)
	__rmul__ = __mul__
	def __neg__(self): return Poly([-x for x in self.c])
	def __sub__(self, o): return self + (-Poly(self.of(o)))
	def __rsub__(self, o): return Poly(self.of(o)) - self
	def __pow__(self, e):
		r = Poly([Fraction(1)])
		for _ in range(int(SollyaObject(e).v)): r = r * self
		return r
	def __repr__(self): return 'P(%s)' % self.coefficients()

_x_ = Poly([Fraction(0), Fraction(1)])
def horner(p):
	return p if isinstance(p, Poly) else Poly(Poly.of(p))
