"""Stand-in for the external fixif.FxP.Constant (not installed here): round to nearest on wl bits."""
from fractions import Fraction
from math import floor

class Constant(object):
	def __init__(self, value, wl=None, signed=True, **_):
		self._value = value
		self._wl = wl
		v = Fraction(float(value))
		if v == 0:
			self._approx = 0.0
			return
		m = 0
		a = abs(v)
		while Fraction(2) ** m < a:
			m += 1
		while Fraction(2) ** (m - 1) >= a:
			m -= 1
		l = m + 1 - wl          # lsb = msb - wl + 1
		self._approx = float(floor(v / Fraction(2) ** l + Fraction(1, 2)) * Fraction(2) ** l)

	@property
	def value(self):
		return self._value

	@property
	def approx(self):
		return self._approx
