from fixif.FxP.Constant import Constant

class FPF(object):
	def __init__(self, wl=None, msb=None, lsb=None, signed=True):
		self.msb, self.lsb, self.wl = msb, lsb, wl
