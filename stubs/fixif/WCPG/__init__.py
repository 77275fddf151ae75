"""Stand-in for the external fixif.WCPG dependency (not installed here).
Worst-case peak gain |D| + sum_k |C A^k B| by truncated summation; only used when the
real code is executed for replays, never by the deductive verifier."""
import numpy as np

def WCPG_ABCD(A, B, C, D, output_info=None, kmax=20000):
	A, B, C, D = [np.matrix(X, dtype=float) for X in (A, B, C, D)]
	W = abs(D)
	X = B
	for k in range(kmax):
		if X.size == 0:
			break
		W = W + abs(C * X)
		X = A * X
		if not np.isfinite(X).all() or abs(X).max() < 1e-300:
			break
	if output_info is not None:
		output_info['stub'] = True
	return np.matrix(W)

def WCPG_TF(num, den):
	raise NotImplementedError("stub")
