From af138fd4a6e8ac2acd82a79d902652ca75ef933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:08 +0000
Subject: [PATCH 01/44] fix: MPFMatrix.mul_exact uses the inner dimension
 (self.cols / other.rows)

---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..d4143fa 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From 501e85abe8a71f0fc4797cd3398ae0bb4c35d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:08 +0000
Subject: [PATCH 02/44] fix: format error/warning messages inside the call so
 the announced ValueError (or warning) is produced

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index d4143fa..a0b49c3 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i,j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From 2b2e00298f99c99bdeab2899b8dfffa29ced1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:08 +0000
Subject: [PATCH 03/44] fix: import sollya where it is used (NameError
 otherwise)

---
 fixif/LTI/dSSmp.py                       | 2 ++
 fixif/LTI/dTFmp.py                       | 1 +
 fixif/func_aux/mpf_matrix_to_sollya.py   | 2 ++
 fixif/func_aux/sollya_matrix_to_numpy.py | 2 ++
 4 files changed, 7 insertions(+)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..569607e 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -374,6 +374,8 @@ class dSSmp(object):
 
 	def simulate_rounded(self, u, prec=53):
 
+		import sollya
+
 		# suppose u is a mpmath matrix
 		xk = mpmath.mp.zeros(self._n, 1)
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..e1244e0 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -149,6 +149,7 @@ class dTFmp(object):
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
 		if not self._sollya:
+			import sollya
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
 			num = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(tf_num_sollya)))
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index a56658b..ab85a36 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -34,6 +34,8 @@ def mpf_matrix_to_sollya(A):
 
 	(Y, N) = mpf_matrix_get_representation(A)
 
+	import sollya
+
 	m = A.rows
 	n = A.cols
 	S = list()
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..5981fc5 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -18,6 +18,8 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
+
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From 80d4f540a18381ac8ba32cd3381b6bc3aafb2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:30 +0000
Subject: [PATCH 04/44] fix: dTFmp normalises both polynomials by a[0] with
 doubled precision, in its own equal-length copies

---
 fixif/LTI/dTFmp.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index e1244e0..7055b0f 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -48,16 +48,27 @@ class dTFmp(object):
 			raise ValueError('Cannot create a dTFmp pbject: incorrect sizes')
 
 
-		n = a.rows
-		if a[0, 0] != mpmath.mp.one:
+		# numerator and denominator are stored in new matrices of the same length (padded with zeros)
+		n = max(a.rows, b.rows)
+		num = mpmath.mp.zeros(n, 1)
+		den = mpmath.mp.zeros(n, 1)
+		for i in range(0, b.rows):
+			num[i, 0] = b[i, 0]
+		for i in range(0, a.rows):
+			den[i, 0] = a[i, 0]
+
+		a0 = a[0, 0]
+		if a0 == mpmath.mp.zero:
+			raise ValueError('Cannot create a dTFmp object: the first coefficient of the denominator is zero')
+		if a0 != mpmath.mp.one:
 			for i in range(0, n):
 				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+				den[i, 0] = mpmath.fdiv(den[i, 0], a0, prec=2 * max(mpmath.mp.prec, den[i, 0]._mpf_[3], a0._mpf_[3]))
+				num[i, 0] = mpmath.fdiv(num[i, 0], a0, prec=2 * max(mpmath.mp.prec, num[i, 0]._mpf_[3], a0._mpf_[3]))
 
 		self._order = n - 1
-		self._num = b
-		self._den = a
+		self._num = num
+		self._den = den
 
 		# cached sollya numerator and denominator
 		self._sollya = None
-- 
2.43.0


From 585cbdef707f509947f51108f3e93f35d4cd6cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:30 +0000
Subject: [PATCH 05/44] fix: dSSmp.simulate takes the initial state into
 account and rounds the state at each step (exact=False)

---
 fixif/LTI/dSSmp.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 569607e..f1b9ab7 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -431,14 +431,15 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
-				if isinstance(x0, numpy.matrix):
-					xk = python2mpf_matrix(x0)
-				else:
-					raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
-
-		if xk.rows != self._n:
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0.copy()
+			elif isinstance(x0, numpy.matrix):
+				xk = python2mpf_matrix(x0)
+			else:
+				raise ValueError('Cannot perform simulation: initial state specified in incorrect format')
+
+		if xk.rows != self._n or xk.cols != 1:
 			raise ValueError('Cannot perform simulation: initial state is of incorrect size')
 
 		T = u.cols
@@ -462,8 +463,8 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				for j in range(0, xk.rows):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=53, rounding='n')
 
 
 		return yk
-- 
2.43.0


From ac3145fc50851c95bb683e0b153b091e417ee8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:30 +0000
Subject: [PATCH 06/44] fix: exact negation in dSSmp.__sub__ and dTFmp.to_dSSmp
 (unary minus rounds to the working precision)

---
 fixif/LTI/dSSmp.py | 2 +-
 fixif/LTI/dTFmp.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index f1b9ab7..b774f98 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 7055b0f..29d27d6 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -135,7 +135,8 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(0, N - 1):
+			A[0, i] = mpmath.fneg(self.den[i + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-- 
2.43.0


From 93d2b0c81dfcba5ade5142f156f739d5b317f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:20 +0000
Subject: [PATCH 07/44] fix: dTF arithmetic keeps the null first coefficients
 and aligns the powers of z^-1

---
 fixif/LTI/dTF.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..df63fdd 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,12 +17,23 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
+from numpy import matrix as mat, convolve, concatenate
 from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
 
+def polymul(p, q):
+	"""product of two polynomials in z^-1 (numpy.polymul drops the first coefficients when they are null)"""
+	return convolve(p, q)
+
+
+def polyadd(p, q):
+	"""sum of two polynomials in z^-1 (numpy.polyadd aligns the last coefficients, not the first ones)"""
+	n = max(len(p), len(q))
+	return concatenate((p, zeros(n - len(p)))) + concatenate((q, zeros(n - len(q))))
+
+
 class dTF(object):
 
 	def __init__(self, num, den):
-- 
2.43.0


From 8c2bac286e725a7c935291bd99cae1be2a12ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:20 +0000
Subject: [PATCH 08/44] fix: dTF.__rsub__ rejects the unsupported types
 (instead of returning None)

---
 fixif/LTI/dTF.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index df63fdd..1d0ea39 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -140,6 +140,7 @@ class dTF(object):
 			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
 			denom = polymul(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
+		raise ValueError("Cannot substract a dTF from a %s", type(other))
 
 
 	def to_dTFmp(self):
-- 
2.43.0


From dc0df12c19ba628dcedc23c273692d398638542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:20 +0000
Subject: [PATCH 09/44] fix: dTF completes the shortest of num and den with
 zeros (order, to_dSS and the structures rely on it)

---
 fixif/LTI/dTF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 1d0ea39..cf1f00a 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -56,11 +56,10 @@ class dTF(object):
 			self._num = num/den[0, 0]
 			self._den = den/den[0, 0]
 
-		# filter order
-		# if den.shape!=num.shape:
-		# 	raise ValueError( 'Numerator and denomintator must have same length !')
-
-		self._order = num.shape[1]-1
+		# filter order (numerator and denominator must have the same length: the shortest is completed with zeros)
+		self._order = max(num.shape[1], den.shape[1])-1
+		self._num = mat(r_['1', self._num, zeros((1, self._order+1-num.shape[1]))])
+		self._den = mat(r_['1', self._den, zeros((1, self._order+1-den.shape[1]))])
 
 		# cached sollya numerator and denominator
 		self._sollya = None
-- 
2.43.0


From 2ff0c819cf9c0dc4f3b34fddc5553773d00f6582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 10/44] fix: SIF.dJ returns the dJ that was given (dZ does not
 store -dJ)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..1b5a706 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -367,7 +367,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From 7b8e6031d09db7a69b6ef15d94719fcb5b1ca341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 11/44] fix: SIF drops the cached Hu, Hepsilon and Hzeta when Z
 (or J to S) changes

---
 fixif/SIF/SIF.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 1b5a706..b0b7678 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -148,11 +148,6 @@ class SIF(SIF_sensibility):
 		self._dZ = None
 		self._build_dZ(dJtodS)
 
-		# extra state-space associated (computed only the 1st time they are required)
-		self._Hu = None
-		self._Hepsilon = None
-		self._Hzeta = None
-
 
 	def _build_Z(self, JtoS):
 		"""
@@ -244,6 +239,10 @@ class SIF(SIF_sensibility):
 
 
 	def _build_fromZ(self):
+		# the associated systems depend on Z, they have to be computed again (when required)
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
 
-- 
2.43.0


From b9f6a6891529f377be0c4613bfb06435769b7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 12/44] fix: SIF.P setter rebuilds M1, M2, N1 and N2 like the
 other setters

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index b0b7678..bd39c53 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -434,7 +434,7 @@ class SIF(SIF_sensibility):
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From d31659d79f05b2b75428b8ede2ba7a850eedc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 13/44] fix: Realization.quantize (numpy.float no longer
 exists; do not share the generated C function)

---
 fixif/SIF/Realization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..fc9580d 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -154,7 +154,8 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		R._Cdouble = None		# the generated C function is the one of self
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
 		return R
 
-- 
2.43.0


From 9bf9f0adfdc2af6bb3e85307397e97405363d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 14/44] fix: optimalUniformWL and optimalWL call
 computeNaiveMSB and accept negative MSBs

---
 fixif/SIF/Realization_FxP.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..ecb89e2 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -115,12 +115,12 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2.0, m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
@@ -150,12 +150,12 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2.0, m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From b11b60911b5c437f899ef089d1c136d199011e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 15/44] fix: generated C code with one state, and its call
 (restype, MIMO systems)

---
 fixif/SIF/Realization_implementation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..a6c2c80 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -83,7 +83,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = genCvarNames('xk', n) if n > 1 else ['xk[0]'] * n		# xk is always a pointer
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
@@ -173,6 +173,7 @@ class R_implementation:
 
 		# use ctype
 		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+		self._Cdouble.restype = c_double if self.p == 1 else None
 		if self.p == 1:
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
 		else:
@@ -204,7 +205,13 @@ class R_implementation:
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
+		for i in range(N):
+			ui = numpy.array(u[:, i], dtype=float)
+			pu = ui[0, 0] if self._q == 1 else ui.ctypes.data_as(POINTER(c_double))
+			if self._p == 1:
+				y[0, i] = self._Cdouble(pu, px)
+			else:
+				yi = zeros((self._p, 1))
+				self._Cdouble(yi.ctypes.data_as(POINTER(c_double)), pu, px)
+				y[:, i] = yi[:, 0]
 		return y
\ No newline at end of file
-- 
2.43.0


From 4f4c8a293ed607acf94302154b353d5817c7eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 16/44] fix: dSS.__mul__ checks the sizes that its formula
 (self after other) requires

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..4553e13 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -528,8 +528,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: first state space should have same number of inputs as second state number of outputs")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 9dca80affa4efe5b926431b096cc5aabbc8585d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 17/44] fix: dSS.similarity drops the gramians of the former
 basis

---
 fixif/LTI/dSS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 4553e13..1ac8dbd 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -445,7 +445,9 @@ class dSS(object):
 		self._A = Tinv * self._A * T
 		self._B = Tinv * self._B
 		self._C = self._C * T
-		# D is unchanged
+		# D is unchanged (and so are the H2norm, the DC-gain and the WCPG), but the gramians depend on the basis
+		self._Wo = None
+		self._Wc = None
 
 	# ======================================================================================
 	def _check_dimensions(self):
-- 
2.43.0


From 69ff3cb72462f2c7791c3c2b971d234b92f06921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:20 +0000
Subject: [PATCH 18/44] fix: rhoDFII uses gamma (not Delta) in P when the
 Deltas are all equal to 1

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..7bdec85 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -163,7 +163,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 6c6da28c7c3d579d903bbdb1b17277a70c07f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:20 +0000
Subject: [PATCH 19/44] fix: Band - gain keeps a stop band whose gain is 0 dB

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..a0a0e73 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
-- 
2.43.0


From dbb8cf2b6f88f373d3df345c313bd53df214b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:20 +0000
Subject: [PATCH 20/44] fix: Gabarit.to_dTF compares the gains of the two pass
 bands

---
 fixif/LTI/Gabarit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index a0a0e73..9e63d58 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains[0] != pass2b.passGains[0]:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From 2dbd7023bd11825d57dc9108174d51a00fa58a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:56 +0000
Subject: [PATCH 21/44] fix: Simulink expandeqgain adds the terms of the same
 block (and does not change the dict it iterates on)

---
 fixif/Structures/Simulink/diagram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..003e399 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -274,14 +274,15 @@ class System(object):
 		# ? keep cascading gain block : test if the current block is a sum
 		# 								and create also an inter var for upstream gain block
 		for eq in self.equations:
-			for eqin in eq.termes:
+			for eqin in list(eq.termes):	# a copy of the dict key / dict is changing during iteration
 				if self.blocks[eqin].type == 'Gain':
 					oldgain = eq.termes[eqin]	
 					del eq.termes[eqin] 
 
 					gaineq = self.getequation(eqin)
 					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+						# the same block may also be an input of eq (directly, or through another gain)
+						eq.termes[gin] = eq.termes.get(gin, 0.0) + gaineq.termes[gin] * oldgain
 
 
 	def isequationused(self,eq): 
-- 
2.43.0


From 8fa858681b2253bfbc3a313e00ce923867f02559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:56 +0000
Subject: [PATCH 22/44] fix: Simulink summerge adds the terms of the same block

---
 fixif/Structures/Simulink/diagram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 003e399..6c54199 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -254,12 +254,12 @@ class System(object):
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
 					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
 						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
 						del eq.termes[inp]
+						for inp2 in d:	# the same block may already be an input of eq
+							eq.termes[inp2] = eq.termes.get(inp2, 0.0) + d[inp2]
 
 						subequa = self.getequation(inp)
 						self.equations.remove(subequa)
-- 
2.43.0


From 328d176c664cab65036cd0a480625904d2706c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:56 +0000
Subject: [PATCH 23/44] fix: Simulink Sif.build stores numbers (not strings) in
 J

---
 fixif/Structures/Simulink/sif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..5efcd82 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -134,7 +134,7 @@ class Sif(object):
 			elif eq.out in t: # intermediate eq
 				for block,coeff in eq.termes.items() : # scan current equation inputs
 					if block in t:
-						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
+						self.J[t.index(eq.out)] [t.index(block)] = 0-coeff
 					elif block in x:
 						self.M[t.index(eq.out)] [x.index(block)] = coeff
 					elif block in u:
-- 
2.43.0


From 8309af0b55844f2ac7102eec7975ed5f3246bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 24/44] fix: SoP.toAlgoStr displays integer coefficients (int
 has no hex method)

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..d6142e6 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -69,7 +69,7 @@ class SoP:
 			elif co == -1:
 				dp.append('-' + var)
 			elif co:
-				dp.append((coefFormat % (co,) if coefFormat else co.hex()) + '*' + var)
+				dp.append((coefFormat % (co,) if coefFormat else float(co).hex()) + '*' + var)
 
 		S = " + ".join(dp)
 		if S == "":
-- 
2.43.0


From 6b88f5623ba5c7802539d9b9fbe903a9ae037a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 25/44] fix: runCdouble used the C code of the first
 realization for all the next ones

---
 fixif/SIF/Realization_implementation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index a6c2c80..e7dd94b 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -25,7 +25,9 @@ import numpy
 from inspect import getfile
 from fixif import SIF
 from fixif.SoP import SoP
-from os.path import dirname
+from os.path import dirname, basename
+from os import close, remove
+from tempfile import mkstemp
 FIXIF_SIF_PATH = dirname(getfile(SIF))
 
 GENERATED_PATH = FIXIF_SIF_PATH + '/../generated/code/'
@@ -163,8 +165,10 @@ class R_implementation:
 
 		print("Compiling runC.c")
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
+		# compile it (in a library with its own name: a library that has the name of a loaded library is not loaded again)
+		fd, libName = mkstemp(prefix='runC', suffix='.so', dir=GENERATED_PATH)
+		close(fd)
+		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o " + basename(libName) + " runC.c ", stderr=PIPE, shell=True)
 		# check the output and print it
 		line = 'non-empty'
 		while line:
@@ -172,7 +176,8 @@ class R_implementation:
 			print(line[:-1])		# TODO: log it somewhere ?
 
 		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+		self._Cdouble = CDLL(libName).implementCdouble
+		remove(libName)
 		self._Cdouble.restype = c_double if self.p == 1 else None
 		if self.p == 1:
 			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
-- 
2.43.0


From 3d66afc1f5bd545b648a0f498c640a8213c58718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 26/44] fix: texts with surnames and without time are also
 refused when states have surnames with time

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From c5ee285d04546e345fd1733a9b0fdb0159ecc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 27/44] fix: generateNames accepts an empty list of surnames
 for no variable

---
 fixif/SoP/VarName.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 293c008..5e47b7c 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -114,7 +114,7 @@ def generateNames(baseName, nbVar, surnames=None):
 	# initial values when surnames is None
 	if surnames is None:
 		surnames = [(None, i+1 if nbVar > 1 else None, 0) for i in range(nbVar)]
-	elif isinstance(surnames[0], str):		# simple surnames, without index and shift
+	elif nbVar > 0 and isinstance(surnames[0], str):		# simple surnames, without index and shift
 		surnames = [(s, None, 0) for s in surnames]
 
 	return [VarName(baseName, i + 1 if nbVar > 1 else None, sn, ind, sh) for i, (sn, ind, sh) in enumerate(surnames)]
-- 
2.43.0


From 24928e67308d5d6cd97adfd533d58aca5ddc10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:20 +0000
Subject: [PATCH 28/44] fix: a refused conversion of a dSSmp to dTFmp does not
 change the working precision

---
 fixif/LTI/dSSmp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index b774f98..a7e61ba 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -290,14 +290,14 @@ class dSSmp(object):
 		"""
 		# converting the dSS matrices to mp type
 
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
+		oldprec = mpmath.mp.prec
+		mpmath.mp.prec = prec
+
 		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
 		Cmp = self.C * V
 		Vinv = mpmath.mp.inverse(V)
-- 
2.43.0


From 558f9151aa7b81e2b0034fae5f25c43660ce3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 29/44] fix: product of one monic factor, and transfer function
 of a first order dSSmp

---
 fixif/func_aux/mp_poly_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..1072912 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,7 +27,7 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
 	if j == -1:
 		c = mp.matrix([1, p[0]])
@@ -35,7 +35,7 @@ def mp_poly_product(p, j=-1):
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 	else:
 		if j == 0:
-			c = mp.matrix([1, p[1]])
+			c = mp.matrix([1, p[1]]) if degP > 1 else mp.matrix([1])
 			for i in range(2, degP):
 				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 		else:
-- 
2.43.0


From bbe95d90b7f0648ef3cef17ac0509a7ca211b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 30/44] fix: the AMPL data of a matrix with one row was the one
 of a vector, with the same index for all its values

---
 fixif/SIF/Realization_FxP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index ecb89e2..21eb587 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -29,8 +29,8 @@ def generateAMPLParam(name, val, format="%f"):
 	"""
 	if isinstance(val, int):
 		return "param %s := %d;" % (name, val)
-	if val.shape[0] == 1 or val.shape[1] == 1:
-		# 1d vector
+	if val.shape[1] == 1:
+		# 1d vector (a column; a matrix with only one row is still a 2d array for AMPL)
 		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
-- 
2.43.0


From e71de4dd0c5dd751ab5843e17caca9e6507df0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 31/44] fix: the AMPL data was written with 6 decimals only
 (small coefficients and bounds became zero)

---
 fixif/SIF/Realization_FxP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 21eb587..61304db 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,7 +19,7 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%.17g"):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
-- 
2.43.0


From b52d960d669c495ead14b965f03f4145effce5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 32/44] fix: Simulink Sif.build skipped outputs used by other
 blocks, changed their order, and could give them the SID of another block

---
 fixif/Structures/Simulink/sif.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 5efcd82..3f94be4 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -70,12 +70,12 @@ class Sif(object):
 		def get_new_sid(sids):
 			nb = len(sids) + 2
 			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
+				if str(tsid) not in sids:	# the SIDs of the blocks are strings
+					sid = str(tsid)
 			sids.append(sid) #update local blocks list
-			return str(sid) 
+			return sid
 		# correct equations
-		for outb in y:
+		for outb in list(y):	# a copy: y is changing during iteration
 			for eq in system.equations:
 				feedback = False
 				for block in eq.termes:
@@ -84,14 +84,13 @@ class Sif(object):
 						break	
 				if feedback:
 					t.append(outb)
-					y.remove(outb)
 					new_out = get_new_sid(bsids)
 					#bsids.append(new_out) #update done in get_new_sid()
 					# add a new equation
 					neweq=Equation(new_out)
 					neweq.termes[outb] = 1.0
 					system.equations.append(neweq)
-					y.append(new_out)
+					y[y.index(outb)] = new_out	# the order of the outputs is kept
 					#correct matrix size
 					self.l +=1
 					def mat( a, b):
-- 
2.43.0


From 49f35b7fae3997d869316486424d8f3c5426d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 33/44] fix: Simulink Sif.reorganize used sys without importing
 it (algebraic loop)

---
 fixif/Structures/Simulink/sif.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3f94be4..77f8277 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,6 +14,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
+import sys
 from fixif.Structures.Simulink.diagram import Equation
 
 class Sif(object):
-- 
2.43.0


From a3706b94f011cc24db0bad61486343a47f276673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 34/44] fix: importSimulink failed on diagrams without
 intermediate variable or without delay

---
 fixif/Structures/Simulink/Simulink.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..5a13021 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -86,10 +86,14 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
+    # the size is given, since some matrices may have no row (and no column)
+    def tomat(M, rows, cols):
+        return mat(M, dtype='float').reshape(rows, cols)
+    l = mysif.l  # build may have added intermediate variables
     return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+                       (tomat(mysif.J, l, l), tomat(mysif.K, n, l), tomat(mysif.L, p, l),
+                        tomat(mysif.M, l, n), tomat(mysif.N, l, m), tomat(mysif.P, n, n),
+                        tomat(mysif.Q, n, m), tomat(mysif.R, p, n), tomat(mysif.S, p, m)),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
-- 
2.43.0


From 7bdb9a04918c5356f109273a1fa01402ab3f2dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 35/44] fix: the sensitivities are taken with respect to the
 variables t, x and u that the coefficients of Z multiply

---
 fixif/SIF/SIF_sensibility.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..27f49a2 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -10,7 +10,7 @@ __status__ = "Beta"
 
 
 from fixif.LTI import dSS
-from numpy import zeros, matrix as mat, multiply, conj, transpose, real, diag
+from numpy import zeros, matrix as mat, multiply, conj, transpose, real, diag, r_, eye
 from numpy.linalg import norm, eig, inv
 
 
@@ -112,13 +112,23 @@ class SIF_sensibility:
 	This class adds methods to compute the sensibility (wrt Z)
 	"""
 
+	def _toVariables(self):
+		"""Returns the matrices N1 and N2 such that the variables (the columns of Z) are [t(k+1); x(k); u(k)] = N1*x(k) + N2*u(k)
+		(self._N1 and self._N2 give t(k+1), x(k+1) and y(k))
+		"""
+		N1 = mat(r_[self.invJ * self.M, eye(self._n), zeros((self._q, self._n))])
+		N2 = mat(r_[self.invJ * self.N, zeros((self._n, self._q)), eye(self._q)])
+		return N1, N2
+
+
 	def dTFsensitivity(self):
 		"""Compute the transfer function sensitivity measure and matrix
 		Returns
 			- M: tf sensitivity measure
 			- MX: tf sensitivity matrix
 		"""
-		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, self._N1, self._N2), self.dZ)
+		N1, N2 = self._toVariables()
+		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, N1, N2), self.dZ)
 		#TODO: check if the object is a controller, and use M1bar, M2bar, N1bar and N2bar instead of M1, M2, N1 and N2
 
 
@@ -132,7 +142,7 @@ class SIF_sensibility:
 			- MXk: pole sensitivity matrices for each pole
 		"""
 
-		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._N1, self.Z.shape, moduli)
+		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._toVariables()[0], self.Z.shape, moduli)
 
 		#TODO: check if the object is a controller, and then
 		# Abar, Bbar, Cbar, Dbar, M1bar, M2bar, N1bar, N2bar = calc_plantSIF(R, plant)
-- 
2.43.0


From eeab8e278d583ed4b6ae25bd4b54e0e8b99f34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 36/44] fix: the sensitivities of complex poles keep their
 imaginary part

---
 fixif/SIF/SIF_sensibility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 27f49a2..b660e99 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -75,7 +75,8 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	# (complex when it is not the sensitivity of the moduli)
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli == 1 else complex)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
 		if moduli == 1:
-- 
2.43.0


From 245c831da6305d184166eb68891076f0c2eab841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 37/44] fix: random_dSS draws its masks again when they are
 null, not when they are full

The comments say "retry if we get all zeros" but the masks were drawn again
when they masked nothing: random_dSS(1, p, 1) always gave B = 0 and
pBCmask=1 never ended.
---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 1ac8dbd..03043db 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -900,12 +900,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any():  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any():  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -914,7 +914,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any():  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From 3d18878d4cc27ebb51ef7a654e553473582563da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 38/44] fix: random objects accept the seed 0 and no seed at
 all

The seed 0 was ignored (and random_Filter lost its name), and
random_Butter/random_Elliptic without seed (or iter_random_... with
seeded=False) raised a TypeError on the name.
---
 fixif/LTI/Butter.py   | 4 ++--
 fixif/LTI/Elliptic.py | 4 ++--
 fixif/LTI/Filter.py   | 2 +-
 fixif/LTI/Gabarit.py  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..7151f96 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -111,4 +111,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 0:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..fc5a677 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' if seed is None else 'Elliptic-random-%d' % seed)
 
 
 
diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 9e63d58..78396fd 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From c4c66abcc7678d4b77ada92ae5c0299a8ff857af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 39/44] fix: random_Butter with onlyEven gives even orders, not
 odd ones

---
 fixif/LTI/Butter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 7151f96..30edd17 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -108,7 +108,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
 	order = randint(*n)
-	if onlyEven and order % 2 == 0:
+	if onlyEven and order % 2 == 1:
 		order += 1
 
 	return Butter(order, W, form, name='Butterworth-random' if seed is None else 'Butterworth-random-%d' % seed)
-- 
2.43.0


From ea82b0a98c5812396fa78257d1c93fd901b1c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 40/44] fix: random_dTF and random_dTFmp give transfer
 functions of the order asked

An order n needs n+1 coefficients; they gave the order n-1.
---
 fixif/LTI/dTF.py   | 4 ++--
 fixif/LTI/dTFmp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index cf1f00a..96533ea 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -292,8 +292,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n + 1))
+	den = mat(rand(1, n + 1))
 	return dTF(num, den)
 
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 29d27d6..20bc470 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -204,8 +204,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n + 1))
+	den = numpy.matrix(rand(1, n + 1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From 28a324031e682dd9faf1c7a137132527c3429b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 41/44] fix: iter_random_dSS accepts p=1 or q=1, as documented

With stable=True, or with only one of them, randint(*1) raised a TypeError.
---
 fixif/LTI/dSS.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 03043db..51ce230 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -788,15 +788,11 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 	"""
 	for i in range(number):
 		if stable:
-			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
+			yield random_dSS(randint(*n), 1 if p == 1 else randint(*p), 1 if q == 1 else randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
 			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
+			pp = 1 if p == 1 else randint(*p)
+			qq = 1 if q == 1 else randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From f3bd87d3bb8429e553b2b72039b540634e6afeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 42/44] fix: LGS and LCW realizations of second order filters

The list of the gammas started with one more value than the n-1 that are
used when n = 2, so that the last one (the right one) was ignored.
---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..7fc39af 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -110,7 +110,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -135,7 +135,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
-- 
2.43.0


From d814d90e2fa343a192d60dfef4a4194c8506e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 43/44] fix: LGS and LCW do not accept first order filters

They have no such form (makeRealization raised an IndexError, as did
Filter.iterAllRealizations).
---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 7fc39af..7909f6e 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -369,9 +369,9 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO, stable and of order at least 2 (these forms have n-1 stages)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 1
 
 
 # build the Direct Form I
-- 
2.43.0


From 28679b5435ef3fc0ccc27911a51c34dc21468837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 44/44] fix: dSS.simplify keeps the input-output relationship
 (a state whose row is null in A only is not removed), and always ends

---
 fixif/LTI/dSS.py | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 51ce230..b517daa 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -572,48 +572,38 @@ class dSS(object):
 	def simplify(self):
 		"""
 		This function tries to simplify the state-space msystem.
-		It may occur that matrix A contains one or several rows that contain only zeros.
-		In this case we have that the corresponding state-space variable depends only on
-		the term B[i,:]*u(k):
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = B[i,:]*u(k)
-		...
-		y(k) = C * x(k) + D * u(k)
-
-		Then, we can re-write
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
+		It may occur that matrices A and B both contain one or several rows (the same ones) that contain only zeros.
+		In this case the corresponding state-space variables are always null (the initial state is null)
 		xi(k+1) = 0
-		...
-		y(k) = C * x(k) + C[:,i]*(B[i,:]*u(k)) + D * u(k)
 
-		or in matrix form:
+		So, these states can be removed:
 
 			A' is the matrix A with column i and row i deleted
+			B' is the matrix B with row i deleted
 			C' is the matrix C with column i deleted
 
-			then,
-
-			x(k+1) = A' * x(k) + B * u(k)
-			y(k)   = C' * x(k) + (D + C[:, i] * B[i,:]) * u(k)
+		(a row of zeros in A only is not enough: xi(k+1) = B[i,:]*u(k) is the previous input, not the current one)
 
 		Returns
 		-------
-
+		a state-space with the same input-output relationship (and at least one state)
 		"""
 
-
-
-
 		newS = self
 
 		while newS.n > numpy.linalg.matrix_rank(newS._A):
 			l = list()
 			for i in range(0, newS.n):
-				if numpy.count_nonzero(newS._A[i, :]) == 0:
+				if numpy.count_nonzero(newS._A[i, :]) == 0 and numpy.count_nonzero(newS._B[i, :]) == 0:
 					l.append(i)
 
+			# keep at least one state
+			if len(l) == newS.n:
+				l.pop()
+			# nothing (more) to remove
+			if len(l) == 0:
+				break
+
 			A = newS._A
 			B = newS._B
 			C = newS._C
@@ -626,8 +616,6 @@ class dSS(object):
 				A = numpy.delete(A, index, 1)
 				A = numpy.delete(A, index, 0)
 
-				D = D + C[:, index] * B[index, :]
-
 				C = numpy.delete(C, index, 1)
 
 				B = numpy.delete(B, index, 0)
-- 
2.43.0

