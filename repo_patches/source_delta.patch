From a95d581c3145e6f8915d80a2f96d8631ce678c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 01/72] fix: adjoint of the zero padded FFT crops along the
 operator axis

---
 src/cr/sparse/_src/lop/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..d766547 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -42,7 +42,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return jnp.take(x, jnp.arange(m), axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +51,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return jnp.take(x, jnp.arange(m), axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From 7e521b8aaa56b837c2d13897d36765b9f8ef2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 02/72] fix: adjoint of N-D convolution uses the conjugate of a
 complex filter

---
 src/cr/sparse/_src/lop/conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..b64cf24 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,8 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    # the adjoint is the correlation with the conjugate of h
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From eebcec38681b1fde3ece5d3e1526e061e52a371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 03/72] fix: dwt2D pads and crops along its own axes for N-D
 data and swapped axes

---
 src/cr/sparse/_src/lop/dwt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index 5527537..44e3a82 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -206,7 +206,10 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
-    pad = ((0, hh-h), (0, ww-w))
+    pad = [(0, 0) for _ in shape]
+    pad[axes[0]] = (0, hh-h)
+    pad[axes[1]] = (0, ww-w)
+    crop = tuple(slice(0, s) for s in shape)
 
     out_shape = list(shape)
     out_shape[axes[0]] = hh
@@ -219,7 +222,7 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     def trans(coefs):
         x = waverec2(coefs, rec_lo, rec_hi, level, axes)
-        return x[:h, :w]
+        return x[crop]
 
     if basis:
         # Return the wavelet basis
-- 
2.43.0


From bab5ee44e6bb77e9562b0d174e5a2dd3f25e4eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 04/72] fix: adjoint of the centered first derivative scales by
 1/dx and keeps complex data

---
 src/cr/sparse/_src/lop/calculus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..38d8b11 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,9 +45,10 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
-    y = y.at[0:-2].add(-0.5*x[1:-1])
-    y = y.at[2:].add(0.5*x[1:-1])
+    diffs = 0.5 * x[1:-1] / dx
+    y = jnp.zeros(x.shape, dtype=diffs.dtype)
+    y = y.at[0:-2].add(-diffs)
+    y = y.at[2:].add(diffs)
     return y
 
 
-- 
2.43.0


From 90a531bf25a01e35324e2fbb5994e03cb6d6ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:15 +0000
Subject: [PATCH 05/72] fix: windowed_op keeps the imaginary part of complex
 operators and complex data

---
 src/cr/sparse/_src/lop/windowed_op.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..5a19224 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -54,18 +54,16 @@ def windowed_op(m, T, overlap=0, axis=0):
     yl = tm + (n_blocks - 1) * offset
     m_range = jnp.arange(tm)
     n_range = jnp.arange(tn)
-    # initial value of y for times operation
-    yf = jnp.zeros(yl, dtype=dtype)
     # x padding to be used in adjoint operation
     xz = jnp.zeros(tm + yl -m)
-    # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
 
     def times1d(x):
         def body_func(i, y):            
             xw = x[i*tn + n_range]
             idx = i * offset + m_range
             return y.at[idx].add(T.times(xw))
+        # initial value of y for times operation
+        yf = jnp.zeros(yl, dtype=jnp.result_type(x, dtype))
         y = lax.fori_loop(0, n_blocks, body_func, yf)
         return y[:m]
 
@@ -76,6 +74,8 @@ def windowed_op(m, T, overlap=0, axis=0):
         def body_func(i, y):
             xw = x[i * offset + m_range]
             return y.at[i*tn + n_range].set(T.trans(xw))
+        # initial value of y for trans operation
+        ya = jnp.zeros(tn * n_blocks, dtype=jnp.result_type(x, dtype))
         return lax.fori_loop(0, n_blocks, body_func, ya)
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-- 
2.43.0


From ccad004307c0632cccaaf8bff28cb8d167a453aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 06/72] fix: transpose of a complex operator works on a matrix
 of vectors

---
 src/cr/sparse/_src/lop/lop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..d43cfd2 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -258,8 +258,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-- 
2.43.0


From f807c00068ef27aef7a7a3a47b06c1d6f838fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 07/72] fix: compose passes on the jit_safe and matrix_safe
 flags of its operands

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index d43cfd2..20657e4 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -370,7 +370,7 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
 
 
 def hcat(A, B):
-- 
2.43.0


From 79164c02469adf43a33ee871ebef3247dfbe7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 08/72] fix: scaling by a NumPy/JAX complex scalar gives a
 complex operator

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 20657e4..719b542 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and not jnp.iscomplexobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From 9e25fc9b04bf51e2e8f4643cc87472a2245c858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 09/72] fix: power of an operator accepts inputs of a narrower
 type than its outputs

---
 src/cr/sparse/_src/lop/lop.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 719b542..cdde102 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -263,14 +263,10 @@ def transpose(A):
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-    init = (x, 0)
-    def body(state):
-        x, c = state
-        return func(x), c+1
-    def cond(state):
-        return state[1] < n
-    state = jax.lax.while_loop(cond, body, init)
-    return state[0]
+    # func may promote the type of x, hence this loop is unrolled
+    for _ in range(n):
+        x = func(x)
+    return x
 
 apply_n =  jax.jit(apply_n, static_argnums=(0, 1))
 
-- 
2.43.0


From c476d3e04a84a466d5474fa14e06727dfce045d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 10/72] fix: adjoint of restriction and partial_op accumulates
 repeated indices

---
 src/cr/sparse/_src/lop/basic.py | 2 +-
 src/cr/sparse/_src/lop/lop.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..514303d 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -289,7 +289,7 @@ def restriction(n, I, axis=0):
     """
     k = len(I)
     times1d = lambda x: x[I]
-    trans1d = lambda x: jnp.zeros((n,), dtype=x.dtype).at[I].set(x)
+    trans1d = lambda x: jnp.zeros((n,), dtype=x.dtype).at[I].add(x)
 
     def times(x):
         if x.ndim == 1:
diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index cdde102..54e4a3b 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -299,7 +299,7 @@ def partial_op(A, picks, perm=None):
             # expand the input with zero entries
             shape = (m,) + x.shape[1:]
             tmp = jnp.zeros(shape, dtype=x.dtype)
-            tmp = tmp.at[picks].set(x)
+            tmp = tmp.at[picks].add(x)
             # apply the adjoint
             y = A.trans(tmp)
             return y
@@ -310,7 +310,7 @@ def partial_op(A, picks, perm=None):
             # expand the input with zero entries
             shape = (m,) + x.shape[1:]
             tmp = jnp.zeros(shape, dtype=x.dtype)
-            tmp = tmp.at[picks].set(x)
+            tmp = tmp.at[picks].add(x)
             # apply the adjoint
             y = A.trans(tmp)
             # place the output in correct permutation
-- 
2.43.0


From 5ad219736be01a3feb352ae737e6850de9aa52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:36 +0000
Subject: [PATCH 11/72] fix: apply_columns takes the index set that it refers
 to

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 54e4a3b..41821b8 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -107,7 +107,7 @@ class Operator(NamedTuple):
         """Computes Y = T^H X  where y = T^H x for each column in X"""
         return jax.vmap(self.trans, (1), (1))(Y)
 
-    def apply_columns(self, x):
+    def apply_columns(self, x, I):
         """Computes y = T_I x where I is an index set selecting  a subset of columns of T"""
         xr = jnp.zeros(x.shape, x.dtype)
         xr = xr.at[I].set(x[I])
-- 
2.43.0


From ed02b58310c982e1f43502ce2061178fa86e9554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:46 +0000
Subject: [PATCH 12/72] fix: operators built from complex data or complex
 blocks are not flagged as real

---
 src/cr/sparse/_src/lop/basic.py      | 4 ++--
 src/cr/sparse/_src/lop/block_diag.py | 3 ++-
 src/cr/sparse/_src/lop/conv.py       | 4 ++--
 src/cr/sparse/_src/lop/filters.py    | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index 514303d..1fd0ccc 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -190,7 +190,7 @@ def diagonal(d, axis=0):
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(d))
 
 
 def scalar_mult(alpha, n):
@@ -208,7 +208,7 @@ def scalar_mult(alpha, n):
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(alpha))
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..8015c6d 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -139,4 +139,5 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    return Operator(times=times, trans=trans, shape=(m_all,n_all), 
+        real=all(op.real for op in operators))
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index b64cf24..9d46015 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -74,7 +74,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -165,4 +165,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
-- 
2.43.0


From c8c276d86efa4ef40eaa3777d835ae71d466df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 13/72] fix: real dot tests compare against the magnitude of
 the inner products

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 68438f0..1fd8839 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -62,7 +62,7 @@ def dot_test_real(key, A, tol=1e-6):
     x = A.trans(v)
     yy = jnp.vdot(y, v)
     xx = jnp.vdot(u, x)
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy) + jnp.abs(xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
@@ -96,7 +96,7 @@ def rdot_test_complex(key, A, tol=1e-6):
     yy = cnb.arr_rdot(y, v)
     xx = cnb.arr_rdot(u, x)
 
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy) + jnp.abs(xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
-- 
2.43.0


From bdb342378d8ee7d06659abc00bdb41d59e1a776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 14/72] fix: complex dot test and complex matrix view support
 N-D operators

---
 src/cr/sparse/_src/lop/util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 1fd8839..9b8d392 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -45,9 +45,12 @@ def to_complex_matrix(A):
     """Converts a linear operator to a matrix in complex numbers"""
     if not A.linear:
         raise Exception("This operator is not linear.")
-    n = A.shape[1]
+    n = A.input_size
     I = jnp.eye(n) + 0j
-    return jax.vmap(A.times, (1), (1))(I)
+    times = A.times
+    if A.input_ndim > 1:
+        times = lambda x : A.times(jnp.reshape(x, A.input_shape)).flatten()
+    return jax.vmap(times, (1), (1))(I)
 
 
 
@@ -69,8 +72,8 @@ def dot_test_real(key, A, tol=1e-6):
 def dot_test_complex(key, A, tol=1e-6):
     m, n = A.shape
     keys = random.split(key, 4)
-    u = random.normal(keys[0], (n,)) + 1j * random.normal(keys[1], (n,))
-    v = random.normal(keys[2], (m,)) + 1j * random.normal(keys[3], (m,))
+    u = random.normal(keys[0], A.input_shape) + 1j * random.normal(keys[1], A.input_shape)
+    v = random.normal(keys[2], A.output_shape) + 1j * random.normal(keys[3], A.output_shape)
     y = A.times(u)
     x = A.trans(v)
     yy = jnp.vdot(y, v)
-- 
2.43.0


From 1d80db002eb8b29b62bc0a803d5da3084935b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:00 +0000
Subject: [PATCH 15/72] fix: binary_dict_alg reports its shape as (m, n) and is
 a real operator

---
 src/cr/sparse/_src/lop/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 63410a5..27a6e64 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -176,4 +176,4 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return x
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,m), real=False)
+    return Operator(times=times, trans=trans, shape=(m,n))
-- 
2.43.0


From 4eedcf67330aeb2301de16a211d7cd44f5fb7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:04 +0000
Subject: [PATCH 16/72] fix: normest of a zero operator is zero rather than NaN

---
 src/cr/sparse/_src/lop/normest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/lop/normest.py b/src/cr/sparse/_src/lop/normest.py
index 49045dc..d26c592 100644
--- a/src/cr/sparse/_src/lop/normest.py
+++ b/src/cr/sparse/_src/lop/normest.py
@@ -84,6 +84,8 @@ def normest(
         v = state.v
         # normalize
         v_norm = cnb.arr_l2norm(v)
+        # v vanishes if the operator maps it to zero
+        v_norm = jnp.where(v_norm > 0, v_norm, 1.)
         v = v / v_norm
         # compute the next vector
         v_new = operator.times(v)
-- 
2.43.0


From d784d8423de2ccc71d6a780f8ca9fd7da8c1ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:37 +0000
Subject: [PATCH 17/72] fix: matrix views are two dimensional if only one side
 of the operator is N-D

---
 src/cr/sparse/_src/lop/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 9b8d392..b9a95b4 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -25,7 +25,7 @@ def to_matrix(A):
         raise Exception("This operator is not linear.")
     I = jnp.eye(n)
     times = A.times
-    if A.input_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
     return jax.vmap(times, (1), (1))(I)
 
@@ -36,7 +36,7 @@ def to_adjoint_matrix(A):
     m = A.output_size
     I = jnp.eye(m)
     trans =  A.trans
-    if A.output_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         trans = lambda x: A.trans(jnp.reshape(x, A.output_shape)).flatten()
     return jax.vmap(trans, (1), (1))(I)
 
@@ -48,7 +48,7 @@ def to_complex_matrix(A):
     n = A.input_size
     I = jnp.eye(n) + 0j
     times = A.times
-    if A.input_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         times = lambda x : A.times(jnp.reshape(x, A.input_shape)).flatten()
     return jax.vmap(times, (1), (1))(I)
 
-- 
2.43.0


From c27fa292bb77136d2e5dccb6dde1e0c90dbd7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:03 +0000
Subject: [PATCH 18/72] fix: matching pursuit tracks the norm of its residual

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From 134dacaef5a3f94661473efe82a3a80e5d50e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:03 +0000
Subject: [PATCH 19/72] fix: omp.matrix_solve supports a single iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..948d319 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=K, length=Phi.shape[1])
 
 
 
-- 
2.43.0


From eb7a7374fc531294a6015724205933f1ebb84257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:03 +0000
Subject: [PATCH 20/72] fix: omp.operator_solve measures the residual after its
 first iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 948d319..8a60e05 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = jnp.expand_dims(x0, axis=0)
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From b7fb078dc0603d798a0068ad0744a1f0abb60fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:03 +0000
Subject: [PATCH 21/72] fix: first CoSaMP iterate keeps coefficients aligned
 with their indices

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From 5cd438dd042356b27eaec0f7af9a0fe0342c7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:49 +0000
Subject: [PATCH 22/72] fix: operator based pursuits return zero rather than
 NaN for zero measurements

---
 src/cr/sparse/_src/pursuit/cosamp.py | 2 +-
 src/cr/sparse/_src/pursuit/omp.py    | 2 +-
 src/cr/sparse/_src/pursuit/sp.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 376e7d6..7a0739a 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -143,7 +143,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
     y_norm_sqr = jnp.abs(jnp.vdot(y, y))
     y_norm = jnp.sqrt(y_norm_sqr)
     # scale the signal down.
-    scale = 1.0 / y_norm
+    scale = 1.0 / jnp.where(y_norm > 0, y_norm, 1.0)
     y = scale * y
 
     dtype = jnp.float64 if Phi.real else jnp.complex128
diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 8a60e05..fd891d7 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -197,7 +197,7 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
     y_norm_sqr = jnp.abs(jnp.vdot(y, y))
     y_norm = jnp.sqrt(y_norm_sqr)
     # scale the signal down.
-    scale = 1.0 / y_norm
+    scale = 1.0 / jnp.where(y_norm > 0, y_norm, 1.0)
     y = scale * y
 
     dtype = jnp.float64 if Phi.real else jnp.complex128
diff --git a/src/cr/sparse/_src/pursuit/sp.py b/src/cr/sparse/_src/pursuit/sp.py
index 613306b..8eea3a3 100644
--- a/src/cr/sparse/_src/pursuit/sp.py
+++ b/src/cr/sparse/_src/pursuit/sp.py
@@ -118,7 +118,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
     y_norm_sqr = jnp.abs(jnp.vdot(y, y))
     y_norm = jnp.sqrt(y_norm_sqr)
     # scale the signal down.
-    scale = 1.0 / y_norm
+    scale = 1.0 / jnp.where(y_norm > 0, y_norm, 1.0)
     y = scale * y
 
     dtype = jnp.float64 if Phi.real else jnp.complex128
-- 
2.43.0


From f01e58eb960ffbde219be20777288a38ae77915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:13 +0000
Subject: [PATCH 23/72] fix: OMP does not select an atom twice once the
 residual has vanished

---
 src/cr/sparse/_src/pursuit/omp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index fd891d7..e6c68e2 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -75,7 +75,8 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         # compute the correlations
         h = Phi.T @ r
         # Index of best match
-        i = abs_max_idx(h)
+        # an atom which has been selected is not selected again
+        i = jnp.argmax(jnp.abs(h).at[I].set(-1))
         # Update the set of indices
         I = jnp.append(I, i)
         # best matching atom
@@ -147,7 +148,8 @@ def _operator_step(times, trans, y, p, zv, state):
     # compute the correlations
     h = trans(state.r)
     # Index of best match
-    i = abs_max_idx(h)
+    # an atom which has been selected is not selected again
+    i = jnp.argmax(jnp.abs(h).at[state.I].set(-1))
     # Update the set of indices
     I = jnp.append(state.I, i)
     # best matching atom
-- 
2.43.0


From 750f17c137de396523d027f00aa5d6ff80b0da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:22 +0000
Subject: [PATCH 24/72] fix: normalized IHT and HTP steps are finite if the
 gradient vanishes on the support

---
 src/cr/sparse/_src/pursuit/htp.py | 8 ++++++--
 src/cr/sparse/_src/pursuit/iht.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/htp.py b/src/cr/sparse/_src/pursuit/htp.py
index 4daba3b..3547f67 100644
--- a/src/cr/sparse/_src/pursuit/htp.py
+++ b/src/cr/sparse/_src/pursuit/htp.py
@@ -50,7 +50,9 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        # the gradient may vanish on the current support
+        mu = jnp.where(Ah_norm_sqr > 0, h_I.T @ h_I / Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
@@ -157,7 +159,9 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        # the gradient may vanish on the current support
+        mu = jnp.where(Ah_norm_sqr > 0, h_I.T @ h_I / Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
diff --git a/src/cr/sparse/_src/pursuit/iht.py b/src/cr/sparse/_src/pursuit/iht.py
index 7d515bd..d9ee227 100644
--- a/src/cr/sparse/_src/pursuit/iht.py
+++ b/src/cr/sparse/_src/pursuit/iht.py
@@ -47,7 +47,9 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        # the gradient may vanish on the current support
+        mu = jnp.where(Ah_norm_sqr > 0, h_I.T @ h_I / Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
@@ -142,7 +144,9 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        # the gradient may vanish on the current support
+        mu = jnp.where(Ah_norm_sqr > 0, h_I.T @ h_I / Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
-- 
2.43.0


From c68b7da49e92238c835f16a4e38f5ec1f9401257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 25/72] fix: prox of the sorted l1 norm pools ties, so that its
 loop terminates with the exact minimiser

---
 src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
index 2172b92..8d209cc 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
@@ -30,7 +30,7 @@ def prox_ordered_l1_b(state):
     y, l = state
     x = y - l
     n = len(x)
-    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) > 0)
+    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) >= 0)
     segment_ids = jnp.cumsum(~mask) - 1
     y_sums = segment_sum(y, segment_ids, num_segments=n)
     l_sums = segment_sum(l, segment_ids, num_segments=n)
-- 
2.43.0


From 376c395aa7967e7ca44a1436de3a6c329749223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 26/72] fix: prox_l1 keeps zero entries with a zero weight
 finite

---
 src/cr/sparse/_src/opt/proximal_ops/lpnorms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
index 6246eae..2678fe5 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
@@ -73,7 +73,8 @@ def prox_l1(q=1.):
         x = cnb.promote_arg_dtypes(x)
         tq = t * q
         # shrinkage coefficients
-        s  = 1 - jnp.minimum( tq/jnp.abs(x), 1 )
+        # zero entries stay zero even if they are not penalised at all
+        s  = 1 - jnp.minimum( tq/jnp.where(x == 0, 1, jnp.abs(x)), 1 )
         # shrink x
         return x * s
 
-- 
2.43.0


From af5efa2f3619c59f9b3caf44e2910f5cf175be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 27/72] fix: opt.build_from_ind_proj refers to the function of
 that name

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From 0afef812de08a0dfaf913fed9ac84358afbf03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:10 +0000
Subject: [PATCH 28/72] fix: value of the Moreau envelope scales the squared
 distance by 1/(2 mu)

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..2cd73d3 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From 806e0563da2431d3a7ac27856519a0072a8a1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:17 +0000
Subject: [PATCH 29/72] fix: Huber function of a matrix is a scalar

---
 src/cr/sparse/_src/opt/smooth/huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/smooth/huber.py b/src/cr/sparse/_src/opt/smooth/huber.py
index 8902cb4..dd93e99 100644
--- a/src/cr/sparse/_src/opt/smooth/huber.py
+++ b/src/cr/sparse/_src/opt/smooth/huber.py
@@ -37,7 +37,7 @@ def smooth_huber(tau=1.):
         x_large = x_mag - tau/2
 
         v = jnp.where(small, x_small, x_large)
-        return sum(v)
+        return jnp.sum(v)
 
     @jit
     def gradient(x):
-- 
2.43.0


From f855214866c665588d283f9ed211a4b3013c6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 30/72] fix: lanbpro reorthogonalizes p against the indices it
 identified and tracks them in mu

---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index 9c98014..e1b4a98 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -302,16 +302,16 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
             None
         )
         # carry out reorthogonalization
-        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, indices, gamma)
+        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, reorth_indices, gamma)
         # reset mu in the entries which have been reorthogonalized
         mu2 = jnp.where(reorth_indices, M2*eps, mu)
         # if a reorthogonalization was forced. it won't be for next iteration
         b_force_reorth2 = jnp.logical_not(b_force_reorth)
         return p2, p2_norm, reorth_indices, mu2, b_force_reorth2
     # reorthogonalize p if required
-    p, p_norm, indices, nu, b_force_reorth = lax.cond(reorth_cond,
+    p, p_norm, indices, mu, b_force_reorth = lax.cond(reorth_cond,
         reorth_p,
-        lambda _ : (p, p_norm, indices, nu, b_force_reorth),
+        lambda _ : (p, p_norm, indices, mu, b_force_reorth),
         None
     )
     # Check for convergence or failure to maintain semiorthogonality
-- 
2.43.0


From 7c264925853f48812cfd7fd91909b0e1d7938edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 31/72] fix: lanbpro does not turn into NaN once the range of
 the operator is exhausted

---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index e1b4a98..c96bba7 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -392,7 +392,8 @@ def new_p_vec(A, U, j,  gamma):
 
     state = lax.while_loop(cond, body, init())
     p, p_norm, i = state
-    return p / p_norm, i
+    # a zero vector if the range of A has been exhausted
+    return jnp.where(p_norm < 1e-10, 0, p / p_norm), i
 
 new_p_vec_jit = jit(new_p_vec, static_argnums=(0,))
 
@@ -427,6 +428,7 @@ def new_r_vec(A, V, j,  gamma):
 
     state = lax.while_loop(cond, body, init())
     r, r_norm, i = state
-    return r / r_norm, i
+    # a zero vector if the range of A^T has been exhausted
+    return jnp.where(r_norm < 1e-10, 0, r / r_norm), i
 
 new_r_vec_jit = jit(new_r_vec, static_argnums=(0,))
\ No newline at end of file
-- 
2.43.0


From b8a07ebb2b5bb27bfe8bf4dbcbdd645b2b1b8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 32/72] fix: lansvd_simple includes the last Lanczos vector in
 U and counts converged values with its tolerance

---
 src/cr/sparse/_src/sls/svdpack/lansvd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lansvd.py b/src/cr/sparse/_src/sls/svdpack/lansvd.py
index 0500329..aa80655 100644
--- a/src/cr/sparse/_src/sls/svdpack/lansvd.py
+++ b/src/cr/sparse/_src/sls/svdpack/lansvd.py
@@ -56,7 +56,7 @@ def lansvd_simple(A, k, p0):
         lambda i, state: lanbpro_iteration(A, state, options),
         state)
     # norm of the residual 
-    res_norm = norm(state.p)
+    res_norm = state.beta[j]
     # compute SVD of the bidiagonal matrix ritz values and vectors
     P, S, Qh, bot = bdsqr(state.alpha, state.beta, j)
     # estimate of A norm 
@@ -66,18 +66,18 @@ def lansvd_simple(A, k, p0):
     # now refine the bounds
     bnd = refine_bounds(S**2, bnd, n*eps*anorm)
     # count the number of converged singular values
-    converged = jnp.less(bnd, jnp.abs(S))
+    converged = jnp.less_equal(bnd, tol * jnp.abs(S))
     # make sure that all indices beyond min(j,k) are marked as non-converged
     converged = converged.at[min(j,k):].set(False)
     # find the index of first non-converged singular value
     n_converged = jnp.argmin(converged)
     n_converged = jnp.where(converged[n_converged], len(converged), n_converged)
-    U = state.U[:, :j]
-    V = state.V[:, :j]
     # keep only the first k ritz vectors
     P = P[:, :k]
     Q = Qh.T[:, :k]
-    U = state.U[:, :j] @ P[:j, :]
+    # the last left Lanczos vector is the normalized residual
+    u = cnb.vec_safe_divide_by_scalar(state.p, res_norm)
+    U = state.U[:, :j] @ P[:j, :] + jnp.outer(u, P[j, :])
     V = state.V[:, :j] @ Q
     return U, S[:k], V, bnd, n_converged, state
 
-- 
2.43.0


From 9d4bd3b1e1b3a782d6537aa3e19f2e6136f77322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 33/72] fix: l1ls does not stop at a user supplied start whose
 dual objective is negative

---
 src/cr/sparse/_src/cvx/l1ls.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..a0a7962 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -355,7 +355,8 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         """Condition for continuing the iterations TNIPM step 6
         """
         #print(f'[{state.iterations}] primal:{float(state.primal_obj):.3e} dual:{float(state.dual_obj):.3e} gap:{float(state.gap):.3e} rel:{float(state.rel_gap):.2f}')
-        return (state.rel_gap > tol) & (state.iterations < max_iters)
+        # the dual objective may be negative if x0 is far away from the solution
+        return (state.gap > tol * state.dual_obj) & (state.iterations < max_iters)
 
     state = lax.while_loop(cond, body, init())
 
-- 
2.43.0


From 17d1e91d2c6776d730fa29698bd44d16cea4f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 34/72] fix: SPGL1 lasso counts its adjoint multiplications

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..3b04098 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
-- 
2.43.0


From a2ee8b65a7096e0827242f49a5ced22061fb8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 35/72] fix: SPGL1 solve_lasso_jit accepts options

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 3b04098..159dceb 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -415,7 +415,7 @@ def solve_lasso(A,
     x0 = jnp.zeros(n)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From 5ddca8826de4f7dc0d2cb1ffd80ce543e6cb587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 36/72] fix: SPGL1 reports the residual norm of its solution
 after reducing tau

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 159dceb..9a5023b 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -655,6 +655,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # the metrics have to describe the projected solution
+        r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau)[1:],
+            lambda _: (r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From ce65486ff3921b893113bce7d8d50b8f30a8cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 37/72] fix: opt.spg.solve_from_jit accepts options

---
 src/cr/sparse/_src/opt/spg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 3191e96..4bcb80f 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -231,4 +231,4 @@ def solve_from(smooth_f: SmoothFunction,
     return state
 
 
-solve_from_jit = jit(solve_from, static_argnums=(0,1))
\ No newline at end of file
+solve_from_jit = jit(solve_from, static_argnums=(0,1,3))
-- 
2.43.0


From 111b06d928c57a94fd8e09a4e99fc7dc7b5678a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 38/72] fix: fom.matrix_affine_func imports partial and treats
 its mode as static

---
 src/cr/sparse/_src/fom/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index b39a7bd..dcdc538 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import partial
+
 from jax import jit
 
 import jax.numpy as jnp
@@ -62,7 +64,7 @@ def matrix_affine_func(A=None, b=None):
         ax_plus_b = affine
 
 
-    @partial(jit, static_argnums=(2,))
+    @partial(jit, static_argnums=(1,))
     def operator(x, mode=0):
         if mode == 0:
             return A @ x
-- 
2.43.0


From 389ea8f4095423732542451130596a62713c5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:21 +0000
Subject: [PATCH 39/72] fix: YALL1 detects the zero solution for weights and
 zero measurements

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..1e2a2ed 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -490,14 +490,16 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n_trans = 1
     n = Atb.shape[0]
     b_max  = float(norm(b, ord=jnp.inf))
-    atb_max = float(norm(Atb, ord=jnp.inf))
-    zero_solution = False
+    atb_max = float(norm(Atb if weights is None else Atb / weights, ord=jnp.inf))
+    zero_solution = b_max == 0
     if rho > 0:
         zero_solution = atb_max <= rho
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
         x = jnp.zeros(n)
+        if W:
+            x = W.times(x)
         return RecoveryFullSolution(x=x, r=b, 
             iterations=0, 
             n_times=n_times, n_trans=n_trans)
-- 
2.43.0


From cd461820c8e08366de4e09b4b7015acc1edf41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:40 +0000
Subject: [PATCH 40/72] fix: FOCUSS takes the minimum norm solution, which
 stays finite once its iterate is sparse

---
 src/cr/sparse/_src/cvx/focuss.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/focuss.py b/src/cr/sparse/_src/cvx/focuss.py
index 33851a6..720d1f8 100644
--- a/src/cr/sparse/_src/cvx/focuss.py
+++ b/src/cr/sparse/_src/cvx/focuss.py
@@ -32,10 +32,9 @@ def step_noiseless(Phi, y, x, p=1.):
         - :ref:`gallery:focuss:1`
     """
     xp = jnp.abs(x) ** p
-    xp2 = xp * xp
-    A = crn.diag_premultiply(xp2, Phi.T)
-    G = Phi @ A 
-    x = A @ jnp.linalg.solve(G, y)
+    # minimum norm solution of the weighted system, which is rank deficient
+    # once x is sparse
+    x = xp * (jnp.linalg.pinv(Phi * xp) @ y)
     return x
 
 class FocussState(NamedTuple):
@@ -114,11 +113,7 @@ def matrix_solve_noiseless(Phi, y, p=1., max_iters=20):
             iterations=0)
 
     def body_func(state):
-        xp = jnp.abs(state.x) ** p
-        xp2 = xp * xp
-        A = crn.diag_premultiply(xp2, Phi.T)
-        G = Phi @ A 
-        x = A @ jnp.linalg.solve(G, y)
+        x = step_noiseless(Phi, y, state.x, p)
         r = y - Phi @ x
         r_norm_sqr = r.T @ r
         return FocussState(x=x, r=r, 
-- 
2.43.0


From 6aebcc9686bb73960a89363f18dd84c315d6b254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:31 +0000
Subject: [PATCH 41/72] fix: Gram and frame matrices of complex dictionaries
 keep their imaginary part

---
 src/cr/sparse/_src/dict/props.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..7d6e799 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -22,16 +22,14 @@ def gram(A):
     """
     if jnp.isrealobj(A):
         return A.T @ A
-    G = mat_hermitian(A) @ A
-    return G.real
+    return mat_hermitian(A) @ A
 
 def frame(A):
     """Computes the frame matrix :math:`G = A A^T`
     """
     if jnp.isrealobj(A):
         return A @ A.T
-    F = A @ mat_hermitian(A)
-    return F.real
+    return A @ mat_hermitian(A)
 
 
 def coherence_with_index(A):
-- 
2.43.0


From 37408a54f8c4e62437e00c47888c050b6b1058a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:31 +0000
Subject: [PATCH 42/72] fix: matching_atoms_ratio uses the complex inner
 product

---
 src/cr/sparse/_src/dict/comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/comparison.py b/src/cr/sparse/_src/dict/comparison.py
index b4ba514..a7afe36 100644
--- a/src/cr/sparse/_src/dict/comparison.py
+++ b/src/cr/sparse/_src/dict/comparison.py
@@ -21,7 +21,7 @@ def matching_atoms_ratio(A, B, distance_threshold=0.01):
     # number of atoms
     n_atoms = A.shape[1]
     # inner products betweeen atoms of A and B
-    similarities = jnp.abs(A.T @ B)
+    similarities = jnp.abs(jnp.conjugate(A.T) @ B)
     # find the best match from each row 
     max_similarities = jnp.max(similarities, axis=1)
     # angular distance between best match
-- 
2.43.0


From 22896cf9a1e70031e00142934b386860782566df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:37 +0000
Subject: [PATCH 43/72] fix: Grassmannian frame construction keeps the Gram
 matrix symmetric with unit diagonal

---
 src/cr/sparse/_src/dict/grass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index 689e91f..1252bf5 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -61,6 +61,8 @@ def build_grassmannian_frame(init,
 
     #@jit
     def body_fun(k, g):
+        # symmetric entries must fall on the same side of the thresholds
+        g = (g + g.T) / 2
         # flatten the gram matrix
         gg = g.ravel()
         # Absolute values of gram matrix
@@ -95,7 +97,7 @@ def build_grassmannian_frame(init,
         # Ensure that the diagonal elements of G continue to be 1
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
-        g = d2 * g * d2
+        g = d2[:, None] * g * d2
         return g
 
     # run the alternate projections
-- 
2.43.0


From f9fc8c21c89a4313886eb65f54699321529005ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:07 +0000
Subject: [PATCH 44/72] fix: best_map handles different numbers of true and
 predicted labels

---
 src/cr/sparse/_src/cluster/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..aa8562c 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -85,9 +85,13 @@ def best_map(true_labels, pred_labels):
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
     mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
-        old_label = labels_2[cols[i]]
-        new_label = labels_1[i]
+    for i, j in zip(rows, cols):
+        if j >= n_l2:
+            # there is no predicted label for this true label
+            continue
+        old_label = labels_2[j]
+        # predicted labels in excess of the true ones match none of them
+        new_label = labels_1[i] if i < n_l1 else labels_1[-1] + 1 + i - n_l1
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
     return mapped_labels, cols, G 
 
-- 
2.43.0


From 3538348ea3f991f675639f18d1746fca78c89e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 45/72] fix: SSC-OMP never selects a point itself or a neighbor
 twice

---
 src/cr/sparse/_src/cluster/ssc/omp.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index b248709..2ce9776 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -38,10 +38,10 @@ def build_representation_omp(X, K):
     # The proxy representation
     P = Dict.T @ R
     # First correlation of residual with signal
-    # Set the diagonal to zero
-    H = cnb.set_diagonal(P, 0)
+    # A point is never chosen to represent itself
+    H = cnb.set_diagonal(jnp.abs(P), -1)
     # Index of best match
-    indices = cnb.abs_max_idx_cw(H)
+    indices = jnp.argmax(H, axis=0)
     # Initialize the array of selected indices
     # with current indices as the first row
     I = indices[jnp.newaxis, :]
@@ -49,9 +49,11 @@ def build_representation_omp(X, K):
     # conduct OMP iterations
     for k in range(1, K):
         # compute the correlations
-        H = cnb.set_diagonal(Dict.T @ R, 0)
+        H = cnb.set_diagonal(jnp.abs(Dict.T @ R), -1)
+        # Ignore the previously selected atoms
+        H = H.at[I, jnp.arange(N)].set(-1)
         # Index of best match
-        indices = cnb.abs_max_idx_cw(H)
+        indices = jnp.argmax(H, axis=0)
         # Update the set of indices
         I = jnp.vstack((I, indices))
         # Solve over these indices
@@ -100,10 +102,10 @@ def batch_build_representation_omp(X, K, batch_size):
         # The proxy representation
         P = Dict.T @ R
         # First correlation of residual with signal
-        # Set the diagonal to zero
-        H = P.at[(r, c)].set(0)
+        # A point is never chosen to represent itself
+        H = jnp.abs(P).at[(r, c)].set(-1)
         # Index of best match
-        indices = cnb.abs_max_idx_cw(H)
+        indices = jnp.argmax(H, axis=0)
         # Initialize the array of selected indices
         # with current indices as the first row
         I_res = I_res.at[0, start:end].set(indices)
@@ -111,11 +113,11 @@ def batch_build_representation_omp(X, K, batch_size):
         # conduct OMP iterations
         for k in range(1, K):
             # compute the correlations
-            H = Dict.T @ R
-            # Set the diagonal to zero
-            H = H.at[(r, c)].set(0)
+            H = jnp.abs(Dict.T @ R).at[(r, c)].set(-1)
+            # Ignore the previously selected atoms
+            H = H.at[I_res[:k, start:end], jnp.arange(n2)].set(-1)
             # Index of best match
-            indices = cnb.abs_max_idx_cw(H)
+            indices = jnp.argmax(H, axis=0)
             # Update the set of indices
             I_res = I_res.at[k, start:end].set(indices)
             # Solve over these indices
-- 
2.43.0


From d73b3d7884d2f64f8ce32bbf062b9156574f207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 46/72] fix: batched SSC-OMP represents the points themselves
 like the unbatched version

---
 src/cr/sparse/_src/cluster/ssc/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index 2ce9776..d1e6909 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -95,9 +95,9 @@ def batch_build_representation_omp(X, K, batch_size):
         # rows for setting the self inner product to 0.
         r = rr + start
         # Let's restrict our attention to this batch only
-        X_batch = Xn[:, start:end]
+        X_batch = X[:, start:end]
         # The residual 
-        R = X_batch
+        R = Xn[:, start:end]
         # Let's conduct first iteration of OMP
         # The proxy representation
         P = Dict.T @ R
-- 
2.43.0


From ba9f13d7f3859d07bd74b2c05711950d3016ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 47/72] fix: the angle between opposite points is not NaN

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index 298fa9a..e18c9c5 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -95,7 +95,7 @@ def angles_between_points(X):
     # Compute gram matrix
     G = X.T @ X
     # Avoid overflow in gram matrix
-    G = jnp.minimum(G, 1)
+    G = jnp.clip(G, -1, 1)
     return jnp.rad2deg(jnp.arccos(G))
 
 
-- 
2.43.0


From 16b072147577f33f78ecdb18e367f331198b7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:25 +0000
Subject: [PATCH 48/72] fix: sorted_neighbors never lists a point as its own
 neighbor

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index e18c9c5..37d9e6c 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -171,6 +171,8 @@ def nearest_neighbors_outside_cluster(angles, cluster_sizes):
 def sorted_neighbors(angles):
     """Returns the neighbor indices sorted by angle between points
     """
+    # every point comes first in its own row
+    angles = cnb.set_diagonal(angles, -1)
     # sort the angle row-wise (along the column axis)
     indices = jnp.argsort(angles)
     # drop the first column
-- 
2.43.0


From 862c70e60388f52919a2e91f52f2e86b9564f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 49/72] fix: BSBL second moments use the outer product of the
 posterior mean

---
 src/cr/sparse/_src/block/bsbl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bf794d2..da987be 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -166,7 +166,7 @@ def compute_sigma_x_pruned(Phi, Sigma0, H, active_blocks):
 
 def compute_cov_x(Sigma_x, mu_x):
     Cov_x = vmap(
-        lambda sx, mx: sx + mx @ mx.T,
+        lambda sx, mx: sx + jnp.outer(mx, mx),
         in_axes=(0,0))(Sigma_x, mu_x)
     return Cov_x
 
-- 
2.43.0


From 21d359174fa173374fef3f49d1df89bce6638820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 50/72] fix: BSBL high SNR rule for lambda counts the
 coefficients of the active blocks

---
 src/cr/sparse/_src/block/bsbl.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index da987be..acc428e 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -204,13 +204,18 @@ def compute_B_B_inv(B0):
 
 # This rule doesn't seem to work in noiseless case
 def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m):
-    n_blocks = len(gammas)
+    # pruned blocks don't contribute
+    active = gammas > 0
+    safe_gammas = jnp.where(active, gammas, 1.)
     ll = vmap(
         lambda g, sx: jnp.trace(sx @ B_inv) / g,
-        in_axes=(0, 0))(gammas, Sigma_x)
-    lambda_comp = jnp.sum(ll)
-    carry = lambda_val * (n_blocks - lambda_comp)
-    new_lambda_val = (r_norm_sqr + carry) / m
+        in_axes=(0, 0))(safe_gammas, Sigma_x)
+    lambda_comp = jnp.sum(jnp.where(active, ll, 0.))
+    # number of coefficients in the active blocks
+    n_coeffs = Sigma_x.shape[1] * jnp.sum(active)
+    carry = lambda_val * (n_coeffs - lambda_comp)
+    # the noise variance cannot be negative
+    new_lambda_val = jnp.maximum((r_norm_sqr + carry) / m, 0.)
     # print(f'old:{lambda_val:.2e}, new:{new_lambda_val:.2e}, comp: {lambda_comp:.2e}, carry: {carry:.2e}, r_norm_sqr: {r_norm_sqr:.2e}')
     return new_lambda_val
 
-- 
2.43.0


From 4394798c822dea96dce46b7ef137b90dc19d5235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 51/72] fix: BSBL-BO without pruning stays finite when a gamma
 vanishes

---
 src/cr/sparse/_src/block/bsbl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index acc428e..0e40bdd 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -172,10 +172,12 @@ def compute_cov_x(Sigma_x, mu_x):
 
 
 def compute_cov_x_sum(Cov_x, gammas):
+    # blocks whose gamma has vanished don't contribute
+    active = gammas > 0
     B_i = vmap(
         lambda cx, g: cx / g,
-        in_axes=(0, 0))(Cov_x, gammas)
-    return jnp.sum(B_i, axis=0)
+        in_axes=(0, 0))(Cov_x, jnp.where(active, gammas, 1.))
+    return jnp.sum(jnp.where(active[:, None, None], B_i, 0.), axis=0)
 
 
 def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
-- 
2.43.0


From c3a1ac68599d04f0a2fbea327f0104d8eac4f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:06 +0000
Subject: [PATCH 52/72] fix: BSBL honors the learn_block_corr option

---
 src/cr/sparse/_src/block/bsbl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index 0e40bdd..1bc7e57 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -189,13 +189,15 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
         in_axes=(0, 0, 0))(Cov_x, gammas, active_blocks)
     return jnp.sum(B_i, axis=0)
 
-def compute_B_B_inv(B0):
+def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
     # AR-1 coefficient
     r = m1 / m0
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
+    # ignore the intra block correlation if so desired
+    r = jnp.where(learn_block_corr == 0, 0., r)
     # print(f'r: {r}')
     # block size
     b = B0.shape[0]
@@ -554,7 +556,7 @@ def bsbl_em(Phi, y, blk_len,
         Sigma_x, _ = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -682,7 +684,7 @@ def bsbl_bo(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -805,7 +807,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x(Phi, state.Sigma0, H)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum(Cov_x, state.gammas)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
-- 
2.43.0


From 58b529bf716dc99d3f17efea4b04b2e02300ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 53/72] fix: 1-bit RFP descends along the gradient of the one
 sided quadratic

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..a03c1f4 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -93,7 +93,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
-- 
2.43.0


From dc0d636e4cbec892c6935289eefab96922ed3718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 54/72] fix: 1-bit RFP relaxes its shrinkage threshold with
 lambda

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index a03c1f4..e4eac1c 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,10 +79,10 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
-
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+        print(f'shrinkage threshold: {tau}')
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
-- 
2.43.0


From 71496b4312f0a09f59acff78ef5f42da3fb47ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:57 +0000
Subject: [PATCH 55/72] fix: RecoveryPerformance accepts solutions which hold
 the full vector x

---
 src/cr/sparse/_src/tools/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..a003be9 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,7 +77,7 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
+            if not hasattr(sol, 'x_I'):
                 x_hat = sol.x
             else:
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
-- 
2.43.0


From a5755aad764770681e4eb635d6ae7f05ba3aa0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:57 +0000
Subject: [PATCH 56/72] fix: recovery trials draw a distinct signal for every
 signal trial

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..0591f32 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -143,7 +143,7 @@ class RecoveryTrialsAtFixed_M_N:
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(dict_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
-- 
2.43.0


From 2f04b74b5b96bd4f0dc43acbb29a2aeb703854b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:06 +0000
Subject: [PATCH 57/72] fix: recovery trials accept a single trial

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 0591f32..d3d223b 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -172,7 +172,7 @@ class RecoveryTrialsAtFixed_M_N:
             success_rate = successes / trials
             iters = np.array(iters)
             runtime=end_time-start_time # in seconds
-            mean_runtime=runtime * 1000 / (trials - 1) # in milli seconds
+            mean_runtime=runtime * 1000 / max(trials - 1, 1) # in milli seconds
             # summarized information
             row = Row(m=M, n=N, k=K, method=name, 
                 trials=trials, successes=successes, 
-- 
2.43.0


From 0c00fcec1c7d82d999a4881c1a758fb01f36a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:06 +0000
Subject: [PATCH 58/72] fix: kernel_gaussian has the specified standard
 deviation

---
 src/cr/sparse/_src/vision/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/vision/kernels.py b/src/cr/sparse/_src/vision/kernels.py
index 6d57bcf..8187bae 100644
--- a/src/cr/sparse/_src/vision/kernels.py
+++ b/src/cr/sparse/_src/vision/kernels.py
@@ -73,8 +73,8 @@ def kernel_gaussian(size=5, sigma=1.):
     # form a mesh grid of 2 D points
     xx, yy = jnp.meshgrid(ax_x, ax_y)
     # Compute the kernel values at the specified points in the grid
-    factor_x = 2 / sigma_x ** 2
-    factor_y = 2 / sigma_y ** 2
+    factor_x = 1 / (2 * sigma_x ** 2)
+    factor_y = 1 / (2 * sigma_y ** 2)
     kernel = jnp.exp(-(jnp.square(xx) * factor_x + jnp.square(yy) * factor_y))
     # normalize the kernel and return
     return kernel / jnp.sum(kernel)
\ No newline at end of file
-- 
2.43.0


From 16e96ecde93ab1d98cd419230142c4a5d1e815ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 59/72] fix: matching pursuit tells its tracker whether more
 iterations follow

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index c133720..1701227 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -123,12 +123,12 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
@@ -199,12 +199,12 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
-- 
2.43.0


From c13a7e29d4934d331f28912aeafa4bb838cc7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 60/72] fix: cosamp.solve accepts a tracker

---
 src/cr/sparse/_src/pursuit/cosamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 7a0739a..a7448fa 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -251,6 +251,6 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         iterations=state.iterations, length=Phi.shape[1])
 
 
-operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol"))
+operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol", "tracker"))
 
 solve = operator_solve_jit
-- 
2.43.0


From 375b70d85314d7c3a49a9a883e50fae929baf4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:03 +0000
Subject: [PATCH 61/72] fix: SP and CoSaMP report unscaled approximations to
 their tracker

---
 src/cr/sparse/_src/pursuit/cosamp.py | 5 ++++-
 src/cr/sparse/_src/pursuit/sp.py     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index a7448fa..f68f860 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -235,7 +235,10 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # e = state.r_norm_sqr < 0.9 * state.r_norm_sqr_prev
         # c = jnp.logical_and(c, e)
         # overall condition
-        jax.debug.callback(tracker, state, more=c)
+        # report the approximation in the scale of the given signal
+        unscaled = state._replace(x_I=y_norm * state.x_I, r=y_norm * state.r,
+            r_norm_sqr=y_norm_sqr * state.r_norm_sqr)
+        jax.debug.callback(tracker, unscaled, more=c)
         return c
 
     state = init()
diff --git a/src/cr/sparse/_src/pursuit/sp.py b/src/cr/sparse/_src/pursuit/sp.py
index 8eea3a3..9f64376 100644
--- a/src/cr/sparse/_src/pursuit/sp.py
+++ b/src/cr/sparse/_src/pursuit/sp.py
@@ -198,7 +198,10 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # consider support change only after some iterations
         d = jnp.logical_or(state.iterations < min_iters, d)
         c = jnp.logical_and(c, d)
-        jax.debug.callback(tracker, state, more=c)
+        # report the approximation in the scale of the given signal
+        unscaled = state._replace(x_I=y_norm * state.x_I, r=y_norm * state.r,
+            r_norm_sqr=y_norm_sqr * state.r_norm_sqr)
+        jax.debug.callback(tracker, unscaled, more=c)
         return c
 
     state = lax.while_loop(cond, body, init())
-- 
2.43.0


From 35a051978f55ab6a94a2336e6a74aee88e06bfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:06 +0000
Subject: [PATCH 62/72] fix: SPGL1 basis pursuit denoising counts the operator
 applications of its initialization once

---
 src/cr/sparse/_src/cvx/spgl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 9a5023b..80b5623 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -605,7 +605,7 @@ def solve_bpic_from(A,
             r_res_error=r_res_error, r_f_error=r_f_error,
             alpha=alpha,
             alpha_next=alpha,
-            iterations=1, n_times=2, n_trans=2,
+            iterations=1, n_times=1, n_trans=1,
             n_newton=1, n_ls_iters=0)
 
     #@jit
-- 
2.43.0


From 34fb618dd3f7991891b958db8712c248b6f980d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:06 +0000
Subject: [PATCH 63/72] fix: adjoint of binary_dict_alg keeps the imaginary
 part of complex data

---
 src/cr/sparse/_src/lop/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/random.py b/src/cr/sparse/_src/lop/random.py
index 27a6e64..e400c89 100644
--- a/src/cr/sparse/_src/lop/random.py
+++ b/src/cr/sparse/_src/lop/random.py
@@ -169,7 +169,7 @@ def binary_dict_alg(key, m, n=None, axis=0):
         return y
 
     def trans(y):
-        x = jnp.zeros(n)
+        x = jnp.zeros(n, dtype=jnp.result_type(y, jnp.float32))
         for i  in range(n):
             v = jax.random.bernoulli(keys[i], shape=(m,))
             x = x.at[i].set(v  @ y)
-- 
2.43.0


From 43a86296431d82138beddda4795d0dec7045d0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:06 +0000
Subject: [PATCH 64/72] fix: dot operator applies along its axis to arrays of
 vectors

---
 src/cr/sparse/_src/lop/dot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/dot.py b/src/cr/sparse/_src/lop/dot.py
index 144f1c6..0871e20 100644
--- a/src/cr/sparse/_src/lop/dot.py
+++ b/src/cr/sparse/_src/lop/dot.py
@@ -45,8 +45,8 @@ def dot(v, adjoint=False, axis=0):
 
     def times(x):
         x = jnp.asarray(x)
-        assert x.shape == v.shape, "shape of x must be same as shape of v"
         if x.ndim == v.ndim:
+            assert x.shape == v.shape, "shape of x must be same as shape of v"
             return times1d(x)
         if v.ndim == 1:
             return jnp.apply_along_axis(times1d, axis, x)
@@ -55,6 +55,8 @@ def dot(v, adjoint=False, axis=0):
     def trans(x):
         # the inner product must be real
         assert jnp.isrealobj(x), "The data space is real as this linear operator represents a real inner product"
+        if v.ndim == 1 and jnp.ndim(x) > 1:
+            return jnp.apply_along_axis(lambda s: v * s, axis, x)
         return v * x
 
     if adjoint:
-- 
2.43.0


From cd2900cff0a4d50e0bf8ec4bb77725ace482a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:26 +0000
Subject: [PATCH 65/72] fix: l1ls counts the adjoint application of the dual
 update

---
 src/cr/sparse/_src/cvx/l1ls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index a0a7962..5f69d1a 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -329,6 +329,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         #--------------------------------------------------------------------------------
         # update nu (eq 11)
         nu = get_nu(z)
+        n_trans += 1
         #--------------------------------------------------------------------------------
         # Duality gap calculation TNIPM step 5
         #--------------------------------------------------------------------------------
-- 
2.43.0


From 6690f98eec1a5aa7b48d5ea28a241a27bf559e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:57 +0000
Subject: [PATCH 66/72] fix: OMP for linear operators handles complex data

---
 src/cr/sparse/_src/pursuit/omp.py  | 6 +++---
 src/cr/sparse/_src/pursuit/util.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index e6c68e2..292a8fb 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -19,7 +19,7 @@ from jax import vmap, jit, lax
 
 import cr.nimble as crn
 from .util import abs_max_idx, gram_chol_update
-from cr.nimble import solve_spd_chol
+from cr.nimble import solve_spd_chol, solve_Lx_b, solve_LTx_b
 from .defs import RecoverySolution
 
 def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
@@ -164,11 +164,11 @@ def _operator_step(times, trans, y, p, zv, state):
     # sub-vector of proxy corresponding to selected indices
     p_I = p[I]
     # sub-vector of representation coefficients estimated so far
-    x_I = solve_spd_chol(L, p_I)
+    x_I = solve_LTx_b(jnp.conjugate(L), solve_Lx_b(L, p_I))
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
-    norm_r_new_sqr = r.T @ r
+    norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
 
     return OMPState(x_I=x_I, I=I, Phi_I=Phi_I, r=r, L=L, 
         r_norm_sqr=norm_r_new_sqr, iterations=k + 1)
diff --git a/src/cr/sparse/_src/pursuit/util.py b/src/cr/sparse/_src/pursuit/util.py
index 8448a34..0584322 100644
--- a/src/cr/sparse/_src/pursuit/util.py
+++ b/src/cr/sparse/_src/pursuit/util.py
@@ -28,13 +28,13 @@ def largest_indices(h, K):
 
 
 def gram_chol_update(L, v):
-    r"""Incrementally updates the Cholesky factorization :math:`G = L L^T` where :math:`G = \Phi^T \Phi`
+    r"""Incrementally updates the Cholesky factorization :math:`G = L L^H` where :math:`G = \Phi^H \Phi`
     """
     m, n = L.shape
     z = jnp.zeros((m, 1))
     w = solve_Lx_b(L, v)
-    s = jnp.sqrt(1  - w.T @ w)
+    s = jnp.sqrt(1  - jnp.real(jnp.vdot(w, w)))
     L0 = jnp.hstack((L, z))
-    L1 = jnp.hstack((w.T, s))
+    L1 = jnp.hstack((jnp.conjugate(w), s))
     L = jnp.vstack((L0, L1))
     return L
-- 
2.43.0


From 141939a4cbec3599b139be68fa450eaee4537ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:02 +0000
Subject: [PATCH 67/72] fix: l1ls.solve_jit accepts start vectors

x0 and u0 were marked static; arrays are not hashable, so the compiled
solver could not be started from a given point.
---
 src/cr/sparse/_src/cvx/l1ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 5f69d1a..5d14ac2 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -382,4 +382,4 @@ def solve(A, y, lambda_, x0=None, u0=None, tol=1e-3, xi=1e-3, t0=None,
     return solve_from(A, y, lambda_, x0, u0, tol, xi, t0, max_iters, pcg_max_iters)
 
 solve_jit  = jit(solve,
-    static_argnames=("A", "x0", "u0", "tol", "xi", "t0", "max_iters", "pcg_max_iters"))
+    static_argnames=("A", "tol", "xi", "t0", "max_iters", "pcg_max_iters"))
-- 
2.43.0


From d5214005732a432e60b47fdbd54d1db37b9696d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 68/72] fix: fir_filter and running_average keep the signal
 length when the filter is longer than the signal

---
 src/cr/sparse/_src/lop/filters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index 28920ef..f679bdf 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -23,7 +23,8 @@ def running_average(n, length, axis=0):
     """
     start = length // 2
     filter = jnp.ones(length) / length
-    times1d = lambda x : jnp.convolve(x, filter, 'same')
+    begin = (length - 1) // 2
+    times1d = lambda x : jnp.convolve(x, filter, 'full')[begin:begin+n]
     trans1d = lambda x : jnp.convolve(x, filter, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
     return Operator(times=times, trans=trans, shape=(n,n))
@@ -35,7 +36,8 @@ def fir_filter(n, h, axis=0):
     h_conj = _hermitian(h[::-1])
     m = len(h)
     start = m // 2
-    times1d = lambda x : jnp.convolve(x, h, 'same')
+    begin = (m - 1) // 2
+    times1d = lambda x : jnp.convolve(x, h, 'full')[begin:begin+n]
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
     return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
-- 
2.43.0


From 1417710469f6a657e6bebd776ecfdcd86761991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 69/72] fix: SPG line search interpolates with the directional
 derivative

---
 src/cr/sparse/_src/opt/spg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 4bcb80f..4996c18 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -120,7 +120,7 @@ def line_search(func, x, d, f_max, f_last, gamma, delta):
     def next_func(state):
         alpha = state.alpha
         denom = state.f_val - f_last - alpha * delta
-        alpha_tmp = - 0.5 * (alpha**2) / denom
+        alpha_tmp = - 0.5 * (alpha**2) * delta / denom
         alpha = lax.cond(
             jnp.logical_and(
                 alpha_tmp >= SIGMA_1,
-- 
2.43.0


From 5ac938d67778e196c69e0a444fcb726cbbc7acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:10 +0000
Subject: [PATCH 70/72] fix: YALL1 reports the residual of the non-negative
 solution it returns

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 1e2a2ed..8313a3f 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -539,11 +539,17 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         else:
             # It's a basis pursuit problem
             state = solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters)
-    x = jnp.where(nonneg, jnp.maximum(0, state.x), state.x)
+    x = state.x
+    rp = state.rp
+    if nonneg:
+        x = jnp.maximum(0, x)
+        # the residual of the non-negative solution
+        rp = b - A.times(x)
+        n_times += 1
     if W:
         # go back from sparsifying basis to signal space
         x = W.times(x)
-    return RecoveryFullSolution(x=b_max*x, r=b_max*state.rp, 
+    return RecoveryFullSolution(x=b_max*x, r=b_max*rp, 
         iterations=state.iterations,
         n_times=state.n_times+n_times, 
         n_trans=state.n_trans+n_trans)
-- 
2.43.0


From 5a9b2f5c61a589fc5af7c268937791b73600a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:38 +0000
Subject: [PATCH 71/72] fix: YALL1 does not stop at an iterate because it is
 zero

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 8313a3f..5598d57 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -22,6 +22,7 @@ from typing import NamedTuple, List, Dict
 import jax.numpy as jnp
 from jax import jit, lax, vmap
 norm = jnp.linalg.norm
+EPS = jnp.finfo(jnp.float32).eps ** 2
 
 from cr.sparse import lop
 from cr.sparse import RecoveryFullSolution
@@ -159,7 +160,7 @@ def solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters):
         # limit on number of iterations
         more_iters = state.iterations < max_iters
         # x norm
-        x_norm = norm(state.x)
+        x_norm = jnp.maximum(norm(state.x), EPS)
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
@@ -292,7 +293,7 @@ def solve_l1_l2(A, b, x0, z0, w, nonneg, rho, gamma, tolerance, max_iters):
         condition = state.iterations < max_iters
 
         # x norm
-        x_norm = norm(state.x)
+        x_norm = jnp.maximum(norm(state.x), EPS)
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
@@ -415,7 +416,7 @@ def solve_l1_l2con(A, b, x0, z0, w, nonneg, delta, gamma, tolerance, max_iters):
         more_iters = state.iterations < max_iters
 
         # x norm
-        x_norm = norm(state.x)
+        x_norm = jnp.maximum(norm(state.x), EPS)
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-- 
2.43.0


From cf9d4038dafc9b219b320320531e9eb08e0e88df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:18 +0000
Subject: [PATCH 72/72] fix: matrix_affine_func without a matrix acts as the
 identity in every mode

---
 src/cr/sparse/_src/fom/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index dcdc538..177c5ec 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -55,7 +55,7 @@ def matrix_affine_func(A=None, b=None):
     ax_plus_b = identity
     if A is None:
         # We assume that A is identity
-        ax_plus_b  = translate
+        ax_plus_b  = identity if b is None else translate
     elif b is None:
         # we compute y = A @ x
         ax_plus_b = similar
@@ -67,9 +67,9 @@ def matrix_affine_func(A=None, b=None):
     @partial(jit, static_argnums=(1,))
     def operator(x, mode=0):
         if mode == 0:
-            return A @ x
+            return x if A is None else A @ x
         if mode == 1:
-            return AH_v(A, x)
+            return x if A is None else AH_v(A, x)
         if mode == 2:
             return ax_plus_b(x)
 
-- 
2.43.0

