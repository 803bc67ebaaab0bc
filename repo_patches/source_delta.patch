From 402d9149b557a993bec4e0afeee8cd659a23a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 01/50] fix: ExtendedGenerator uses the functions of its bit
 generator's current variant

The function pointers were copied when the generator was constructed, so that
a generator unpickled, copied, or whose state was set to that of another
variant (e.g., Philox 2x32, Squares 32) produced a different stream.
---
 randomgen/generator.pyx | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..1b57d11 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -159,8 +159,8 @@ cdef class ExtendedGenerator:
     """
 
     cdef public object _bit_generator
-    cdef bitgen_t _bitgen
-    cdef object lock, _generator
+    cdef bitgen_t *_bitgen
+    cdef object lock
 
     def __init__(self, bit_generator=None):
         if bit_generator is None:
@@ -172,10 +172,8 @@ cdef class ExtendedGenerator:
         if not PyCapsule_IsValid(capsule, name):
             raise ValueError("Invalid bit generator. The bit generator must "
                              "be instantized.")
-        self._bitgen = (<bitgen_t *> PyCapsule_GetPointer(capsule, name))[0]
+        self._bitgen = <bitgen_t *> PyCapsule_GetPointer(capsule, name)
         self.lock = bit_generator.lock
-        from numpy.random import Generator
-        self._generator = Generator(bit_generator)
 
     def __repr__(self):
         out = object.__repr__(self)
@@ -347,9 +345,9 @@ cdef class ExtendedGenerator:
 
         key = np.dtype(dtype).name
         if key == "float64":
-            return double_fill(&random_double_fill, &self._bitgen, size, self.lock, out)
+            return double_fill(&random_double_fill, self._bitgen, size, self.lock, out)
         elif key == "float32":
-            return float_fill(&random_float, &self._bitgen, size, self.lock, out)
+            return float_fill(&random_float, self._bitgen, size, self.lock, out)
         elif key == np.dtype("longdouble").name:
             if np.longdouble(1).nbytes != random_long_double_size():
                 raise RuntimeError(
@@ -366,7 +364,7 @@ cdef class ExtendedGenerator:
             out_data = <long double*>np.PyArray_DATA(out_array)
             out_size = out_array.size
             with self.lock, nogil:
-                random_long_double_fill(&self._bitgen, out_size, out_data)
+                random_long_double_fill(self._bitgen, out_size, out_data)
             if out is None and size is None:
                 return out_array[0]
             return out_array
@@ -543,7 +541,11 @@ cdef class ExtendedGenerator:
                 final_size.append(max(s, os))
             out_shape = tuple(final_size)
 
-        out = self._generator.standard_normal(out_shape + (1, n,))
+        # Generator copies the bit generator's functions, which can change when
+        # its state is set, and so a new one is needed
+        from numpy.random import Generator
+
+        out = Generator(self._bit_generator).standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
         if drop_dims and final.shape[0] == 1:
@@ -648,8 +650,8 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                f_real = random_standard_normal(self._bitgen)
+                f_imag = random_standard_normal(self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
@@ -662,8 +664,8 @@ cdef class ExtendedGenerator:
             j = 0
             with self.lock, nogil:
                 for i in range(n):
-                    f_real = random_standard_normal(&self._bitgen)
-                    f_imag = random_standard_normal(&self._bitgen)
+                    f_real = random_standard_normal(self._bitgen)
+                    f_imag = random_standard_normal(self._bitgen)
                     compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                     fvar_i, f_rho)
                     randoms_data[j] = f_real
@@ -703,7 +705,7 @@ cdef class ExtendedGenerator:
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-                randoms_data[i] = random_standard_normal(&self._bitgen)
+                randoms_data[i] = random_standard_normal(self._bitgen)
         with nogil:
             j = 0
             for i in range(n):
@@ -722,7 +724,7 @@ cdef class ExtendedGenerator:
     cdef object random_wishart_small_df(
             self, int64_t df, np.npy_intp dim, np.npy_intp num, object n
     ):
-        double_fill(&random_standard_normal_fill, &self._bitgen, None, self.lock, n)
+        double_fill(&random_standard_normal_fill, self._bitgen, None, self.lock, n)
         return np.matmul(np.transpose(n, (0, 2, 1)), n)
 
     def standard_wishart(self, int64_t df, np.npy_intp dim, size=None, rescale=True):
@@ -798,7 +800,7 @@ cdef class ExtendedGenerator:
             n = <np.ndarray> np.empty((dim, dim))
             n_data = <double *> np.PyArray_DATA(n)
             with self.lock, nogil:
-                random_wishart_large_df(&self._bitgen, df, dim, num, out_data, n_data)
+                random_wishart_large_df(self._bitgen, df, dim, num, out_data, n_data)
         if size is None or size == ():
             out.shape = (dim, dim)
         else:
@@ -974,7 +976,7 @@ and the trailing dimensions must match exactly so that
                 temp = self.random_wishart_small_df(df_i, dim, block_size, small_work)
             else:
                 with self.lock, nogil:
-                    random_wishart_large_df(&self._bitgen,
+                    random_wishart_large_df(self._bitgen,
                                             df_i,
                                             <np.npy_intp>dim,
                                             <np.npy_intp>block_size,
-- 
2.43.0


From 196d0bba56635023667275f99a6b05caca163ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:45 +0000
Subject: [PATCH 02/50] fix: hold the lock when complex_normal draws a scalar

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1b57d11..dbe4484 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -650,8 +650,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(self._bitgen)
-                f_imag = random_standard_normal(self._bitgen)
+                with self.lock, nogil:
+                    f_real = random_standard_normal(self._bitgen)
+                    f_imag = random_standard_normal(self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From cac29e78d1a8c84c294f97a38a6fa675da32f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:08 +0000
Subject: [PATCH 03/50] fix: complex_normal broadcasts gamma with relation and
 rejects an incompatible size

---
 randomgen/generator.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index dbe4484..27d89db 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -686,7 +686,8 @@ cdef class ExtendedGenerator:
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
+        # Ensure cov has the broadcast shape of gamma and relation
+        cov = 0.5 * np.imag(orelation) + np.zeros_like(v_real)
         rho = np.zeros_like(cov)
         idx = (v_real.flat > 0) & (v_imag.flat > 0)
         rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
@@ -703,6 +704,11 @@ cdef class ExtendedGenerator:
         n = np.PyArray_SIZE(randoms)
 
         it = np.PyArray_MultiIterNew5(randoms, oloc, v_real, v_imag, rho)
+        if it.shape != np.shape(randoms):
+            raise ValueError(
+                f"Output size {np.shape(randoms)} is not compatible with the "
+                f"broadcast dimensions of inputs {it.shape}."
+            )
         with self.lock, nogil:
             n2 = 2 * n  # Avoid compiler noise for cast
             for i in range(n2):
-- 
2.43.0


From 103a76d634855dbd2d453fabd1dbe0de73f96e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:27 +0000
Subject: [PATCH 04/50] fix: wishart accepts lists and integer arrays when df
 or scale is broadcast

---
 randomgen/generator.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 27d89db..486b370 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -963,9 +963,11 @@ and the trailing dimensions must match exactly so that
         out_shape = out.shape
         out = out.reshape((-1, np.prod(it_shape), dim, dim))
         temp_shape = np.shape(out[..., 0, :, :])
-        _factors = np.empty_like(scale)
-        for loc in np.ndindex(*scale.shape[:len(scale.shape) - 2]):
-            _factors[loc] = _factorize(scale[loc], method, check_valid, tol, rank_val)
+        _factors = np.empty_like(shape_arr)
+        for loc in np.ndindex(*shape_size):
+            _factors[loc] = _factorize(
+                shape_arr[loc], method, check_valid, tol, rank_val
+            )
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From 461fbef9c1b89fea222fbafdf1b86347b477e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 05/50] fix: wishart scales variates so that their expectation
 is df * scale

The factor of scale was applied transposed.
---
 randomgen/generator.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 486b370..aee2a5f 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -923,6 +923,9 @@ cdef class ExtendedGenerator:
             df_i = df_arr.item()
             out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
+            if method != "factor":
+                # _factorize returns F where F.T @ F = scale
+                factor = factor.T
             np.matmul(factor, out, out=out)
             np.matmul(out, factor.T, out=out)
             return out
@@ -965,9 +968,11 @@ and the trailing dimensions must match exactly so that
         temp_shape = np.shape(out[..., 0, :, :])
         _factors = np.empty_like(shape_arr)
         for loc in np.ndindex(*shape_size):
-            _factors[loc] = _factorize(
+            factor = _factorize(
                 shape_arr[loc], method, check_valid, tol, rank_val
             )
+            # _factorize returns F where F.T @ F = scale, except for "factor"
+            _factors[loc] = factor if method == "factor" else factor.T
         _factors = _factors.reshape((-1, dim, dim))
 
         large_values = np.empty((block_size, dim, dim), dtype=np.float64)
-- 
2.43.0


From f7ebd30d42052f77b3e19a08ac17af88026a7a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 06/50] fix: reduced-rank Cholesky factors undo the pivoting of
 pstrf and drop unused rows

---
 randomgen/generator.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index aee2a5f..d5c26fe 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -102,8 +102,12 @@ cdef _factorize(cov, meth, check_valid, tol, rank):
                 )
 
             func = get_lapack_funcs("pstrf")
-            _factor, _, rank_c, _ = func(cov)
+            _factor, piv, rank_c, _ = func(cov)
             _factor = np.triu(_factor)
+            # Rows after the rank are not part of the factor
+            _factor[min(rank, rank_c):] = 0.0
+            # Undo the pivoting of the columns, piv is 1-based
+            _factor = _factor[:, np.argsort(piv)]
             psd = rank_c >= rank
 
     if not psd and check_valid != "ignore":
-- 
2.43.0


From 11c0a2d25c4733b9d7e3e37252e129cf0857fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:00 +0000
Subject: [PATCH 07/50] fix: RDRAND does not read past the end of its buffer
 after a failure

---
 randomgen/rdrand.pxd | 2 ++
 randomgen/rdrand.pyx | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/randomgen/rdrand.pxd b/randomgen/rdrand.pxd
index 6137c71..145913a 100644
--- a/randomgen/rdrand.pxd
+++ b/randomgen/rdrand.pxd
@@ -7,6 +7,8 @@ DEF BUFFER_SIZE = 256
 
 cdef extern from "src/rdrand/rdrand.h":
 
+    const uint64_t PHI_M_1
+
     struct s_rdrand_state:
         uint64_t buffer[BUFFER_SIZE]
         int buffer_loc
diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..c9b1160 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -38,6 +38,11 @@ cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
         # Only refill if good status
         # This function will
         status = rdrand_fill_buffer(state)
+    if state.buffer_loc >= BUFFER_SIZE:
+        # An earlier failure has been reported and the buffer is exhausted.
+        # Use a naive PRNG so that rejection samplers always exit.
+        state.weyl_seq += PHI_M_1
+        return state.weyl_seq
     val = state.buffer[state.buffer_loc]
     state.buffer_loc += 1
     if status == 0:
-- 
2.43.0


From a9116e737a6ac53f6d3147569e24ce76e16d0b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:13 +0000
Subject: [PATCH 08/50] fix: RDRAND.random_raw accepts a tuple for size when
 output is False

---
 randomgen/rdrand.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index c9b1160..12fe83f 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -369,7 +369,7 @@ cdef class RDRAND(BitGenerator):
         cdef int status
 
         if not output:
-            n = 1 if size is None else size
+            n = 1 if size is None else np.prod(size, dtype=np.intp)
             status = self.rng_state.status
             with self.lock, nogil:
                 for i in range(n):
-- 
2.43.0


From ffba26189857b4ead74a956694a7d63a5c080414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:13 +0000
Subject: [PATCH 09/50] fix: random_raw with output=False draws as many values
 as with output=True

---
 randomgen/common.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..98fe6de 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -234,7 +234,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = np.prod(size, dtype=np.intp)
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
-- 
2.43.0


From 1968d528c41ab4f15ae5eb216e15ddd49dbadfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 10/50] fix: advance of a fresh or reset Philox or ThreeFry
 with number=2

buffer_pos is reset to 4, which was not treated as an exhausted buffer when N is 2.
---
 randomgen/src/philox/philox.c     | 2 +-
 randomgen/src/threefry/threefry.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..69e5570 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -10,7 +10,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
   philox##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                      \
   next_buffer_pos = state->buffer_pos + rem;                                              \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
             && (use_carry > 0);                                                           \
   state->buffer_pos = next_buffer_pos % N;                                                \
   for (i = 0; i < N; i++) {                                                               \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..e6cfb87 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -10,7 +10,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
   threefry##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                        \
   next_buffer_pos = state->buffer_pos + rem;                                                \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
             && (use_carry > 0);                                                             \
   state->buffer_pos = next_buffer_pos % N;                                                  \
   for (i = 0; i < N; i++) {                                                                 \
-- 
2.43.0


From 8b3efc3872c99dd2004edadccbc0999615a92dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:03 +0000
Subject: [PATCH 11/50] fix: Philox and ThreeFry advance uses the top bits of
 delta, e.g., when negative

---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index 69e5570..ef6abb7 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -17,9 +17,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index e6cfb87..4a85be0 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -17,9 +17,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From 154c2c1f6e6610d14ffcc54bf0a9dfea1f42f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 12/50] fix: Philox uses counter when seeding in numpy mode

---
 randomgen/philox.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..a31336f 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -242,7 +242,7 @@ cdef class Philox(BitGenerator):
     def _seed_from_seq_numpy_compat(self, counter=None):
         if self.n != 4 or self.w != 64:
             raise ValueError("n must be 4 and w must br 64 when using mode='numpy'")
-        return self._seed_from_seq()
+        return self._seed_from_seq(counter=counter)
 
     def seed(self, seed=None, counter=None, key=None):
         """
-- 
2.43.0


From 76d4dd957d64e9084e56cea8b9087cace4b51e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 13/50] fix: Squares key generation does not read past the end
 of its random well

---
 randomgen/squares.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..94727e2 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -88,7 +88,7 @@ cdef class _SequenceSampler:
         self.bit_well = <uint64_t>self.random_well[self.index]
         self.bit_well_loc = 0
         self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
-- 
2.43.0


From aebd36adf55d79b1d9015a8011f1ff0ecea4f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 14/50] fix: Squares restores a stored 32-bit value when its
 state is set

---
 randomgen/squares.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 94727e2..c8e0142 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -547,6 +547,9 @@ cdef class Squares(BitGenerator):
         self.variant = variant
         self._use64 = variant == 64
         self._setup_bitgen()
+        # Default for states that predate these values
+        self.rng_state.has_uint32 = value.get("has_uint32", 0)
+        self.rng_state.uinteger = value.get("uinteger", 0)
 
     def advance(self, uint64_t delta):
         """
-- 
2.43.0


From 3207541631b72c9bb2ba4e697555f4da31fb2908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 15/50] fix: SFC64.weyl_increments always uses between min_bits
 and max_bits bits

---
 randomgen/sfc.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index e16d8eb..1d84545 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -291,7 +291,7 @@ cdef class SFC64(BitGenerator):
         out = np.empty(n, dtype=np.uint64)
         out_arr = <uint64_t *>np.PyArray_DATA(out)
         for i in range(n):
-            val = <uint64_t>gen.integers(0, total, endpoint=True, dtype=np.uint64)
+            val = <uint64_t>gen.integers(0, total, endpoint=False, dtype=np.uint64)
             nonzero_bits = 0
             for j in range(nbits):
                 if val < cum_count_arr[j] and nonzero_bits == 0:
-- 
2.43.0


From f6a5a1178ea02340a02d2ac0709de40a6213d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:31 +0000
Subject: [PATCH 16/50] fix: random_entropy returns an empty array when size is
 0

---
 randomgen/entropy.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..9bc00cd 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -174,8 +174,9 @@ def random_entropy(size=None, source="system"):
         n = compute_numel(size)
         randoms = np.zeros(n, dtype=np.uint32)
         if source in ("system", "auto"):
-            success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
-        else:
+            if n > 0:
+                success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
+        elif n > 0:
             success = entropy_fallback_getbytes(<void *>(&randoms[0]), 4 * n)
     if _test_sentinel.testing_auto and source == "auto":
         success = False
@@ -191,6 +192,6 @@ def random_entropy(size=None, source="system"):
             raise RuntimeError("Unable to read from system cryptographic "
                                "provider or use fallback")
 
-    if n == 0:
+    if size is None:
         return random
     return np.asarray(randoms).reshape(size)
-- 
2.43.0


From 960e499b410086c614fd8fb456f494352dd639ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 17/50] fix: LCG128Mix uses the multiplier and output of the
 last state set

After setting the state, reseeding used the constructor's multiplier, and a
generator constructed with a custom output function always reported it.
---
 randomgen/pcg64.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..504690b 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -851,8 +851,13 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
         self.rng_state.pcg_state.post = value["state"]["post"]
         output_func = value["state"]["output_func"]
+        self.multiplier = multiplier
+        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        self.post = bool(value["state"]["post"])
         if isinstance(output_func, str):
-            self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
+            self._cfunc = None
+            self.output_function = self._output_lookup[output_func]
+            self.rng_state.pcg_state.output_idx = self.output_function
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
 
-- 
2.43.0


From bbf0a627707b8a2ef9452ef4dafc4c241143583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 18/50] fix: setting a state that contains strided arrays

---
 randomgen/common.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 98fe6de..a655e65 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -405,7 +405,8 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
         raise ValueError("State element {0} must be a 1-d array with dtype {1} "
                          "and {2} elements".format(name, req_dtype,
                                                    required_len))
-    return arr
+    # The data pointer is used in some bit generators
+    return np.ascontiguousarray(arr)
 
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
-- 
2.43.0


From ee77baba3f7810a989ba9eb8f84fa8ca08850209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:35 +0000
Subject: [PATCH 19/50] fix: multivariate_complex_normal with 2 or more leading
 dimensions of gamma or relation

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index d5c26fe..1b03224 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -1222,12 +1222,14 @@ and the trailing dimensions must match exactly so that
         else:
             _shape = np.shape(garr)[: gdim - 2]
             gidx = np.arange(np.prod(_shape)).reshape(_shape)
+            garr = np.reshape(garr, (-1, dim, dim))
         if rdim == 2:
             ridx = np.array([0])
             rarr = np.reshape(rarr, (1,) + np.shape(rarr))
         else:
             _shape = np.shape(rarr)[: rdim - 2]
             ridx = np.arange(np.prod(_shape)).reshape(_shape)
+            rarr = np.reshape(rarr, (-1, dim, dim))
 
         factors = np.empty(common_shape + (2 * dim, 2 * dim)).reshape(
             (-1, 2 * dim, 2 * dim)
-- 
2.43.0


From e727c2e8950a4aad07b5aab6faa170c6be7a24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 20/50] fix: ctypes and cffi interfaces follow the variant of
 the state that was set

---
 randomgen/common.pyx | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index a655e65..4cc265a 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -145,7 +145,14 @@ cdef class BitGenerator(_BitGenerator):
             * next_double - function pointer to produce doubles
             * bit_generator - pointer to the bit generator struct
         """
-        if self._ctypes is None:
+        import ctypes
+
+        # The functions change when the state of another variant is set
+        if (
+            self._ctypes is None
+            or ctypes.cast(self._ctypes.next_uint64, ctypes.c_void_p).value
+            != <uintptr_t>self._bitgen.next_uint64
+        ):
             self._ctypes = prepare_ctypes(&self._bitgen)
 
         return self._ctypes
@@ -168,7 +175,12 @@ cdef class BitGenerator(_BitGenerator):
             * bit_generator - pointer to the bit generator struct
         """
         if self._cffi is not None:
-            return self._cffi
+            import cffi
+
+            # The functions change when the state of another variant is set
+            address = cffi.FFI().cast("uintptr_t", self._cffi.next_uint64)
+            if int(address) == <uintptr_t>self._bitgen.next_uint64:
+                return self._cffi
         self._cffi = prepare_cffi(&self._bitgen)
         return self._cffi
 
-- 
2.43.0


From dba69ffcff0cf35347310da9c6affd4b5207b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 21/50] fix: Philox and ThreeFry advance and jump the same from
 a block boundary however it was reached

---
 randomgen/philox.pyx   | 3 +++
 randomgen/threefry.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index a31336f..cb91402 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -538,6 +538,9 @@ cdef class Philox(BitGenerator):
             return self
         if counter:
             delta *= self.n
+            if self.rng_state.buffer_pos == 0:
+                # The current block is unused when it was reached by advancing
+                delta -= self.n
         delta = wrap_int(delta, self.n * self.w + self.n // 2)
 
         cdef np.ndarray delta_a
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..3c8118b 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -517,6 +517,9 @@ cdef class ThreeFry(BitGenerator):
             return self
         if counter:
             delta *= self.n
+            if self.rng_state.buffer_pos == 0:
+                # The current block is unused when it was reached by advancing
+                delta -= self.n
         delta = wrap_int(delta, self.n * self.w + self.n // 2)
 
         cdef np.ndarray delta_a
-- 
2.43.0


From 905aec60213534bb7051e31f8792ae5eb204d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 22/50] fix: HC128 discards its buffer when seeded again

---
 randomgen/hc128.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index b14ec79..567b81e 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -164,6 +164,8 @@ cdef class HC128(BitGenerator):
         # Ensure state uint32 values are the same in LE and BE and in the same order
         state = view_little_endian(state, np.uint32)
         hc128_seed(&self.rng_state, <uint32_t *>np.PyArray_DATA(state))
+        # Discard values buffered before the generator was re-seeded
+        self.rng_state.buffer_idx = 0
 
     @property
     def state(self):
-- 
2.43.0


From 7ffbcbb7b4cc6820539cd7104d6a1c9d0b975670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 23/50] fix: lists of keys or counters with elements on both
 sides of 2**63 are not rounded

---
 randomgen/common.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4cc265a..be7ab8c 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -377,10 +377,14 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
-        val = np.array(val)
+        orig = val
+        val = np.array(orig)
         if not np.issubdtype(val.dtype, np.number):
             raise ValueError("{0} contains non-numeric values or values "
                              "out-of-range".format(name))
+        if val.dtype.kind == "f":
+            # Integers on both sides of 2**63 are rounded when converted to floats
+            val = np.array(orig, dtype=object)
         if not np.all((val // 1) == val):
             raise TypeError("{0} contains floating point values".format(name))
         max_val = np.iinfo(dtype).max
-- 
2.43.0


From 5929e0270b1f43d2fb43480155d2fc4be70b53ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:50 +0000
Subject: [PATCH 24/50] fix: seeding Xorshift1024 again resets the position in
 its state

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 7d3d17ead5b1f02d42e0131e02b34bc786d027f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:07 +0000
Subject: [PATCH 25/50] fix: advance accepts NumPy integers and refuses
 fractions; Squares does not truncate its key and counter

---
 randomgen/common.pyx  | 5 +++++
 randomgen/squares.pyx | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index be7ab8c..2057bc6 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -407,6 +407,11 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
 cdef object wrap_int(object val, object bits):
     """Wraparound to place an integer into the interval [0, 2**bits)"""
     upper = int(2)**int(bits)
+    # NumPy integers would overflow and fractions would be lost
+    orig = val
+    val = int(val)
+    if val != orig:
+        raise TypeError("value must be an integer.")
     if not 0<= val < upper:
         divisor = val // upper
         val = val - upper * divisor
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index c8e0142..6bbc22d 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -459,7 +459,10 @@ cdef class Squares(BitGenerator):
 
     @staticmethod
     cdef uint64_t _check_value(self, object val, object name, bint odd):
+        orig = val
         val = int(val)
+        if val != orig:
+            raise TypeError(f"{name} must be an integer.")
         if not 0 <= val <= np.iinfo(np.uint64).max:
             raise ValueError(f"{name} must be positive and less than 2**64.")
 
@@ -551,7 +554,7 @@ cdef class Squares(BitGenerator):
         self.rng_state.has_uint32 = value.get("has_uint32", 0)
         self.rng_state.uinteger = value.get("uinteger", 0)
 
-    def advance(self, uint64_t delta):
+    def advance(self, object delta):
         """
         advance(delta)
 
@@ -568,7 +571,7 @@ cdef class Squares(BitGenerator):
         self : Squares
             The PRNG advanced by delta steps.
         """
-        self.rng_state.counter += delta
+        self.rng_state.counter += self._check_value(delta, "delta", False)
         self._reset_state_variables()
         return self
 
-- 
2.43.0


From 788ed7e811991a4d822241ad2b8c8518b5cab146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:05 +0000
Subject: [PATCH 26/50] fix: increments and indices that are not integers are
 refused, not truncated

---
 randomgen/lxm.pyx   | 2 ++
 randomgen/pcg64.pyx | 2 ++
 randomgen/sfc.pyx   | 3 +++
 randomgen/tyche.pyx | 2 ++
 4 files changed, 9 insertions(+)

diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f927877..f303d26 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -128,6 +128,8 @@ cdef class LXM(BitGenerator):
     """
     def __init__(self, seed=None, *, b=3037000493):
         BitGenerator.__init__(self, seed)
+        if int(b) != b:
+            raise TypeError("b must be an integer.")
         self.seed(seed)
 
         self.rng_state.b = <uint64_t>b | 1
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 504690b..aa224d6 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -764,6 +764,8 @@ cdef class LCG128Mix(BitGenerator):
             a ``SeedSequence`` (which is shared with seed if seed is also
             None).
         """
+        if inc is not None and int(inc) != inc:
+            raise TypeError("inc must be an integer.")
         BitGenerator._seed_with_seed_sequence(self, seed, inc=inc)
 
     @property
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 1d84545..23711c4 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -124,6 +124,9 @@ cdef class SFC64(BitGenerator):
 
     def __init__(self, seed=None, w=1, k=1, *, numpy_seed=False, mode=_DeprecatedValue):
         BitGenerator.__init__(self, seed, numpy_seed=numpy_seed, mode=mode)
+        for val in (w, k):
+            if val is not None and int(val) != val:
+                raise TypeError("w and k must be integers.")
         self.w = w
         self.k = k
         self.seed(seed)
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 078f367..689b4c1 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -137,6 +137,8 @@ cdef class Tyche(BitGenerator):
         else:
             if not 0 <= idx <= np.iinfo(np.uint32).max:
                 raise ValueError("idx must be in the interval [0, 2**32).")
+            if int(idx) != idx:
+                raise TypeError("idx must be an integer.")
             _idx = <uint32_t>idx
         tyche_seed(&self.rng_state, state, _idx, <int>self.original)
 
-- 
2.43.0


From 208d9f86bce3683033a4bc34fcc7bc0a6c73568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:48 +0000
Subject: [PATCH 27/50] fix: SeedSequence accepts small signed NumPy integers

---
 randomgen/_seed_sequence.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/_seed_sequence.pyx b/randomgen/_seed_sequence.pyx
index e5cba28..9c77cd3 100644
--- a/randomgen/_seed_sequence.pyx
+++ b/randomgen/_seed_sequence.pyx
@@ -72,7 +72,7 @@ def _int_to_uint32_array(n):
         raise ValueError("expected non-negative integer")
     if n == 0:
         arr.append(np.uint32(n))
-    if isinstance(n, np.unsignedinteger):
+    if isinstance(n, np.integer):
         # Cannot do n & MASK32, convert to python int
         n = int(n)
     while n > 0:
-- 
2.43.0


From ead1e1b1b288a0ae9568a58deb67ddd54e068489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 28/50] fix: the entropy source is closed when reading it fails

---
 randomgen/src/entropy/entropy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..571d88b 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -82,8 +82,10 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (fd < 0)
     return false;
   ssize_t sz = read(fd, dest, size);
-  if ((sz < 0) || ((size_t)sz < size))
+  if ((sz < 0) || ((size_t)sz < size)) {
+    close(fd);
     return false;
+  }
   return close(fd) == 0;
 }
 #endif
-- 
2.43.0


From 8ba8ae4ee4553e66da495a23013283b544831cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:42 +0000
Subject: [PATCH 29/50] fix: fallback entropy reports a failed allocation
 instead of crashing

---
 randomgen/src/entropy/entropy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 571d88b..7f957d7 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -154,10 +154,12 @@ uint32_t entropy_randombytes(void) {
 }
 
 bool entropy_fallback_getbytes(void *dest, size_t size) {
-  int hashes = (int)size;
+  size_t hashes = size;
   uint32_t *hash = malloc(hashes * sizeof(uint32_t));
   // uint32_t hash[hashes];
-  int i;
+  size_t i;
+  if (hash == NULL)
+    return false;
   for (i = 0; i < hashes; i++) {
     hash[i] = entropy_randombytes();
   }
-- 
2.43.0


From 9875468b2bca867742df0e1d0cb6deb08271c505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:20 +0000
Subject: [PATCH 30/50] fix: on Windows, entropy is reported as missing when
 there is no provider

---
 randomgen/src/entropy/entropy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 7f957d7..67f7520 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -98,7 +98,7 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (!CryptAcquireContext(&hCryptProv, NULL, NULL, PROV_RSA_FULL,
                            CRYPT_VERIFYCONTEXT) ||
       !hCryptProv) {
-    return true;
+    return false;
   }
   done = CryptGenRandom(hCryptProv, (DWORD)size, (unsigned char *)dest);
   CryptReleaseContext(hCryptProv, 0);
-- 
2.43.0


From 19af894f2306df3b8ee43e5d5be6086395e55a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:47 +0000
Subject: [PATCH 31/50] fix: seed_by_array does not round lists with elements
 on both sides of 2**63

---
 randomgen/entropy.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 9bc00cd..eedfedb 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,7 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        obj = np.asarray(seed, dtype=object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From f08e634c1eb49fa96588d378c261e5213cd03433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:43 +0000
Subject: [PATCH 32/50] fix: random refuses an out that is not an array instead
 of crashing

---
 randomgen/broadcasting.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/broadcasting.pyx b/randomgen/broadcasting.pyx
index 126ffb6..236537f 100644
--- a/randomgen/broadcasting.pyx
+++ b/randomgen/broadcasting.pyx
@@ -97,6 +97,8 @@ cdef check_output(object out, object dtype, object size, bint require_c_array):
     """
     if out is None:
         return
+    if not isinstance(out, np.ndarray):
+        raise TypeError('Supplied output array must be an ndarray.')
     cdef np.ndarray out_array = <np.ndarray> out
     if not (np.PyArray_ISCARRAY(out_array) or
             (np.PyArray_ISFARRAY(out_array) and not require_c_array)):
-- 
2.43.0


From 91b43b4890c96518d10c32d636d3f6433abf0458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:43 +0000
Subject: [PATCH 33/50] fix: UserBitGenerator refuses bits other than 32 and 64

---
 randomgen/wrapper.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index a4a63f0..d6f8924 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -111,6 +111,8 @@ cdef class UserBitGenerator(BitGenerator):
                  next_double=None, state=None, state_getter=None,
                  state_setter=None):
         BitGenerator.__init__(self, 0)
+        if bits not in (32, 64):
+            raise ValueError("bits must be 32 or 64")
         self.funcs = {"next_raw": next_raw,
                       "next_64": next_64,
                       "next_32": next_32,
-- 
2.43.0


From 39b43f2fafe447e05e25d046c7f9d564aea7a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 34/50] fix: multivariate_normal returns the shape that size
 asks for, also with 0, () and leading 1s

---
 randomgen/generator.pyx | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1b03224..451b546 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -514,12 +514,6 @@ cdef class ExtendedGenerator:
                 f"the final dimension of mean ({n}). mean must be 1 dimensional"
             )
 
-        drop_dims = (mean.ndim == 1) and (cov.ndim == 2)
-        if mean.ndim == 1:
-            mean = mean.reshape((1, n))
-        if cov.ndim == 2:
-            cov = cov.reshape((1, n, n))
-
         _factors = np.empty_like(cov)
         for loc in np.ndindex(*cov.shape[:len(cov.shape)-2]):
             _factors[loc] = _factorize(cov[loc], method, check_valid, tol, n)
@@ -528,21 +522,21 @@ cdef class ExtendedGenerator:
         if size is not None:
             if isinstance(size, (int, np.integer)):
                 size = (size,)
-            error = len(size) < len(out_shape)
-            final_size = list(size[: -len(out_shape)])
-            for s, os in zip(size[-len(out_shape) :], out_shape):
-                if error or not (s == 1 or os == 1 or s == os):
-                    raise ValueError(
-                        f"The desired out size {size} is not compatible with "
-                        f"the broadcast size of mean and cov {out_shape}. "
-                        f"The desired size must have the same number (or "
-                        f"more) dimensions ({len(size)}) as the broadcast "
-                        f"size or mean and covariance (len({out_shape}). "
-                        f"The final {len(out_shape)} elements of size must be "
-                        f"either 1 or the same as the corresponding element "
-                        f"of the broadcast size."
-                    )
-                final_size.append(max(s, os))
+            lead = len(size) - len(out_shape)
+            trailing = list(zip(size[max(lead, 0):], out_shape))
+            if lead < 0 or not all([s == 1 or os == 1 or s == os for s, os in trailing]):
+                raise ValueError(
+                    f"The desired out size {size} is not compatible with "
+                    f"the broadcast size of mean and cov {out_shape}. "
+                    f"The desired size must have the same number (or "
+                    f"more) dimensions ({len(size)}) as the broadcast "
+                    f"size or mean and covariance (len({out_shape}). "
+                    f"The final {len(out_shape)} elements of size must be "
+                    f"either 1 or the same as the corresponding element "
+                    f"of the broadcast size."
+                )
+            final_size = list(size[:lead])
+            final_size += [os if s == 1 else s for s, os in trailing]
             out_shape = tuple(final_size)
 
         # Generator copies the bit generator's functions, which can change when
@@ -552,8 +546,6 @@ cdef class ExtendedGenerator:
         out = Generator(self._bit_generator).standard_normal(out_shape + (1, n,))
         prod = np.matmul(out, _factors)
         final = mean + np.squeeze(prod, axis=prod.ndim - 2)
-        if drop_dims and final.shape[0] == 1:
-            final = final.reshape(final.shape[1:])
         return final
 
     def complex_normal(self, loc=0.0, gamma=1.0, relation=0.0, size=None):
-- 
2.43.0


From 262a1209709b435fa7e2bd9cf55764acbf75c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 35/50] fix: complex_normal keeps the imaginary part of NumPy
 scalars and 0-d arrays

---
 randomgen/generator.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 451b546..cbae5a5 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -624,6 +624,8 @@ cdef class ExtendedGenerator:
         if (np.PyArray_NDIM(ogamma) ==
                 np.PyArray_NDIM(orelation) ==
                 np.PyArray_NDIM(oloc) == 0):
+            # PyComplex_* ignore the imaginary part of other complex scalars
+            loc, gamma, relation = oloc.item(), ogamma.item(), orelation.item()
             floc_r = PyComplex_RealAsDouble(loc)
             floc_i = PyComplex_ImagAsDouble(loc)
             fgamma_r = PyComplex_RealAsDouble(gamma)
-- 
2.43.0


From e84fb3a6ae8d1cadb289136bd45a8471d8fc46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 36/50] fix: complex_normal refuses a scalar relation that
 correlates a component without variance

---
 randomgen/generator.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index cbae5a5..e24ae52 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -2,7 +2,7 @@
 # cython: wraparound=False, nonecheck=False, boundscheck=False, cdivision=True
 import warnings
 
-from libc.math cimport sqrt
+from libc.math cimport INFINITY, sqrt
 from libc.stdint cimport int64_t, uint32_t, uint64_t
 
 import numpy as np
@@ -644,6 +644,8 @@ cdef class ExtendedGenerator:
             f_rho = 0.0
             if fvar_i > 0 and fvar_r > 0:
                 f_rho = frelation_i / sqrt(fvar_i * fvar_r)
+            elif frelation_i != 0:
+                f_rho = INFINITY
             if f_rho > 1.0 or f_rho < -1.0:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
-- 
2.43.0


From 64b1e1f3fbe3a11bb29f23738f2107cc8325afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 37/50] fix: wishart accepts any sequence as size when df or
 scale is broadcast

---
 randomgen/generator.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index e24ae52..43c578a 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -948,8 +948,7 @@ cdef class ExtendedGenerator:
             out = np.empty(it_shape + (dim, dim))
             block_size = 1
         else:
-            if isinstance(size, (int, np.integer)):
-                size = (int(size),)
+            size = (int(size),) if isinstance(size, (int, np.integer)) else tuple(size)
             if len(size) < len(it_shape) or size[len(size)-len(it_shape):] != it_shape:
                 err_msg = (
 f"""size {size} is not compatible with the broadcast shape of `df` and `scale`
-- 
2.43.0


From c37f757bf0adc9bf730f9418a926697b399838c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:38 +0000
Subject: [PATCH 38/50] fix: wishart draws nothing when scale is refused

---
 randomgen/generator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 43c578a..230a034 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -921,11 +921,11 @@ cdef class ExtendedGenerator:
         df_size = np.shape(df_arr)
         if not df_size and not shape_size:
             df_i = df_arr.item()
-            out = self.standard_wishart(df_i, dim, size, False)
             factor = _factorize(shape_arr, method, check_valid, tol, rank_val)
             if method != "factor":
                 # _factorize returns F where F.T @ F = scale
                 factor = factor.T
+            out = self.standard_wishart(df_i, dim, size, False)
             np.matmul(factor, out, out=out)
             np.matmul(out, factor.T, out=out)
             return out
-- 
2.43.0


From 6e2671077dfa8638c441c9334212cbd99ba4f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 39/50] fix: multivariate_normal with method='factor' uses A
 such that A @ A.T = cov, as documented

---
 randomgen/generator.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 230a034..1c53b2a 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -516,7 +516,9 @@ cdef class ExtendedGenerator:
 
         _factors = np.empty_like(cov)
         for loc in np.ndindex(*cov.shape[:len(cov.shape)-2]):
-            _factors[loc] = _factorize(cov[loc], method, check_valid, tol, n)
+            factor = _factorize(cov[loc], method, check_valid, tol, n)
+            # _factorize returns F where F.T @ F = cov, except for "factor"
+            _factors[loc] = factor.T if method == "factor" else factor
 
         out_shape = np.broadcast(mean[..., 0], cov[..., 0, 0]).shape
         if size is not None:
@@ -1249,7 +1251,7 @@ and the trailing dimensions must match exactly so that
                 )
             factors[fidx] = _factorize(
                 temp[ix], meth=method, check_valid=check_valid, tol=tol, rank=2 * dim
-            )
+            ).T
             fidx += 1
         factors = factors.reshape(common_shape + (2 * dim, 2 * dim))
         out = self.multivariate_normal(
-- 
2.43.0


From 02c5ec4f649266451b6794692beca276aea9a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 40/50] fix: UserBitGenerator accepts any ctypes pointer as
 state, also null ones

---
 randomgen/wrapper.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index d6f8924..6496d4d 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -168,7 +168,8 @@ cdef class UserBitGenerator(BitGenerator):
         self.next_32_ptr = ctypes.cast(self.next_32, ctypes.c_void_p).value
         self.next_raw_ptr = ctypes.cast(self.next_raw, ctypes.c_void_p).value
         self.next_double_ptr = ctypes.cast(self.next_double, ctypes.c_void_p).value
-        self.state_ptr = self.state.value if self.state is not None else 0
+        # A void pointer's value is None when it is null
+        self.state_ptr = ctypes.cast(self.state, ctypes.c_void_p).value or 0
 
         # Get the raw memory address
         self._bitgen.next_uint64 = <next_uint64_t> self.next_64_ptr
-- 
2.43.0


From 53e71628f8b3084eeff6ade4e3720c522da125ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:36 +0000
Subject: [PATCH 41/50] fix: UserBitGenerator refuses what is not callable
 instead of crashing later

---
 randomgen/wrapper.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomgen/wrapper.pyx b/randomgen/wrapper.pyx
index 6496d4d..4312a53 100644
--- a/randomgen/wrapper.pyx
+++ b/randomgen/wrapper.pyx
@@ -118,6 +118,9 @@ cdef class UserBitGenerator(BitGenerator):
                       "next_32": next_32,
                       "next_double": next_double
                       }
+        for name, func in self.funcs.items():
+            if not (callable(func) or (func is None and name != "next_raw")):
+                raise TypeError(f"{name} must be callable")
         self.bits = bits
         self.next_raw = ctypes.CFUNCTYPE(ctypes.c_uint64, ctypes.c_void_p)(next_raw)
         self.next_64 = self._setup_64()
-- 
2.43.0


From 3fb5e296a9fc7774531ed0db0fb4be94158b1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 42/50] fix: hold the lock for the whole of a wishart call with
 array parameters

---
 randomgen/generator.pyx | 59 +++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1c53b2a..bafe6b3 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -731,9 +731,13 @@ cdef class ExtendedGenerator:
         return randoms
 
     cdef object random_wishart_small_df(
-            self, int64_t df, np.npy_intp dim, np.npy_intp num, object n
+            self, int64_t df, np.npy_intp dim, np.npy_intp num, np.ndarray n
     ):
-        double_fill(&random_standard_normal_fill, self._bitgen, None, self.lock, n)
+        # The caller must hold the lock
+        cdef np.npy_intp n_size = np.PyArray_SIZE(n)
+        cdef double *n_data = <double *>np.PyArray_DATA(n)
+        with nogil:
+            random_standard_normal_fill(self._bitgen, n_size, n_data)
         return np.matmul(np.transpose(n, (0, 2, 1)), n)
 
     def standard_wishart(self, int64_t df, np.npy_intp dim, size=None, rescale=True):
@@ -802,7 +806,8 @@ cdef class ExtendedGenerator:
         num = np.prod(sz)
         if df < dim:
             n = <np.ndarray> np.empty((num, df, dim))
-            out = self.random_wishart_small_df(df, dim, num, n)
+            with self.lock:
+                out = self.random_wishart_small_df(df, dim, num, n)
         else:
             out = <np.ndarray>np.empty((num, dim, dim))
             out_data = <double *>np.PyArray_DATA(out)
@@ -981,29 +986,31 @@ and the trailing dimensions must match exactly so that
         large_work = np.empty((dim, dim), dtype=np.float64)
         lwork_data = <double *>np.PyArray_DATA(large_work)
         last_small_df = -1
-        for i in range(cnt):
-            df_i = (<int64_t *> np.PyArray_MultiIter_DATA(it, 0))[0]
-            shape_loc = (<int64_t *> np.PyArray_MultiIter_DATA(it, 1))[0]
-            if df_i < dim:
-                if df_i != last_small_df:
-                    last_small_df = df_i
-                    small_work = np.empty((block_size, df_i, dim), dtype=np.float64)
-                temp = self.random_wishart_small_df(df_i, dim, block_size, small_work)
-            else:
-                with self.lock, nogil:
-                    random_wishart_large_df(self._bitgen,
-                                            df_i,
-                                            <np.npy_intp>dim,
-                                            <np.npy_intp>block_size,
-                                            large_value_data,
-                                            lwork_data)
-                temp = large_values
-            factor = _factors[shape_loc]
-            np.matmul(factor, temp, out=temp)
-            np.matmul(temp, factor.T, out=temp)
-            out[..., i, :, :] = temp.reshape(temp_shape)
-
-            np.PyArray_MultiIter_NEXT(it)
+        # Hold the lock until the last element so that the call is one draw
+        with self.lock:
+            for i in range(cnt):
+                df_i = (<int64_t *> np.PyArray_MultiIter_DATA(it, 0))[0]
+                shape_loc = (<int64_t *> np.PyArray_MultiIter_DATA(it, 1))[0]
+                if df_i < dim:
+                    if df_i != last_small_df:
+                        last_small_df = df_i
+                        small_work = np.empty((block_size, df_i, dim), dtype=np.float64)
+                    temp = self.random_wishart_small_df(df_i, dim, block_size, small_work)
+                else:
+                    with nogil:
+                        random_wishart_large_df(self._bitgen,
+                                                df_i,
+                                                <np.npy_intp>dim,
+                                                <np.npy_intp>block_size,
+                                                large_value_data,
+                                                lwork_data)
+                    temp = large_values
+                factor = _factors[shape_loc]
+                np.matmul(factor, temp, out=temp)
+                np.matmul(temp, factor.T, out=temp)
+                out[..., i, :, :] = temp.reshape(temp_shape)
+
+                np.PyArray_MultiIter_NEXT(it)
         return out.reshape(out_shape)
 
     def multivariate_complex_normal(self, loc, gamma=None, relation=None, size=None, *,
-- 
2.43.0


From 540b1e6172d646a191282d610ec6ce729c047c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:36 +0000
Subject: [PATCH 43/50] fix: standard_wishart draws nothing when size is
 refused

---
 randomgen/generator.pyx | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index bafe6b3..94a8e62 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -798,12 +798,14 @@ cdef class ExtendedGenerator:
         cdef double *out_data
 
         if size is None or size == ():
-            sz = 1
+            sz = ()
         elif np.isscalar(size):
             sz = (int(size),)
         else:
             sz = tuple(size)
-        num = np.prod(sz)
+        # An invalid size is refused before anything is drawn
+        out_shape = np.empty(sz + (dim, dim)).shape
+        num = np.prod(sz, dtype=np.intp)
         if df < dim:
             n = <np.ndarray> np.empty((num, df, dim))
             with self.lock:
@@ -815,10 +817,7 @@ cdef class ExtendedGenerator:
             n_data = <double *> np.PyArray_DATA(n)
             with self.lock, nogil:
                 random_wishart_large_df(self._bitgen, df, dim, num, out_data, n_data)
-        if size is None or size == ():
-            out.shape = (dim, dim)
-        else:
-            out.shape = sz + (dim, dim)
+        out.shape = out_shape
         if rescale:
             out /= df
         return out
-- 
2.43.0


From dac87b1036db44c1512936fd8e82f44d1cadd4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 44/50] fix: a refused seed leaves the seed sequence in use in
 place

---
 randomgen/common.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 2057bc6..71914ba 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -77,14 +77,20 @@ cdef class BitGenerator(_BitGenerator):
         return copy.deepcopy(self._seed_seq)
 
     def _seed_with_seed_sequence(self, seed, **kwargs):
+        previous = self._seed_seq
         if isinstance(seed, ISEED_SEQUENCES):
             self._seed_seq = seed
         else:
             self._seed_seq = SeedSequence(seed)
-        if self.mode == "sequence":
-            self._seed_from_seq(**kwargs)
-        else:  # numpy
-            self._seed_from_seq_numpy_compat(**kwargs)
+        try:
+            if self.mode == "sequence":
+                self._seed_from_seq(**kwargs)
+            else:  # numpy
+                self._seed_from_seq_numpy_compat(**kwargs)
+        except Exception:
+            # The seed sequence of the values that remain in use
+            self._seed_seq = previous
+            raise
 
     @property
     def state(self):
-- 
2.43.0


From c2c3e936360111913e262731b3e79e760428c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 45/50] fix: a refused state, key or counter changes nothing

Everything is converted before the first value is assigned.
---
 randomgen/aes.pyx          | 12 ++++---
 randomgen/chacha.pyx       | 10 +++---
 randomgen/dsfmt.pyx        | 23 +++++++++----
 randomgen/efiix64.pyx      | 20 ++++++-----
 randomgen/hc128.pyx        | 12 ++++---
 randomgen/jsf.pyx          | 39 +++++++++++++--------
 randomgen/lxm.pyx          | 12 ++++---
 randomgen/mt19937.pyx      |  6 ++--
 randomgen/mt64.pyx         | 10 +++---
 randomgen/pcg32.pyx        |  6 ++--
 randomgen/pcg64.pyx        | 36 +++++++++++++-------
 randomgen/philox.pyx       | 70 +++++++++++++++++++++-----------------
 randomgen/romu.pyx         | 17 +++++----
 randomgen/sfc.pyx          | 16 +++++----
 randomgen/sfmt.pyx         | 20 +++++++----
 randomgen/speck128.pyx     | 20 ++++++-----
 randomgen/squares.pyx      | 23 +++++++------
 randomgen/threefry.pyx     | 60 +++++++++++++++++---------------
 randomgen/tyche.pyx        | 13 ++++---
 randomgen/xoroshiro128.pyx | 10 +++---
 randomgen/xorshift1024.pyx | 10 +++---
 randomgen/xoshiro256.pyx   | 14 ++++----
 randomgen/xoshiro512.pyx   |  8 +++--
 23 files changed, 278 insertions(+), 189 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..009e613 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -277,6 +277,7 @@ cdef class AESCounter(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef aesctr_state_t rng_state = self.rng_state[0]
         cdef np.npy_intp i
 
         if not isinstance(value, dict):
@@ -287,8 +288,8 @@ cdef class AESCounter(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state =value["s"]["state"]
         for i in range(16 * 4):
-            self.rng_state.state[i] = state[i]
-        self.rng_state.offset = value["s"]["offset"]
+            rng_state.state[i] = state[i]
+        rng_state.offset = value["s"]["offset"]
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
@@ -296,11 +297,12 @@ cdef class AESCounter(BitGenerator):
         if counter.ndim != 1 or counter.shape[0] != 2 * (4):
             raise ValueError("counter must be a 1d uint64 array with 8 "
                              "elements")
-        aesctr_set_seed_counter(self.rng_state,
+        aesctr_set_seed_counter(&rng_state,
                                 <uint64_t*>np.PyArray_DATA(seed),
                                 <uint64_t*>np.PyArray_DATA(counter))
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state[0] = rng_state
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/chacha.pyx b/randomgen/chacha.pyx
index 87d63b9..7c887b5 100644
--- a/randomgen/chacha.pyx
+++ b/randomgen/chacha.pyx
@@ -274,6 +274,7 @@ cdef class ChaCha(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef chacha_state_t rng_state = self.rng_state[0]
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -284,11 +285,12 @@ cdef class ChaCha(BitGenerator):
         state = value["state"]
         block = state["block"]
         for i in range(16):
-            self.rng_state.block[i] = block[i]
+            rng_state.block[i] = block[i]
         keysetup = state["keysetup"]
         for i in range(8):
-            self.rng_state.keysetup[i] = keysetup[i]
+            rng_state.keysetup[i] = keysetup[i]
         ctr = state["ctr"]
         for i in range(2):
-            self.rng_state.ctr[i] = ctr[i]
-        self.rng_state.rounds = state["rounds"]
+            rng_state.ctr[i] = ctr[i]
+        rng_state.rounds = state["rounds"]
+        self.rng_state[0] = rng_state
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..a848bea 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -270,6 +270,9 @@ cdef class DSFMT(BitGenerator):
     @state.setter
     def state(self, value):
         cdef Py_ssize_t i, j, loc = 0
+        cdef int idx, buffer_loc
+        cdef uint64_t status[2*DSFMT_N_PLUS_1]
+        cdef double buffer[DSFMT_N64]
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -278,13 +281,21 @@ cdef class DSFMT(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["state"], 2*DSFMT_N_PLUS_1,
                                   64, "state")
+        # Convert everything before changing anything
+        for i in range(2*DSFMT_N_PLUS_1):
+            status[i] = state[i]
+        idx = value["state"]["idx"]
+        buffered_uniforms = value["buffered_uniforms"]
+        # TODO: Check buffered_uniforms
+        for i in range(DSFMT_N64):
+            buffer[i] = buffered_uniforms[i]
+        buffer_loc = value["buffer_loc"]
+
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
-                self.rng_state.state.status[i].u[j] = state[loc]
+                self.rng_state.state.status[i].u[j] = status[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
-        buffered_uniforms = value["buffered_uniforms"]
-        # TODO: Check buffered_uniforms
+        self.rng_state.state.idx = idx
         for i in range(DSFMT_N64):
-            self.rng_state.buffered_uniforms[i] = buffered_uniforms[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+            self.rng_state.buffered_uniforms[i] = buffer[i]
+        self.rng_state.buffer_loc = buffer_loc
diff --git a/randomgen/efiix64.pyx b/randomgen/efiix64.pyx
index 92cae6d..a91863c 100644
--- a/randomgen/efiix64.pyx
+++ b/randomgen/efiix64.pyx
@@ -184,6 +184,7 @@ cdef class EFIIX64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef efiix64_state_t rng_state = self.rng_state
         cdef Py_ssize_t i
         cdef uint64_t *arr
 
@@ -201,7 +202,7 @@ cdef class EFIIX64(BitGenerator):
                                               "indirection_table")
         arr = <np.uint64_t *>np.PyArray_DATA(indirection_table)
         for i in range(0, INDIRECTION_SIZE):
-            self.rng_state.indirection_table[i] = arr[i]
+            rng_state.indirection_table[i] = arr[i]
 
         iteration_table = check_state_array(state["iteration_table"],
                                             ITERATION_SIZE,
@@ -209,11 +210,12 @@ cdef class EFIIX64(BitGenerator):
                                             "iteration_table")
         arr = <np.uint64_t *>np.PyArray_DATA(iteration_table)
         for i in range(0, ITERATION_SIZE):
-            self.rng_state.iteration_table[i] = arr[i]
-        self.rng_state.i = state["i"]
-        self.rng_state.a = state["a"]
-        self.rng_state.b = state["b"]
-        self.rng_state.c = state["c"]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.iteration_table[i] = arr[i]
+        rng_state.i = state["i"]
+        rng_state.a = state["a"]
+        rng_state.b = state["b"]
+        rng_state.c = state["c"]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index 567b81e..6d41e50 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -204,6 +204,7 @@ cdef class HC128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef hc128_state_t rng_state = self.rng_state
         cdef int i
         cdef uint32_t *p_arr
         cdef uint32_t *q_arr
@@ -222,10 +223,11 @@ cdef class HC128(BitGenerator):
         p_arr = <uint32_t *>np.PyArray_DATA(p)
         q_arr = <uint32_t *>np.PyArray_DATA(q)
         for i in range(512):
-            self.rng_state.p[i] = p_arr[i]
-            self.rng_state.q[i] = q_arr[i]
+            rng_state.p[i] = p_arr[i]
+            rng_state.q[i] = q_arr[i]
         buf_arr = <uint32_t *>np.PyArray_DATA(buffer)
         for i in range(16):
-            self.rng_state.buffer[i] = buf_arr[i]
-        self.rng_state.hc_idx = state["hc_idx"]
-        self.rng_state.buffer_idx = state["buffer_idx"]
+            rng_state.buffer[i] = buf_arr[i]
+        rng_state.hc_idx = state["hc_idx"]
+        rng_state.buffer_idx = state["buffer_idx"]
+        self.rng_state = rng_state
diff --git a/randomgen/jsf.pyx b/randomgen/jsf.pyx
index 4576efc..e7ec278 100644
--- a/randomgen/jsf.pyx
+++ b/randomgen/jsf.pyx
@@ -301,26 +301,35 @@ cdef class JSF(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef jsf_state_t rng_state = self.rng_state
+        cdef int size, seed_size
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.size = value["size"]
+        size = value["size"]
+        seed_size = value["seed_size"]
         state = value["state"]
-        self.setup_generator(state["p"], state["q"], state["r"])
-        if self.size == 64:
-            self.rng_state.a.u64 = state["a"]
-            self.rng_state.b.u64 = state["b"]
-            self.rng_state.c.u64 = state["c"]
-            self.rng_state.d.u64 = state["d"]
+        p, q, r = state["p"], state["q"], state["r"]
+        rng_state.p = p if p is not None else JSF_DEFAULTS[size]["p"]
+        rng_state.q = q if q is not None else JSF_DEFAULTS[size]["q"]
+        rng_state.r = r if r is not None else JSF_DEFAULTS[size]["r"]
+        if size == 64:
+            rng_state.a.u64 = state["a"]
+            rng_state.b.u64 = state["b"]
+            rng_state.c.u64 = state["c"]
+            rng_state.d.u64 = state["d"]
         else:
-            self.rng_state.a.u32 = state["a"]
-            self.rng_state.b.u32 = state["b"]
-            self.rng_state.c.u32 = state["c"]
-            self.rng_state.d.u32 = state["d"]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.seed_size = value["seed_size"]
+            rng_state.a.u32 = state["a"]
+            rng_state.b.u32 = state["b"]
+            rng_state.c.u32 = state["c"]
+            rng_state.d.u32 = state["d"]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.size = size
+        self.seed_size = seed_size
+        self.rng_state = rng_state
+        self.setup_generator(rng_state.p, rng_state.q, rng_state.r)
diff --git a/randomgen/lxm.pyx b/randomgen/lxm.pyx
index f303d26..edc862b 100644
--- a/randomgen/lxm.pyx
+++ b/randomgen/lxm.pyx
@@ -276,6 +276,7 @@ cdef class LXM(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef lxm_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -284,8 +285,9 @@ cdef class LXM(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["x"], 4, 64, "x")
         for i in range(4):
-            self.rng_state.x[i] = <uint64_t>state[i]
-        self.rng_state.lcg_state = value["state"]["lcg_state"]
-        self.rng_state.b = value["state"]["b"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.x[i] = <uint64_t>state[i]
+        rng_state.lcg_state = value["state"]["lcg_state"]
+        rng_state.b = value["state"]["b"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 2f14d4d..73e71bd 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -296,6 +296,7 @@ cdef class MT19937(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef mt19937_state_t rng_state = self.rng_state
         if isinstance(value, tuple):
             if value[0] != "MT19937" or len(value) not in (3, 5):
                 raise ValueError("state is not a legacy MT19937 state")
@@ -310,5 +311,6 @@ cdef class MT19937(BitGenerator):
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
         for i in range(RK_STATE_LEN):
-            self.rng_state.key[i] = key[i]
-        self.rng_state.pos = value["state"]["pos"]
+            rng_state.key[i] = key[i]
+        rng_state.pos = value["state"]["pos"]
+        self.rng_state = rng_state
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index 2dbaf5a..d4c1d40 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -158,6 +158,7 @@ cdef class MT64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef mt64_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -166,7 +167,8 @@ cdef class MT64(BitGenerator):
                              "PRNG".format(type(self).__name__))
         key = check_state_array(value["state"]["key"], 312, 64, "key")
         for i in range(312):
-            self.rng_state.mt[i] = key[i]
-        self.rng_state.mti = value["state"]["pos"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.mt[i] = key[i]
+        rng_state.mti = value["state"]["pos"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index 08f8151..ce60dec 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -167,14 +167,16 @@ cdef class PCG32(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef pcg32_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.pcg_state.state = value["state"]["state"]
-        self.rng_state.pcg_state.inc = value["state"]["inc"]
+        rng_state.pcg_state.state = value["state"]["state"]
+        rng_state.pcg_state.inc = value["state"]["inc"]
+        self.rng_state = rng_state
 
     def advance(self, delta):
         """
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index aa224d6..28bc637 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -821,6 +821,10 @@ cdef class LCG128Mix(BitGenerator):
     @state.setter
     def state(self, value):
         cdef np.ndarray state_vec, inc_vec, mult_vec
+        cdef int has_uint32, post
+        cdef uint32_t uinteger
+        cdef uint64_t dxsm_multiplier
+        cdef size_t output_function_address = 0
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -841,6 +845,19 @@ cdef class LCG128Mix(BitGenerator):
         mult_vec[1] = multiplier % 2 ** 64
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
+        dxsm_multiplier = value["state"]["dxsm_multiplier"]
+        post = bool(value["state"]["post"])
+        output_func = value["state"]["output_func"]
+        is_cfunc = False
+        if isinstance(output_func, str):
+            output_function = self._output_lookup[output_func]
+        elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
+            import ctypes
+
+            is_cfunc = True
+            output_function_address = (
+                ctypes.cast(output_func, ctypes.c_void_p).value
+            )
 
         # Default False for backward compat
         lcg128mix_set_state(self.rng_state.pcg_state,
@@ -850,24 +867,19 @@ cdef class LCG128Mix(BitGenerator):
                             )
         self.rng_state.has_uint32 = has_uint32
         self.rng_state.uinteger = uinteger
-        self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
-        self.rng_state.pcg_state.post = value["state"]["post"]
-        output_func = value["state"]["output_func"]
+        self.rng_state.pcg_state.dxsm_multiplier = dxsm_multiplier
+        self.rng_state.pcg_state.post = post
         self.multiplier = multiplier
-        self.dxsm_multiplier = value["state"]["dxsm_multiplier"]
-        self.post = bool(value["state"]["post"])
+        self.dxsm_multiplier = dxsm_multiplier
+        self.post = post
         if isinstance(output_func, str):
             self._cfunc = None
-            self.output_function = self._output_lookup[output_func]
+            self.output_function = output_function
             self.rng_state.pcg_state.output_idx = self.output_function
-        elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
-            import ctypes
-
+        elif is_cfunc:
             self._cfunc = output_func
             self.output_function = -1
-            self.output_function_address = (
-                ctypes.cast(self._cfunc, ctypes.c_void_p).value
-            )
+            self.output_function_address = output_function_address
             self.rng_state.pcg_state.output_idx = -1
             self.rng_state.pcg_state.output_func = (
                 <pcg_output_func_t>self.output_function_address
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index cb91402..cf27c19 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -368,6 +368,8 @@ cdef class Philox(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef philox_all_t rng_state = self.rng_state
+        cdef int n, w
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -375,42 +377,46 @@ cdef class Philox(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
+        rng_state.number = n = value.get("number", 4)
+        rng_state.width = w = value.get("width", 64)
 
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n // 2, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], n, w, "counter")
+        key = check_state_array(state["key"], n // 2, w, "key")
+        buffer = check_state_array(value["buffer"], n, w, "buffer")
         # Reset to make sure buffer is 0ed
-        self._reset_state_variables()
-        for i in range(self.n):
-            if self.w == 32:
-                self.rng_state.buffer[i].u32 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x32.ctr.v[i] = ctr[i]
-                else:  # self.n == 4 :
-                    self.rng_state.state.state4x32.ctr.v[i] = ctr[i]
+        for i in range(PHILOX_BUFFER_SIZE):
+            rng_state.buffer[i].u64 = 0
+        for i in range(n):
+            if w == 32:
+                rng_state.buffer[i].u32 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x32.ctr.v[i] = ctr[i]
+                else:  # n == 4 :
+                    rng_state.state.state4x32.ctr.v[i] = ctr[i]
             else:
-                self.rng_state.buffer[i].u64 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x64.ctr.v[i] = ctr[i]
-                else:  # self.n == 4
-                    self.rng_state.state.state4x64.ctr.v[i] = ctr[i]
-        for i in range(self.n // 2):
-            if self.n == 2 and self.w == 32:
-                self.rng_state.state.state2x32.key.v[i] = key[i]
-            elif self.n == 4 and self.w == 32:
-                self.rng_state.state.state4x32.key.v[i] = key[i]
-            elif self.n == 2 and self.w == 64:
-                self.rng_state.state.state2x64.key.v[i] = key[i]
-            else:  # self.n == 4 and self.w == 64
-                self.rng_state.state.state4x64.key.v[i] = key[i]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+                rng_state.buffer[i].u64 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x64.ctr.v[i] = ctr[i]
+                else:  # n == 4
+                    rng_state.state.state4x64.ctr.v[i] = ctr[i]
+        for i in range(n // 2):
+            if n == 2 and w == 32:
+                rng_state.state.state2x32.key.v[i] = key[i]
+            elif n == 4 and w == 32:
+                rng_state.state.state4x32.key.v[i] = key[i]
+            elif n == 2 and w == 64:
+                rng_state.state.state2x64.key.v[i] = key[i]
+            else:  # n == 4 and w == 64
+                rng_state.state.state4x64.key.v[i] = key[i]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        rng_state.buffer_pos = value["buffer_pos"]
+        self.n = n
+        self.w = w
+        self.rng_state = rng_state
+        self._setup_generator()
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/romu.pyx b/randomgen/romu.pyx
index 9ca65f9..6b97394 100644
--- a/randomgen/romu.pyx
+++ b/randomgen/romu.pyx
@@ -180,17 +180,20 @@ cdef class Romu(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef romu_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.w = value["state"]["w"]
-        self.rng_state.x = value["state"]["x"]
-        self.rng_state.y = value["state"]["y"]
-        self.rng_state.z = value["state"]["z"]
-        self.variant = self._check_variant(value["state"]["variant"])
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.w = value["state"]["w"]
+        rng_state.x = value["state"]["x"]
+        rng_state.y = value["state"]["y"]
+        rng_state.z = value["state"]["z"]
+        variant = self._check_variant(value["state"]["variant"])
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.variant = variant
+        self.rng_state = rng_state
         self._setup_bitgen()
diff --git a/randomgen/sfc.pyx b/randomgen/sfc.pyx
index 23711c4..66acf0d 100644
--- a/randomgen/sfc.pyx
+++ b/randomgen/sfc.pyx
@@ -356,16 +356,18 @@ cdef class SFC64(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef sfc_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
         if bitgen not in (type(self).__name__, fully_qualified_name(self)):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
-        self.rng_state.a = value["state"]["a"]
-        self.rng_state.b = value["state"]["b"]
-        self.rng_state.c = value["state"]["c"]
-        self.rng_state.w = value["state"]["w"]
-        self.rng_state.k = value["state"]["k"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.a = value["state"]["a"]
+        rng_state.b = value["state"]["b"]
+        rng_state.c = value["state"]["c"]
+        rng_state.w = value["state"]["w"]
+        rng_state.k = value["state"]["k"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..822d38f 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -276,6 +276,8 @@ cdef class SFMT(BitGenerator):
     @state.setter
     def state(self, value):
         cdef Py_ssize_t i, j, loc = 0
+        cdef int idx, buffer_loc, has_uint32
+        cdef uint32_t uinteger
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -285,15 +287,21 @@ cdef class SFMT(BitGenerator):
         state = check_state_array(value["state"]["state"], 4 * SFMT_N, 32,
                                   "state")
         state = state.view(np.uint64)
+        # Convert everything before changing anything
+        idx = value["state"]["idx"]
+        buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
+                                            64,  "buffered_uint64")
+        buffer_loc = value["buffer_loc"]
+        has_uint32 = value["has_uint32"]
+        uinteger = value["uinteger"]
+
         for i in range(SFMT_N):
             for j in range(2):
                 self.rng_state.state.state[i].u64[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
-        buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
-                                            64,  "buffered_uint64")
+        self.rng_state.state.idx = idx
         for i in range(SFMT_N64):
             self.rng_state.buffered_uint64[i] = buffered_uint64[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        self.rng_state.buffer_loc = buffer_loc
+        self.rng_state.has_uint32 = has_uint32
+        self.rng_state.uinteger = uinteger
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..3e8c269 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -301,6 +301,7 @@ cdef class SPECK128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef speck_state_t rng_state = self.rng_state[0]
         cdef i
         cdef uint8_t *arr8
         cdef uint64_t *arr
@@ -321,21 +322,22 @@ cdef class SPECK128(BitGenerator):
 
         arr = <uint64_t*>np.PyArray_DATA(ctr)
         for i in range(SPECK_UNROLL):
-            self.rng_state.ctr[i//2].u64[i % 2] = arr[i]
+            rng_state.ctr[i//2].u64[i % 2] = arr[i]
 
         arr8 = <uint8_t*>np.PyArray_DATA(buffer)
         for i in range(8*SPECK_UNROLL):
-            self.rng_state.buffer[i] = arr8[i]
+            rng_state.buffer[i] = arr8[i]
 
         arr = <uint64_t*>np.PyArray_DATA(round_key)
         for i in range(SPECK_MAX_ROUNDS):
-            self.rng_state.round_key[i].u64[0] = arr[2 * i]
-            self.rng_state.round_key[i].u64[1] = arr[2 * i + 1]
-
-        self.rng_state.rounds = state["rounds"]
-        self.rng_state.offset = state["offset"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.round_key[i].u64[0] = arr[2 * i]
+            rng_state.round_key[i].u64[1] = arr[2 * i + 1]
+
+        rng_state.rounds = state["rounds"]
+        rng_state.offset = state["offset"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state[0] = rng_state
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 6bbc22d..fb7d481 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -505,14 +505,15 @@ cdef class Squares(BitGenerator):
             If seed values are out of range for the PRNG.
         """
 
+        cdef uint64_t _counter = 0, _key
         if counter is not None:
-            self.rng_state.counter = self._check_value(counter, "counter", False)
-        else:
-            self.rng_state.counter = counter = 0
+            _counter = self._check_value(counter, "counter", False)
         if key is not None:
-            self.rng_state.key = self._check_value(key, "key", True)
+            _key = self._check_value(key, "key", True)
+            self.rng_state.key = _key
+            self.rng_state.counter = _counter
         else:
-            BitGenerator._seed_with_seed_sequence(self, seed, counter=counter)
+            BitGenerator._seed_with_seed_sequence(self, seed, counter=_counter)
         self._reset_state_variables()
 
     @property
@@ -535,6 +536,7 @@ cdef class Squares(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef squares_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -542,17 +544,18 @@ cdef class Squares(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = value["state"]
-        self.rng_state.key = state["key"]
-        self.rng_state.counter = state["counter"]
+        rng_state.key = state["key"]
+        rng_state.counter = state["counter"]
         variant = value["variant"]
         if variant not in (64, 32):
             raise ValueError("variant must be either 64 or 32.")
+        # Default for states that predate these values
+        rng_state.has_uint32 = value.get("has_uint32", 0)
+        rng_state.uinteger = value.get("uinteger", 0)
         self.variant = variant
         self._use64 = variant == 64
+        self.rng_state = rng_state
         self._setup_bitgen()
-        # Default for states that predate these values
-        self.rng_state.has_uint32 = value.get("has_uint32", 0)
-        self.rng_state.uinteger = value.get("uinteger", 0)
 
     def advance(self, object delta):
         """
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 3c8118b..13cfbe1 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -353,6 +353,8 @@ cdef class ThreeFry(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef threefry_all_t rng_state = self.rng_state
+        cdef int n, w
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -360,37 +362,41 @@ cdef class ThreeFry(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         # Default for previous version
-        self.rng_state.number = self.n = value.get("number", 4)
-        self.rng_state.width = self.w = value.get("width", 64)
-        self._setup_generator()
+        rng_state.number = n = value.get("number", 4)
+        rng_state.width = w = value.get("width", 64)
 
         state = value["state"]
-        ctr = check_state_array(state["counter"], self.n, self.w, "counter")
-        key = check_state_array(state["key"], self.n, self.w, "key")
-        buffer = check_state_array(value["buffer"], self.n, self.w, "buffer")
+        ctr = check_state_array(state["counter"], n, w, "counter")
+        key = check_state_array(state["key"], n, w, "key")
+        buffer = check_state_array(value["buffer"], n, w, "buffer")
         # Reset to make sure buffer is 0ed
-        self._reset_state_variables()
-        for i in range(self.n):
-            if self.w == 32:
-                self.rng_state.buffer[i].u32 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x32.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state2x32.key.v[i] = key[i]
-                else:  # self.n == 4 :
-                    self.rng_state.state.state4x32.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state4x32.key.v[i] = key[i]
+        for i in range(THREEFRY_BUFFER_SIZE):
+            rng_state.buffer[i].u64 = 0
+        for i in range(n):
+            if w == 32:
+                rng_state.buffer[i].u32 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x32.ctr.v[i] = ctr[i]
+                    rng_state.state.state2x32.key.v[i] = key[i]
+                else:  # n == 4 :
+                    rng_state.state.state4x32.ctr.v[i] = ctr[i]
+                    rng_state.state.state4x32.key.v[i] = key[i]
             else:
-                self.rng_state.buffer[i].u64 = buffer[i]
-                if self.n == 2:
-                    self.rng_state.state.state2x64.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state2x64.key.v[i] = key[i]
-                else:  # self.n == 4
-                    self.rng_state.state.state4x64.ctr.v[i] = ctr[i]
-                    self.rng_state.state.state4x64.key.v[i] = key[i]
-
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+                rng_state.buffer[i].u64 = buffer[i]
+                if n == 2:
+                    rng_state.state.state2x64.ctr.v[i] = ctr[i]
+                    rng_state.state.state2x64.key.v[i] = key[i]
+                else:  # n == 4
+                    rng_state.state.state4x64.ctr.v[i] = ctr[i]
+                    rng_state.state.state4x64.key.v[i] = key[i]
+
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        rng_state.buffer_pos = value["buffer_pos"]
+        self.n = n
+        self.w = w
+        self.rng_state = rng_state
+        self._setup_generator()
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index 689b4c1..b044f23 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -189,6 +189,7 @@ cdef class Tyche(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef tyche_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -196,9 +197,11 @@ cdef class Tyche(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = value["state"]
-        self.original = bool(state["original"])
-        self.rng_state.a = state["a"]
-        self.rng_state.b = state["b"]
-        self.rng_state.c = state["c"]
-        self.rng_state.d = state["d"]
+        original = bool(state["original"])
+        rng_state.a = state["a"]
+        rng_state.b = state["b"]
+        rng_state.c = state["c"]
+        rng_state.d = state["d"]
+        self.original = original
+        self.rng_state = rng_state
         self._setup_bitgen()
diff --git a/randomgen/xoroshiro128.pyx b/randomgen/xoroshiro128.pyx
index 9c72279..4c1b787 100644
--- a/randomgen/xoroshiro128.pyx
+++ b/randomgen/xoroshiro128.pyx
@@ -280,6 +280,7 @@ cdef class Xoroshiro128(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoroshiro128_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -287,12 +288,13 @@ cdef class Xoroshiro128(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 2, 64, "s")
-        self.rng_state.s[0] = <uint64_t>state[0]
-        self.rng_state.s[1] = <uint64_t>state[1]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.s[0] = <uint64_t>state[0]
+        rng_state.s[1] = <uint64_t>state[1]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
         plusplus = False
         if "plusplus" in value:
             plusplus = value["plusplus"]
         self._plusplus = plusplus
+        self.rng_state = rng_state
         self._set_generators()
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 1b71e70..bffbeb3 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -256,6 +256,7 @@ cdef class Xorshift1024(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xorshift1024_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -264,7 +265,8 @@ cdef class Xorshift1024(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["state"]["s"], 16, 64, "s")
         for i in range(16):
-            self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.p = value["state"]["p"]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.s[i] = <uint64_t>state[i]
+        rng_state.p = value["state"]["p"]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/xoshiro256.pyx b/randomgen/xoshiro256.pyx
index b8657ad..f021f34 100644
--- a/randomgen/xoshiro256.pyx
+++ b/randomgen/xoshiro256.pyx
@@ -257,6 +257,7 @@ cdef class Xoshiro256(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoshiro256_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -264,9 +265,10 @@ cdef class Xoshiro256(BitGenerator):
             raise ValueError("state must be for a {0} "
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 4, 64, "s")
-        self.rng_state.s[0] = <uint64_t>state[0]
-        self.rng_state.s[1] = <uint64_t>state[1]
-        self.rng_state.s[2] = <uint64_t>state[2]
-        self.rng_state.s[3] = <uint64_t>state[3]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+        rng_state.s[0] = <uint64_t>state[0]
+        rng_state.s[1] = <uint64_t>state[1]
+        rng_state.s[2] = <uint64_t>state[2]
+        rng_state.s[3] = <uint64_t>state[3]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
diff --git a/randomgen/xoshiro512.pyx b/randomgen/xoshiro512.pyx
index 142559f..802db4a 100644
--- a/randomgen/xoshiro512.pyx
+++ b/randomgen/xoshiro512.pyx
@@ -252,6 +252,7 @@ cdef class Xoshiro512(BitGenerator):
 
     @state.setter
     def state(self, value):
+        cdef xoshiro512_state_t rng_state = self.rng_state
         if not isinstance(value, dict):
             raise TypeError("state must be a dict")
         bitgen = value.get("bit_generator", "")
@@ -260,6 +261,7 @@ cdef class Xoshiro512(BitGenerator):
                              "PRNG".format(type(self).__name__))
         state = check_state_array(value["s"], 8, 64, "s")
         for i in range(8):
-            self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.has_uint32 = value["has_uint32"]
-        self.rng_state.uinteger = value["uinteger"]
+            rng_state.s[i] = <uint64_t>state[i]
+        rng_state.has_uint32 = value["has_uint32"]
+        rng_state.uinteger = value["uinteger"]
+        self.rng_state = rng_state
-- 
2.43.0


From 05865199c70a0ededc1fb446a2afee47c44d399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 46/50] fix: jump and jumped accept NumPy integers as they
 accept ints

---
 randomgen/aes.pyx      | 2 +-
 randomgen/pcg32.pyx    | 2 +-
 randomgen/pcg64.pyx    | 4 ++--
 randomgen/speck128.pyx | 2 +-
 randomgen/squares.pyx  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 009e613..a0f9048 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -315,7 +315,7 @@ cdef class AESCounter(BitGenerator):
         iter : integer, positive
             Number of times to jump the state of the rng.
         """
-        self.advance(iter * int(2 ** 64))
+        self.advance(wrap_int(iter, 128) * int(2 ** 64))
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/pcg32.pyx b/randomgen/pcg32.pyx
index ce60dec..d33d49e 100644
--- a/randomgen/pcg32.pyx
+++ b/randomgen/pcg32.pyx
@@ -231,7 +231,7 @@ cdef class PCG32(BitGenerator):
         The step size is phi when divided by the period 2**64
         """
         step = int(0x9e3779b97f4a7c16)
-        self.advance(iter * step)
+        self.advance(wrap_int(iter, 64) * step)
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index 28bc637..d436927 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -417,7 +417,7 @@ cdef class PCG64(BitGenerator):
         2**128.
         """
         step = 0x9e3779b97f4a7c15f39cc0605cedc834
-        step *= int(iter)
+        step *= wrap_int(iter, 128)
         divisor = step // 2**128
         step -= 2**128 * divisor
         self.advance(step)
@@ -946,7 +946,7 @@ cdef class LCG128Mix(BitGenerator):
         The step size is phi (the Golden Ratio) when divided by 2**128.
         """
         step = 0x9e3779b97f4a7c15f39cc0605cedc834
-        step *= int(iter)
+        step *= wrap_int(iter, 128)
         divisor = step // 2**128
         step -= 2**128 * divisor
         self.advance(step)
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 3e8c269..c6b8a07 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -348,7 +348,7 @@ cdef class SPECK128(BitGenerator):
         iter : integer, positive
             Number of times to jump the state of the rng.
         """
-        self.advance(iter * int(2 ** 64))
+        self.advance(wrap_int(iter, 128) * int(2 ** 64))
 
     def jump(self, iter=1):
         """
diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index fb7d481..0fabbc1 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -578,7 +578,7 @@ cdef class Squares(BitGenerator):
         self._reset_state_variables()
         return self
 
-    def jumped(self, intptr_t iter=1):
+    def jumped(self, np.npy_intp iter=1):
         """
         jumped(iter=1)
 
-- 
2.43.0


From 5f06084d45dd73b759975de54b6fcf282a8c77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 47/50] fix: advance of Philox and ThreeFry with NumPy integers
 overflowed and changed arrays in-place

---
 randomgen/philox.pyx   | 4 +++-
 randomgen/threefry.pyx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index cf27c19..4887a79 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -430,7 +430,7 @@ cdef class Philox(BitGenerator):
             Number of times to jump the state of the rng.
         """
         step_size = (self.w * self.n) // 2
-        self.advance(iter * int(2 ** step_size), True)
+        self.advance(wrap_int(iter, self.w * self.n) * int(2 ** step_size), True)
 
     def jump(self, iter=1):
         """
@@ -540,6 +540,8 @@ cdef class Philox(BitGenerator):
                           "False. Explicitly set counter to silence this"
                           "warning. ", FutureWarning)
             counter = True
+        # NumPy integers would overflow and arrays would be changed in-place
+        delta = wrap_int(delta, self.n * self.w + self.n // 2)
         if delta == 0:
             return self
         if counter:
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 13cfbe1..34671ca 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -410,7 +410,7 @@ cdef class ThreeFry(BitGenerator):
             Number of times to jump the state of the rng.
         """
         step_size = (self.w * self.n) // 2
-        self.advance(iter * int(2 ** step_size), True)
+        self.advance(wrap_int(iter, self.w * self.n) * int(2 ** step_size), True)
 
     def jump(self, iter=1):
         """
@@ -519,6 +519,8 @@ cdef class ThreeFry(BitGenerator):
                           "False. Explicitly set counter to silence this"
                           "warning. ", FutureWarning)
             counter = True
+        # NumPy integers would overflow and arrays would be changed in-place
+        delta = wrap_int(delta, self.n * self.w + self.n // 2)
         if delta == 0:
             return self
         if counter:
-- 
2.43.0


From d5baa208543fe1f9a10afc608b0b8c1161b292b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:46 +0000
Subject: [PATCH 48/50] fix: advancing Philox and ThreeFry by a whole period of
 counters starts the next block again

---
 randomgen/philox.pyx   | 4 ++--
 randomgen/threefry.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index 4887a79..df7ac67 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -540,10 +540,10 @@ cdef class Philox(BitGenerator):
                           "False. Explicitly set counter to silence this"
                           "warning. ", FutureWarning)
             counter = True
-        # NumPy integers would overflow and arrays would be changed in-place
-        delta = wrap_int(delta, self.n * self.w + self.n // 2)
         if delta == 0:
             return self
+        # NumPy integers would overflow and arrays would be changed in-place
+        delta = wrap_int(delta, self.n * self.w + self.n // 2)
         if counter:
             delta *= self.n
             if self.rng_state.buffer_pos == 0:
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 34671ca..91bba1b 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -519,10 +519,10 @@ cdef class ThreeFry(BitGenerator):
                           "False. Explicitly set counter to silence this"
                           "warning. ", FutureWarning)
             counter = True
-        # NumPy integers would overflow and arrays would be changed in-place
-        delta = wrap_int(delta, self.n * self.w + self.n // 2)
         if delta == 0:
             return self
+        # NumPy integers would overflow and arrays would be changed in-place
+        delta = wrap_int(delta, self.n * self.w + self.n // 2)
         if counter:
             delta *= self.n
             if self.rng_state.buffer_pos == 0:
-- 
2.43.0


From a2f6fdef8473d63597197cdedf6e141b425ae838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:18 +0000
Subject: [PATCH 49/50] fix: state setters accepted positions outside their
 buffers, which were used as indices

---
 randomgen/aes.pxd          | 1 +
 randomgen/aes.pyx          | 4 +++-
 randomgen/common.pxd       | 1 +
 randomgen/common.pyx       | 7 +++++++
 randomgen/dsfmt.pxd        | 1 +
 randomgen/dsfmt.pyx        | 6 ++++--
 randomgen/hc128.pxd        | 1 +
 randomgen/hc128.pyx        | 6 ++++--
 randomgen/mt19937.pxd      | 7 ++++++-
 randomgen/mt19937.pyx      | 4 +++-
 randomgen/mt64.pxd         | 1 +
 randomgen/mt64.pyx         | 2 +-
 randomgen/philox.pxd       | 1 +
 randomgen/philox.pxd.in    | 1 +
 randomgen/philox.pyx       | 6 +++++-
 randomgen/sfmt.pxd         | 1 +
 randomgen/sfmt.pyx         | 6 ++++--
 randomgen/speck128.pxd     | 1 +
 randomgen/speck128.pyx     | 8 ++++++--
 randomgen/threefry.pxd     | 1 +
 randomgen/threefry.pxd.in  | 1 +
 randomgen/threefry.pyx     | 6 +++++-
 randomgen/xorshift1024.pxd | 1 +
 randomgen/xorshift1024.pyx | 2 +-
 24 files changed, 61 insertions(+), 15 deletions(-)

diff --git a/randomgen/aes.pxd b/randomgen/aes.pxd
index ebe6679..65709e2 100644
--- a/randomgen/aes.pxd
+++ b/randomgen/aes.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     BitGenerator,
     PyArray_calloc_aligned,
     PyArray_free_aligned,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index a0f9048..2bb66fe 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -289,7 +289,9 @@ cdef class AESCounter(BitGenerator):
         state =value["s"]["state"]
         for i in range(16 * 4):
             rng_state.state[i] = state[i]
-        rng_state.offset = value["s"]["offset"]
+        rng_state.offset = check_state_position(
+            value["s"]["offset"], 16 * 4, 8, "offset"
+        )
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index 0d902a7..506de01 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -26,6 +26,7 @@ cdef object prepare_ctypes(bitgen_t *bitgen)
 cdef object wrap_int(object val, object bits)
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name)
+cdef int check_state_position(int value, int upper, int step, object name) except -1
 cpdef object object_to_int(object val, object bits, object name,
                            int default_bits=*, object allowed_sizes=*)
 
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 71914ba..7e6fb43 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -435,6 +435,13 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
     # The data pointer is used in some bit generators
     return np.ascontiguousarray(arr)
 
+cdef int check_state_position(int value, int upper, int step, object name) except -1:
+    """Positions are used as indices without further checks"""
+    if value < 0 or value > upper or value % step:
+        raise ValueError("State element {0} must be in [0, {1}] and divisible "
+                         "by {2}".format(name, upper, step))
+    return value
+
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
     """
diff --git a/randomgen/dsfmt.pxd b/randomgen/dsfmt.pxd
index 41f5fc3..f3e8887 100644
--- a/randomgen/dsfmt.pxd
+++ b/randomgen/dsfmt.pxd
@@ -8,6 +8,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
 )
 
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index a848bea..9ded24a 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -284,12 +284,14 @@ cdef class DSFMT(BitGenerator):
         # Convert everything before changing anything
         for i in range(2*DSFMT_N_PLUS_1):
             status[i] = state[i]
-        idx = value["state"]["idx"]
+        idx = check_state_position(value["state"]["idx"], DSFMT_N64, 1, "idx")
         buffered_uniforms = value["buffered_uniforms"]
         # TODO: Check buffered_uniforms
         for i in range(DSFMT_N64):
             buffer[i] = buffered_uniforms[i]
-        buffer_loc = value["buffer_loc"]
+        buffer_loc = check_state_position(
+            value["buffer_loc"], DSFMT_N64, 1, "buffer_loc"
+        )
 
         for i in range(DSFMT_N_PLUS_1):
             for j in range(2):
diff --git a/randomgen/hc128.pxd b/randomgen/hc128.pxd
index 57add01..343f331 100644
--- a/randomgen/hc128.pxd
+++ b/randomgen/hc128.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index 6d41e50..3dfdc3d 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -228,6 +228,8 @@ cdef class HC128(BitGenerator):
         buf_arr = <uint32_t *>np.PyArray_DATA(buffer)
         for i in range(16):
             rng_state.buffer[i] = buf_arr[i]
-        rng_state.hc_idx = state["hc_idx"]
-        rng_state.buffer_idx = state["buffer_idx"]
+        rng_state.hc_idx = check_state_position(state["hc_idx"], 1023, 16, "hc_idx")
+        rng_state.buffer_idx = check_state_position(
+            state["buffer_idx"], 16, 1, "buffer_idx"
+        )
         self.rng_state = rng_state
diff --git a/randomgen/mt19937.pxd b/randomgen/mt19937.pxd
index 54515d7..4280c09 100644
--- a/randomgen/mt19937.pxd
+++ b/randomgen/mt19937.pxd
@@ -1,7 +1,12 @@
 cimport numpy as np
 from libc.stdint cimport uint32_t, uint64_t
 
-from randomgen.common cimport BitGenerator, check_state_array, fully_qualified_name
+from randomgen.common cimport (
+    BitGenerator,
+    check_state_array,
+    check_state_position,
+    fully_qualified_name,
+)
 
 
 cdef extern from "src/mt19937/mt19937.h":
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 73e71bd..cb1a07f 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -312,5 +312,7 @@ cdef class MT19937(BitGenerator):
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
         for i in range(RK_STATE_LEN):
             rng_state.key[i] = key[i]
-        rng_state.pos = value["state"]["pos"]
+        rng_state.pos = check_state_position(
+            value["state"]["pos"], RK_STATE_LEN, 1, "pos"
+        )
         self.rng_state = rng_state
diff --git a/randomgen/mt64.pxd b/randomgen/mt64.pxd
index 44a46e2..8760f0d 100644
--- a/randomgen/mt64.pxd
+++ b/randomgen/mt64.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index d4c1d40..ae9130f 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -168,7 +168,7 @@ cdef class MT64(BitGenerator):
         key = check_state_array(value["state"]["key"], 312, 64, "key")
         for i in range(312):
             rng_state.mt[i] = key[i]
-        rng_state.mti = value["state"]["pos"]
+        rng_state.mti = check_state_position(value["state"]["pos"], 312, 1, "pos")
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         self.rng_state = rng_state
diff --git a/randomgen/philox.pxd b/randomgen/philox.pxd
index c1805f6..7c5f798 100644
--- a/randomgen/philox.pxd
+++ b/randomgen/philox.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pxd.in b/randomgen/philox.pxd.in
index 97e527d..8096571 100644
--- a/randomgen/philox.pxd.in
+++ b/randomgen/philox.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index df7ac67..41fb34a 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -379,6 +379,8 @@ cdef class Philox(BitGenerator):
         # Default for previous version
         rng_state.number = n = value.get("number", 4)
         rng_state.width = w = value.get("width", 64)
+        if n not in (2, 4) or w not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
 
         state = value["state"]
         ctr = check_state_array(state["counter"], n, w, "counter")
@@ -412,7 +414,9 @@ cdef class Philox(BitGenerator):
 
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
-        rng_state.buffer_pos = value["buffer_pos"]
+        rng_state.buffer_pos = check_state_position(
+            value["buffer_pos"], PHILOX_BUFFER_SIZE, 1, "buffer_pos"
+        )
         self.n = n
         self.w = w
         self.rng_state = rng_state
diff --git a/randomgen/sfmt.pxd b/randomgen/sfmt.pxd
index 246fd6e..4cc98fc 100644
--- a/randomgen/sfmt.pxd
+++ b/randomgen/sfmt.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 822d38f..2b6e0d3 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -288,10 +288,12 @@ cdef class SFMT(BitGenerator):
                                   "state")
         state = state.view(np.uint64)
         # Convert everything before changing anything
-        idx = value["state"]["idx"]
+        idx = check_state_position(value["state"]["idx"], 2 * SFMT_N64, 1, "idx")
         buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
                                             64,  "buffered_uint64")
-        buffer_loc = value["buffer_loc"]
+        buffer_loc = check_state_position(
+            value["buffer_loc"], SFMT_N64, 1, "buffer_loc"
+        )
         has_uint32 = value["has_uint32"]
         uinteger = value["uinteger"]
 
diff --git a/randomgen/speck128.pxd b/randomgen/speck128.pxd
index ba2b46e..42f7f5b 100644
--- a/randomgen/speck128.pxd
+++ b/randomgen/speck128.pxd
@@ -6,6 +6,7 @@ from randomgen.common cimport (
     PyArray_calloc_aligned,
     PyArray_free_aligned,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index c6b8a07..565f65c 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -333,8 +333,12 @@ cdef class SPECK128(BitGenerator):
             rng_state.round_key[i].u64[0] = arr[2 * i]
             rng_state.round_key[i].u64[1] = arr[2 * i + 1]
 
-        rng_state.rounds = state["rounds"]
-        rng_state.offset = state["offset"]
+        rng_state.rounds = check_state_position(
+            state["rounds"], SPECK_MAX_ROUNDS, 1, "rounds"
+        )
+        rng_state.offset = check_state_position(
+            state["offset"], 8 * SPECK_UNROLL, 8, "offset"
+        )
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         self.rng_state[0] = rng_state
diff --git a/randomgen/threefry.pxd b/randomgen/threefry.pxd
index d25031d..9db6e52 100644
--- a/randomgen/threefry.pxd
+++ b/randomgen/threefry.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pxd.in b/randomgen/threefry.pxd.in
index 96d462f..f618473 100644
--- a/randomgen/threefry.pxd.in
+++ b/randomgen/threefry.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 91bba1b..23e6db3 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -364,6 +364,8 @@ cdef class ThreeFry(BitGenerator):
         # Default for previous version
         rng_state.number = n = value.get("number", 4)
         rng_state.width = w = value.get("width", 64)
+        if n not in (2, 4) or w not in (32, 64):
+            raise ValueError("number must be 2 or 4 and width must be 32 or 64")
 
         state = value["state"]
         ctr = check_state_array(state["counter"], n, w, "counter")
@@ -392,7 +394,9 @@ cdef class ThreeFry(BitGenerator):
 
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
-        rng_state.buffer_pos = value["buffer_pos"]
+        rng_state.buffer_pos = check_state_position(
+            value["buffer_pos"], THREEFRY_BUFFER_SIZE, 1, "buffer_pos"
+        )
         self.n = n
         self.w = w
         self.rng_state = rng_state
diff --git a/randomgen/xorshift1024.pxd b/randomgen/xorshift1024.pxd
index 654277a..a9c46c6 100644
--- a/randomgen/xorshift1024.pxd
+++ b/randomgen/xorshift1024.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_position,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index bffbeb3..63c4fe9 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -266,7 +266,7 @@ cdef class Xorshift1024(BitGenerator):
         state = check_state_array(value["state"]["s"], 16, 64, "s")
         for i in range(16):
             rng_state.s[i] = <uint64_t>state[i]
-        rng_state.p = value["state"]["p"]
+        rng_state.p = check_state_position(value["state"]["p"], 15, 1, "p")
         rng_state.has_uint32 = value["has_uint32"]
         rng_state.uinteger = value["uinteger"]
         self.rng_state = rng_state
-- 
2.43.0


From 8bf9deb2a46c50621116b4f8e921e7b90488a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:35 +0000
Subject: [PATCH 50/50] fix: an array for idx of Tyche was released twice

---
 randomgen/tyche.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/tyche.pyx b/randomgen/tyche.pyx
index b044f23..9ea28ab 100644
--- a/randomgen/tyche.pyx
+++ b/randomgen/tyche.pyx
@@ -135,10 +135,11 @@ cdef class Tyche(BitGenerator):
         if idx is None:
             _idx = <uint32_t>full_state[2]
         else:
-            if not 0 <= idx <= np.iinfo(np.uint32).max:
-                raise ValueError("idx must be in the interval [0, 2**32).")
+            # First, so that comparing arrays cannot fail inside the chained comparison
             if int(idx) != idx:
                 raise TypeError("idx must be an integer.")
+            if not 0 <= idx <= np.iinfo(np.uint32).max:
+                raise ValueError("idx must be in the interval [0, 2**32).")
             _idx = <uint32_t>idx
         tyche_seed(&self.rng_state, state, _idx, <int>self.original)
 
-- 
2.43.0

