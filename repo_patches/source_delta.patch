From 49371d40e97ff153e3bd452b590edd9207824a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 01/25] fix: Philox/ThreeFry advance dropped the top
 log2(number) bits of delta

step has N+1 words; the lowest log2(N) bits of the last one are the top
bits of delta/N and belong to the most significant counter word.
advance(-1) moved the state to a different position of the period.
---
 randomgen/src/philox/philox.c     | 4 +---
 randomgen/src/threefry/threefry.c | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index e98d72e..aa5d721 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -17,9 +17,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
       adj_step = step[i] / N;                                                             \
       /* Add in the lower bits from the next step size */                                 \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                      \
-      if (i < (N - 1)){                                                                   \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                   \
-      }                                                                                   \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
       last = state->state.state##N##x##W.ctr.v[i];                                        \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                           \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                             \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 53a788e..1afa636 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -17,9 +17,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
       adj_step = step[i] / N;                                                               \
       /* Add in the lower bits from the next step size */                                   \
       /* The N/2 is really log2(N) but ok here since N is 2 or 4  */                        \
-      if (i < (N - 1)){                                                                     \
-        adj_step += (step[i + 1] % N) << (W - (N / 2));                                     \
-      }                                                                                     \
+      adj_step += (step[i + 1] % N) << (W - (N / 2));                                       \
       last = state->state.state##N##x##W.ctr.v[i];                                          \
       state->state.state##N##x##W.ctr.v[i] += adj_step + carry;                             \
       carry = (last > state->state.state##N##x##W.ctr.v[i] ||                               \
-- 
2.43.0


From b9224d16d18840eeeb2d28cdd27c368cbc316377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 02/25] fix: Philox/ThreeFry with number=2 advanced from a
 fresh state one block short

An empty buffer is recorded as buffer_pos == 4 for every variant, which
advance() recognised only when number was 4.
---
 randomgen/src/philox/philox.c     | 2 +-
 randomgen/src/threefry/threefry.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/src/philox/philox.c b/randomgen/src/philox/philox.c
index aa5d721..ef6abb7 100644
--- a/randomgen/src/philox/philox.c
+++ b/randomgen/src/philox/philox.c
@@ -10,7 +10,7 @@ void philox##N##x##W##_advance(philox_all_t *state, uint##W##_t *step, int use_c
   philox##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                      \
   next_buffer_pos = state->buffer_pos + rem;                                              \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0))) \
             && (use_carry > 0);                                                           \
   state->buffer_pos = next_buffer_pos % N;                                                \
   for (i = 0; i < N; i++) {                                                               \
diff --git a/randomgen/src/threefry/threefry.c b/randomgen/src/threefry/threefry.c
index 1afa636..4a85be0 100644
--- a/randomgen/src/threefry/threefry.c
+++ b/randomgen/src/threefry/threefry.c
@@ -10,7 +10,7 @@ void threefry##N##x##W##_advance(threefry_all_t *state, uint##W##_t *step, int u
   threefry##N##x##W##_ctr_t ct;                                                             \
   rem = step[0] % N;                                                                        \
   next_buffer_pos = state->buffer_pos + rem;                                                \
-  carry = (((state->buffer_pos == N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
+  carry = (((state->buffer_pos >= N) && (rem==0)) || (next_buffer_pos >= N && (rem > 0)))   \
             && (use_carry > 0);                                                             \
   state->buffer_pos = next_buffer_pos % N;                                                  \
   for (i = 0; i < N; i++) {                                                                 \
-- 
2.43.0


From 8e805b4a586abd3ba8797510da552498e612f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:44 +0000
Subject: [PATCH 03/25] fix: ChaCha advance kept a stale block at a block
 boundary and when the block index wrapped

---
 randomgen/src/chacha/chacha.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/src/chacha/chacha.c b/randomgen/src/chacha/chacha.c
index 59794fd..c66b415 100644
--- a/randomgen/src/chacha/chacha.c
+++ b/randomgen/src/chacha/chacha.c
@@ -62,7 +62,8 @@ void chacha_advance(chacha_state_t *state, uint64_t *delta) {
   state->ctr[0] += delta[0];
   carry = state->ctr[0] < orig;
   state->ctr[1] += (delta[1] + carry);
-  if ((idx + delta[0] >= 16 || delta[1]) && ((state->ctr[0] % 16) != 0)) {
+  if ((idx == 0 || delta[0] >= (uint64_t)(16 - idx) || delta[1]) &&
+      ((state->ctr[0] % 16) != 0)) {
     generate_block(state);
   }
 }
-- 
2.43.0


From f06c9d38b6c1f9affbd896c0f92578e981731c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:44 +0000
Subject: [PATCH 04/25] fix: Squares state setter restores the buffered 32-bit
 value

---
 randomgen/squares.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 1f0ef88..3e4e750 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -547,6 +547,8 @@ cdef class Squares(BitGenerator):
         self.variant = variant
         self._use64 = variant == 64
         self._setup_bitgen()
+        self.rng_state.has_uint32 = value["has_uint32"]
+        self.rng_state.uinteger = value["uinteger"]
 
     def advance(self, uint64_t delta):
         """
-- 
2.43.0


From e7d59bba3abd0354d039fbb2f9927ad87b90447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:44 +0000
Subject: [PATCH 05/25] fix: reseeding Xorshift1024 resets its position

---
 randomgen/xorshift1024.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index ffcb768..1b71e70 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -135,6 +135,7 @@ cdef class Xorshift1024(BitGenerator):
         state = self._get_seed_seq().generate_state(16, np.uint64)
         for i in range(16):
             self.rng_state.s[i] = state[i]
+        self.rng_state.p = 0
         self._reset_state_variables()
 
     def seed(self, seed=None):
-- 
2.43.0


From 4e8446dd954166631b433afb4ba4376bbd00bd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 06/25] fix: reseeding HC128 discards the buffered output of
 the previous key

---
 randomgen/src/hc-128/hc-128.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/randomgen/src/hc-128/hc-128.c b/randomgen/src/hc-128/hc-128.c
index 88b2ad4..707cc93 100644
--- a/randomgen/src/hc-128/hc-128.c
+++ b/randomgen/src/hc-128/hc-128.c
@@ -46,6 +46,7 @@ void hc128_init(hc128_state_t *state, const uint8_t *key, const uint8_t *iv)
         q[i] = round_expression_qp(q, p, i);
 
     state->hc_idx = 0;
+    state->buffer_idx = 0;
 }
 
 void hc128_seed(hc128_state_t *state, uint32_t *seed)
-- 
2.43.0


From 39635006a34fa241446e934c6a166056d023cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:50 +0000
Subject: [PATCH 07/25] fix: ctypes and cffi interfaces follow a change of
 variant through state

---
 randomgen/common.pxd |  2 ++
 randomgen/common.pyx | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index 0d902a7..ebc03a9 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -17,6 +17,8 @@ cdef uint64_t MAXSIZE
 
 cdef class BitGenerator(_BitGenerator):
     cdef object mode
+    cdef void *_ctypes_next_uint64
+    cdef void *_cffi_next_uint64
     cdef object _copy_seed(self)
 
 cdef object benchmark(bitgen_t *bitgen, object lock, Py_ssize_t cnt, object method)
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 4aa1af1..c76f94c 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -145,8 +145,11 @@ cdef class BitGenerator(_BitGenerator):
             * next_double - function pointer to produce doubles
             * bit_generator - pointer to the bit generator struct
         """
-        if self._ctypes is None:
+        # Setting state can change the functions (e.g., variant or width)
+        if (self._ctypes is None or
+                self._ctypes_next_uint64 != <void *>self._bitgen.next_uint64):
             self._ctypes = prepare_ctypes(&self._bitgen)
+            self._ctypes_next_uint64 = <void *>self._bitgen.next_uint64
 
         return self._ctypes
 
@@ -167,9 +170,11 @@ cdef class BitGenerator(_BitGenerator):
             * next_double - function pointer to produce doubles
             * bit_generator - pointer to the bit generator struct
         """
-        if self._cffi is not None:
-            return self._cffi
-        self._cffi = prepare_cffi(&self._bitgen)
+        # Setting state can change the functions (e.g., variant or width)
+        if (self._cffi is None or
+                self._cffi_next_uint64 != <void *>self._bitgen.next_uint64):
+            self._cffi = prepare_cffi(&self._bitgen)
+            self._cffi_next_uint64 = <void *>self._bitgen.next_uint64
         return self._cffi
 
     @property
-- 
2.43.0


From 372f1666fe574c5c317f4966c87ba8602ee63fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 08/25] fix: LCG128Mix keeps its parameters in sync with an
 assigned state

---
 randomgen/pcg64.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index abed244..dc95e89 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -850,9 +850,15 @@ cdef class LCG128Mix(BitGenerator):
         self.rng_state.uinteger = uinteger
         self.rng_state.pcg_state.dxsm_multiplier = value["state"]["dxsm_multiplier"]
         self.rng_state.pcg_state.post = value["state"]["post"]
+        # Keep the parameters used by seed and repr in sync with the state
+        self.multiplier = multiplier
+        self.dxsm_multiplier = self.rng_state.pcg_state.dxsm_multiplier
+        self.post = self.rng_state.pcg_state.post
         output_func = value["state"]["output_func"]
         if isinstance(output_func, str):
-            self.rng_state.pcg_state.output_idx = self._output_lookup[output_func]
+            self._cfunc = None
+            self.output_function = self._output_lookup[output_func]
+            self.rng_state.pcg_state.output_idx = self.output_function
         elif hasattr(output_func, "argtypes") and hasattr(output_func, "restype"):
             import ctypes
 
-- 
2.43.0


From cdd879cf8cbbdb64b67336abfe30b6dc85b0bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 09/25] fix: random_raw(output=False) makes as many draws as
 with output

---
 randomgen/common.pyx | 2 +-
 randomgen/rdrand.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index c76f94c..611209f 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -239,7 +239,7 @@ cdef object random_raw(bitgen_t *bitgen, object lock, object size, object output
             with lock:
                 bitgen.next_raw(bitgen.state)
             return None
-        n = np.asarray(size).sum()
+        n = np.prod(size, dtype=np.intp)
         with lock, nogil:
             for i in range(n):
                 bitgen.next_raw(bitgen.state)
diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index f27f5a7..25f059d 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -364,7 +364,7 @@ cdef class RDRAND(BitGenerator):
         cdef int status
 
         if not output:
-            n = 1 if size is None else size
+            n = 1 if size is None else np.prod(size, dtype=np.intp)
             status = self.rng_state.status
             with self.lock, nogil:
                 for i in range(n):
-- 
2.43.0


From 5320ac62f0aecd45714854723876e589758b63b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 10/25] fix: Squares key generation extends its random words
 before reading past them

---
 randomgen/squares.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 3e4e750..226f594 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -85,14 +85,14 @@ cdef class _SequenceSampler:
 
     cdef void refill(self):
         """Refill the bit well after it is exhausted"""
-        self.bit_well = <uint64_t>self.random_well[self.index]
-        self.bit_well_loc = 0
-        self.index += 1
-        if self.index > self.randoms_drawm:
+        if self.index >= self.randoms_drawm:
             self.randoms_drawm *= 2
             self.random_well = self.seed_seq.generate_state(
                 self.randoms_drawm, dtype=np.uint64
             )
+        self.bit_well = <uint64_t>self.random_well[self.index]
+        self.bit_well_loc = 0
+        self.index += 1
 
     cdef uint64_t gen_bits(self, int nbits):
         """Generate a fixed number of bits from the bit well"""
-- 
2.43.0


From fe108b505cb067e38ede0469e8dd6e312b7883a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:22 +0000
Subject: [PATCH 11/25] fix: Squares rejects a key or counter that is not an
 integer

---
 randomgen/squares.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/randomgen/squares.pyx b/randomgen/squares.pyx
index 226f594..92f0ed0 100644
--- a/randomgen/squares.pyx
+++ b/randomgen/squares.pyx
@@ -459,7 +459,10 @@ cdef class Squares(BitGenerator):
 
     @staticmethod
     cdef uint64_t _check_value(self, object val, object name, bint odd):
+        orig = val
         val = int(val)
+        if val != orig:
+            raise TypeError(f"{name} must be an integer.")
         if not 0 <= val <= np.iinfo(np.uint64).max:
             raise ValueError(f"{name} must be positive and less than 2**64.")
 
-- 
2.43.0


From fd593b598aca5f446a2af26812b40555a7741b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:57 +0000
Subject: [PATCH 12/25] fix: LCG128Mix validates inc as PCG64 and PCG32 do

---
 randomgen/pcg64.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/randomgen/pcg64.pyx b/randomgen/pcg64.pyx
index dc95e89..b2f2d6f 100644
--- a/randomgen/pcg64.pyx
+++ b/randomgen/pcg64.pyx
@@ -764,6 +764,12 @@ cdef class LCG128Mix(BitGenerator):
             a ``SeedSequence`` (which is shared with seed if seed is also
             None).
         """
+        if inc is not None:
+            err_msg = "inc must be a scalar integer in [0, 2**128)"
+            if not np.isscalar(inc):
+                raise TypeError(err_msg)
+            if inc < 0 or inc >= 2 ** 128 or int(inc) != inc:
+                raise ValueError(err_msg)
         BitGenerator._seed_with_seed_sequence(self, seed, inc=inc)
 
     @property
-- 
2.43.0


From 683fa7103e21d9e6f06f93c245e44f03f41039ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:25 +0000
Subject: [PATCH 13/25] fix: RDRAND does not read past its buffer after a
 hardware failure

---
 randomgen/rdrand.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/rdrand.pyx b/randomgen/rdrand.pyx
index 25f059d..0408b15 100644
--- a/randomgen/rdrand.pyx
+++ b/randomgen/rdrand.pyx
@@ -34,7 +34,7 @@ cdef uint64_t rdrand_uint64(void* st) noexcept nogil:
         val = state.buffer[state.buffer_loc]
         state.buffer_loc += 1
         return val
-    elif state.status == 1:
+    elif state.status == 1 or state.buffer_loc >= BUFFER_SIZE:
         # Only refill if good status
         # This function will
         status = rdrand_fill_buffer(state)
-- 
2.43.0


From 71e271cb7adb5ac11deba047629be4de1a8ae11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:41 +0000
Subject: [PATCH 14/25] fix: extended-precision fills use an index as wide as
 their length

---
 randomgen/src/distributions/rg-distributions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/src/distributions/rg-distributions.c b/randomgen/src/distributions/rg-distributions.c
index f021acd..906fb05 100644
--- a/randomgen/src/distributions/rg-distributions.c
+++ b/randomgen/src/distributions/rg-distributions.c
@@ -52,7 +52,7 @@ long double random_long_double(bitgen_t *bitgen_state){
 }
 
 void random_long_double_fill(bitgen_t *bitgen_state, npy_intp cnt, long double *out){
-   for (int i=0; i < cnt; i++){
+   for (npy_intp i=0; i < cnt; i++){
       out[i] = rg_next_long_double(bitgen_state);
    }
 }
-- 
2.43.0


From 643d7f86a2ed70ca4b3199bce086577ea3b334d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:41 +0000
Subject: [PATCH 15/25] fix: entropy_getbytes closes the entropy source after a
 short read

---
 randomgen/src/entropy/entropy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/randomgen/src/entropy/entropy.c b/randomgen/src/entropy/entropy.c
index 17ac8c4..571d88b 100644
--- a/randomgen/src/entropy/entropy.c
+++ b/randomgen/src/entropy/entropy.c
@@ -82,8 +82,10 @@ bool entropy_getbytes(void *dest, size_t size) {
   if (fd < 0)
     return false;
   ssize_t sz = read(fd, dest, size);
-  if ((sz < 0) || ((size_t)sz < size))
+  if ((sz < 0) || ((size_t)sz < size)) {
+    close(fd);
     return false;
+  }
   return close(fd) == 0;
 }
 #endif
-- 
2.43.0


From 6348c39cfe91735d01eeb0f8cb905811027d2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:41 +0000
Subject: [PATCH 16/25] fix: random_entropy returns an empty array for an empty
 size

---
 randomgen/entropy.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 8fc1afb..c2f7705 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -191,6 +191,6 @@ def random_entropy(size=None, source="system"):
             raise RuntimeError("Unable to read from system cryptographic "
                                "provider or use fallback")
 
-    if n == 0:
+    if size is None:
         return random
     return np.asarray(randoms).reshape(size)
-- 
2.43.0


From 40aef346178be22246eb7be220b76ebaecf4e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:33 +0000
Subject: [PATCH 17/25] fix: state arrays that are strided views are read
 element by element

---
 randomgen/common.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 611209f..d0aaaa3 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -410,7 +410,8 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
         raise ValueError("State element {0} must be a 1-d array with dtype {1} "
                          "and {2} elements".format(name, req_dtype,
                                                    required_len))
-    return arr
+    # Callers can read the data directly
+    return np.ascontiguousarray(arr)
 
 
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
-- 
2.43.0


From b3094f25205e1a9250f561482e2fa04e252ebe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 18/25] fix: state setters reject positions outside the
 generator's buffers

---
 randomgen/aes.pxd          | 1 +
 randomgen/aes.pyx          | 2 +-
 randomgen/common.pxd       | 2 ++
 randomgen/common.pyx       | 9 +++++++++
 randomgen/dsfmt.pxd        | 1 +
 randomgen/dsfmt.pyx        | 8 ++++++--
 randomgen/hc128.pxd        | 1 +
 randomgen/hc128.pyx        | 6 ++++--
 randomgen/mt19937.pxd      | 7 ++++++-
 randomgen/mt19937.pyx      | 4 +++-
 randomgen/mt64.pxd         | 1 +
 randomgen/mt64.pyx         | 2 +-
 randomgen/philox.pxd       | 1 +
 randomgen/philox.pxd.in    | 1 +
 randomgen/philox.pyx       | 4 +++-
 randomgen/sfmt.pxd         | 1 +
 randomgen/sfmt.pyx         | 8 ++++++--
 randomgen/speck128.pxd     | 1 +
 randomgen/speck128.pyx     | 8 ++++++--
 randomgen/threefry.pxd     | 1 +
 randomgen/threefry.pxd.in  | 1 +
 randomgen/threefry.pyx     | 4 +++-
 randomgen/xorshift1024.pxd | 1 +
 randomgen/xorshift1024.pyx | 2 +-
 24 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/randomgen/aes.pxd b/randomgen/aes.pxd
index ebe6679..1724198 100644
--- a/randomgen/aes.pxd
+++ b/randomgen/aes.pxd
@@ -5,6 +5,7 @@ from libc.stdint cimport uint8_t, uint32_t, uint64_t
 
 from randomgen.common cimport (
     BitGenerator,
+    check_state_index,
     PyArray_calloc_aligned,
     PyArray_free_aligned,
     fully_qualified_name,
diff --git a/randomgen/aes.pyx b/randomgen/aes.pyx
index 8832b44..91d7c69 100644
--- a/randomgen/aes.pyx
+++ b/randomgen/aes.pyx
@@ -288,7 +288,7 @@ cdef class AESCounter(BitGenerator):
         state =value["s"]["state"]
         for i in range(16 * 4):
             self.rng_state.state[i] = state[i]
-        self.rng_state.offset = value["s"]["offset"]
+        self.rng_state.offset = check_state_index(value["s"]["offset"], 64, "offset", 8)
         seed = np.ascontiguousarray(value["s"]["seed"], dtype=np.uint64)
         counter = np.ascontiguousarray(value["s"]["counter"], dtype=np.uint64)
         if seed.ndim != 1 or seed.shape[0] != 2 * (10 + 1):
diff --git a/randomgen/common.pxd b/randomgen/common.pxd
index ebc03a9..b1c1444 100644
--- a/randomgen/common.pxd
+++ b/randomgen/common.pxd
@@ -28,6 +28,8 @@ cdef object prepare_ctypes(bitgen_t *bitgen)
 cdef object wrap_int(object val, object bits)
 cdef object check_state_array(object arr, np.npy_intp required_len,
                               int required_bits, object name)
+cdef int check_state_index(object value, int upper, object name,
+                           int step=*) except -1
 cpdef object object_to_int(object val, object bits, object name,
                            int default_bits=*, object allowed_sizes=*)
 
diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index d0aaaa3..6474b63 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -414,6 +414,15 @@ cdef object check_state_array(object arr, np.npy_intp required_len,
     return np.ascontiguousarray(arr)
 
 
+cdef int check_state_index(object value, int upper, object name,
+                           int step=1) except -1:
+    """Check that a position read from a state is in [0, upper]"""
+    if not 0 <= value <= upper or value % step:
+        raise ValueError("State element {0} must be a multiple of {1} between "
+                         "0 and {2}".format(name, step, upper))
+    return value
+
+
 cdef np.ndarray int_to_array(object value, object name, object bits, object uint_size):
     """
     Convert a large integer to an array of unsigned integers
diff --git a/randomgen/dsfmt.pxd b/randomgen/dsfmt.pxd
index 41f5fc3..e24ba00 100644
--- a/randomgen/dsfmt.pxd
+++ b/randomgen/dsfmt.pxd
@@ -8,6 +8,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
 )
 
diff --git a/randomgen/dsfmt.pyx b/randomgen/dsfmt.pyx
index 9506c3d..fa0cd64 100644
--- a/randomgen/dsfmt.pyx
+++ b/randomgen/dsfmt.pyx
@@ -282,9 +282,13 @@ cdef class DSFMT(BitGenerator):
             for j in range(2):
                 self.rng_state.state.status[i].u[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
+        self.rng_state.state.idx = check_state_index(
+            value["state"]["idx"], DSFMT_N64, "idx"
+        )
         buffered_uniforms = value["buffered_uniforms"]
         # TODO: Check buffered_uniforms
         for i in range(DSFMT_N64):
             self.rng_state.buffered_uniforms[i] = buffered_uniforms[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+        self.rng_state.buffer_loc = check_state_index(
+            value["buffer_loc"], DSFMT_N64, "buffer_loc"
+        )
diff --git a/randomgen/hc128.pxd b/randomgen/hc128.pxd
index 57add01..200d356 100644
--- a/randomgen/hc128.pxd
+++ b/randomgen/hc128.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/hc128.pyx b/randomgen/hc128.pyx
index b14ec79..4663e92 100644
--- a/randomgen/hc128.pyx
+++ b/randomgen/hc128.pyx
@@ -225,5 +225,7 @@ cdef class HC128(BitGenerator):
         buf_arr = <uint32_t *>np.PyArray_DATA(buffer)
         for i in range(16):
             self.rng_state.buffer[i] = buf_arr[i]
-        self.rng_state.hc_idx = state["hc_idx"]
-        self.rng_state.buffer_idx = state["buffer_idx"]
+        self.rng_state.hc_idx = check_state_index(state["hc_idx"], 1023, "hc_idx", 16)
+        self.rng_state.buffer_idx = check_state_index(
+            state["buffer_idx"], 16, "buffer_idx"
+        )
diff --git a/randomgen/mt19937.pxd b/randomgen/mt19937.pxd
index 54515d7..9bfae27 100644
--- a/randomgen/mt19937.pxd
+++ b/randomgen/mt19937.pxd
@@ -1,7 +1,12 @@
 cimport numpy as np
 from libc.stdint cimport uint32_t, uint64_t
 
-from randomgen.common cimport BitGenerator, check_state_array, fully_qualified_name
+from randomgen.common cimport (
+    BitGenerator,
+    check_state_array,
+    check_state_index,
+    fully_qualified_name,
+)
 
 
 cdef extern from "src/mt19937/mt19937.h":
diff --git a/randomgen/mt19937.pyx b/randomgen/mt19937.pyx
index 2f14d4d..542b712 100644
--- a/randomgen/mt19937.pyx
+++ b/randomgen/mt19937.pyx
@@ -311,4 +311,6 @@ cdef class MT19937(BitGenerator):
         key = check_state_array(value["state"]["key"], RK_STATE_LEN, 32, "key")
         for i in range(RK_STATE_LEN):
             self.rng_state.key[i] = key[i]
-        self.rng_state.pos = value["state"]["pos"]
+        self.rng_state.pos = check_state_index(
+            value["state"]["pos"], RK_STATE_LEN, "pos"
+        )
diff --git a/randomgen/mt64.pxd b/randomgen/mt64.pxd
index 44a46e2..f249c46 100644
--- a/randomgen/mt64.pxd
+++ b/randomgen/mt64.pxd
@@ -6,6 +6,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/mt64.pyx b/randomgen/mt64.pyx
index 2dbaf5a..3a14365 100644
--- a/randomgen/mt64.pyx
+++ b/randomgen/mt64.pyx
@@ -167,6 +167,6 @@ cdef class MT64(BitGenerator):
         key = check_state_array(value["state"]["key"], 312, 64, "key")
         for i in range(312):
             self.rng_state.mt[i] = key[i]
-        self.rng_state.mti = value["state"]["pos"]
+        self.rng_state.mti = check_state_index(value["state"]["pos"], 313, "pos")
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
diff --git a/randomgen/philox.pxd b/randomgen/philox.pxd
index c1805f6..15da8cf 100644
--- a/randomgen/philox.pxd
+++ b/randomgen/philox.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pxd.in b/randomgen/philox.pxd.in
index 97e527d..7b2a4c6 100644
--- a/randomgen/philox.pxd.in
+++ b/randomgen/philox.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/philox.pyx b/randomgen/philox.pyx
index c70d584..f988dfb 100644
--- a/randomgen/philox.pyx
+++ b/randomgen/philox.pyx
@@ -410,7 +410,9 @@ cdef class Philox(BitGenerator):
 
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+        self.rng_state.buffer_pos = check_state_index(
+            value["buffer_pos"], 4, "buffer_pos"
+        )
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/sfmt.pxd b/randomgen/sfmt.pxd
index 246fd6e..3e32df4 100644
--- a/randomgen/sfmt.pxd
+++ b/randomgen/sfmt.pxd
@@ -7,6 +7,7 @@ from randomgen.common cimport (
     PyArray_free_aligned,
     PyArray_malloc_aligned,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/sfmt.pyx b/randomgen/sfmt.pyx
index 300c4fc..4925b42 100644
--- a/randomgen/sfmt.pyx
+++ b/randomgen/sfmt.pyx
@@ -289,11 +289,15 @@ cdef class SFMT(BitGenerator):
             for j in range(2):
                 self.rng_state.state.state[i].u64[j] = state[loc]
                 loc += 1
-        self.rng_state.state.idx = value["state"]["idx"]
+        self.rng_state.state.idx = check_state_index(
+            value["state"]["idx"], 2 * SFMT_N64, "idx", 2
+        )
         buffered_uint64 = check_state_array(value["buffered_uint64"], SFMT_N64,
                                             64,  "buffered_uint64")
         for i in range(SFMT_N64):
             self.rng_state.buffered_uint64[i] = buffered_uint64[i]
-        self.rng_state.buffer_loc = value["buffer_loc"]
+        self.rng_state.buffer_loc = check_state_index(
+            value["buffer_loc"], SFMT_N64, "buffer_loc"
+        )
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
diff --git a/randomgen/speck128.pxd b/randomgen/speck128.pxd
index ba2b46e..503081c 100644
--- a/randomgen/speck128.pxd
+++ b/randomgen/speck128.pxd
@@ -6,6 +6,7 @@ from randomgen.common cimport (
     PyArray_calloc_aligned,
     PyArray_free_aligned,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/speck128.pyx b/randomgen/speck128.pyx
index 6dd3e8e..c937fb2 100644
--- a/randomgen/speck128.pyx
+++ b/randomgen/speck128.pyx
@@ -332,8 +332,12 @@ cdef class SPECK128(BitGenerator):
             self.rng_state.round_key[i].u64[0] = arr[2 * i]
             self.rng_state.round_key[i].u64[1] = arr[2 * i + 1]
 
-        self.rng_state.rounds = state["rounds"]
-        self.rng_state.offset = state["offset"]
+        self.rng_state.rounds = check_state_index(
+            state["rounds"], SPECK_MAX_ROUNDS, "rounds"
+        )
+        self.rng_state.offset = check_state_index(
+            state["offset"], 8 * SPECK_UNROLL, "offset", 8
+        )
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
 
diff --git a/randomgen/threefry.pxd b/randomgen/threefry.pxd
index d25031d..5650e3d 100644
--- a/randomgen/threefry.pxd
+++ b/randomgen/threefry.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pxd.in b/randomgen/threefry.pxd.in
index 96d462f..251b1b1 100644
--- a/randomgen/threefry.pxd.in
+++ b/randomgen/threefry.pxd.in
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     int_to_array,
     object_to_int,
diff --git a/randomgen/threefry.pyx b/randomgen/threefry.pyx
index 8878b80..6b5bd53 100644
--- a/randomgen/threefry.pyx
+++ b/randomgen/threefry.pyx
@@ -390,7 +390,9 @@ cdef class ThreeFry(BitGenerator):
 
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-        self.rng_state.buffer_pos = value["buffer_pos"]
+        self.rng_state.buffer_pos = check_state_index(
+            value["buffer_pos"], 4, "buffer_pos"
+        )
 
     cdef jump_inplace(self, object iter):
         """
diff --git a/randomgen/xorshift1024.pxd b/randomgen/xorshift1024.pxd
index 654277a..cc4b534 100644
--- a/randomgen/xorshift1024.pxd
+++ b/randomgen/xorshift1024.pxd
@@ -4,6 +4,7 @@ from libc.stdint cimport uint32_t, uint64_t
 from randomgen.common cimport (
     BitGenerator,
     check_state_array,
+    check_state_index,
     fully_qualified_name,
     uint64_to_double,
 )
diff --git a/randomgen/xorshift1024.pyx b/randomgen/xorshift1024.pyx
index 1b71e70..96104cf 100644
--- a/randomgen/xorshift1024.pyx
+++ b/randomgen/xorshift1024.pyx
@@ -265,6 +265,6 @@ cdef class Xorshift1024(BitGenerator):
         state = check_state_array(value["state"]["s"], 16, 64, "s")
         for i in range(16):
             self.rng_state.s[i] = <uint64_t>state[i]
-        self.rng_state.p = value["state"]["p"]
+        self.rng_state.p = check_state_index(value["state"]["p"], 15, "p")
         self.rng_state.has_uint32 = value["has_uint32"]
         self.rng_state.uinteger = value["uinteger"]
-- 
2.43.0


From e599915303c18cdf58dd39528abbee5f67cc1fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:28 +0000
Subject: [PATCH 19/25] fix: integer lists mixing small and large values
 convert exactly, and floats equal to 2**64 are rejected

---
 randomgen/common.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/randomgen/common.pyx b/randomgen/common.pyx
index 6474b63..2b3053b 100644
--- a/randomgen/common.pyx
+++ b/randomgen/common.pyx
@@ -370,12 +370,14 @@ cpdef object object_to_int(object val, object bits, object name, int default_bit
                             " {1}".format(name, all_sz))
     else:
         dtype = np.uint64 if default_bits==64 else np.uint32
-        val = np.array(val)
-        if not np.issubdtype(val.dtype, np.number):
+        # object preserves the values when small and large are mixed
+        val = np.array(val, dtype=object)
+        if not all([isinstance(v, (int, float, np.number)) for v in val.flat]):
             raise ValueError("{0} contains non-numeric values or values "
                              "out-of-range".format(name))
         if not np.all((val // 1) == val):
             raise TypeError("{0} contains floating point values".format(name))
+        val = np.array([int(v) for v in val.flat], dtype=object).reshape(val.shape)
         max_val = np.iinfo(dtype).max
         if not (np.all(val<=max_val) and np.all(val>=0)):
             raise ValueError("{0} has elements that are out-of-range for "
-- 
2.43.0


From 18ecec7af39e8af71e188805f2401967b668250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 20/25] fix: ExtendedGenerator follows a state that selects
 another variant (pickling included)

---
 randomgen/generator.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 9f46584..96972be 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -166,7 +166,10 @@ cdef class ExtendedGenerator:
         if bit_generator is None:
             bit_generator = PCG64(variant="dxsm")
         self._bit_generator = bit_generator
+        self._setup_bitgen()
 
+    cdef object _setup_bitgen(self):
+        bit_generator = self._bit_generator
         capsule = bit_generator.capsule
         cdef const char *name = "BitGenerator"
         if not PyCapsule_IsValid(capsule, name):
@@ -191,7 +194,7 @@ cdef class ExtendedGenerator:
         return self.bit_generator.state
 
     def __setstate__(self, state):
-        self.bit_generator.state = state
+        self.state = state
 
     def __reduce__(self):
         from randomgen._pickle import __extended_generator_ctor
@@ -232,6 +235,8 @@ cdef class ExtendedGenerator:
     @state.setter
     def state(self, value):
         self._bit_generator.state = value
+        # The state may select other functions, e.g., another variant
+        self._setup_bitgen()
 
     def uintegers(self, size=None, int bits=64):
         """
-- 
2.43.0


From 8581b529df1ca6535b4101d2963fb4add2eb6c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 21/25] fix: seed_by_array converts lists mixing small and
 large integers exactly

---
 randomgen/entropy.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index c2f7705..88b6a2a 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -94,7 +94,8 @@ def seed_by_array(object seed, Py_ssize_t n):
         seed_array = np.array([int_seed], dtype=np.uint64)
     else:
         err_msg = "Seed values must be integers between 0 and 2**64 - 1"
-        obj = np.asarray(seed).astype(object)
+        # Convert directly: a list mixing small and large integers would become float
+        obj = np.asarray(seed, dtype=object)
         if obj.ndim != 1:
             raise ValueError("Array-valued seeds must be 1-dimensional")
         if not all((np.isscalar(v) and np.isreal(v)) for v in obj):
-- 
2.43.0


From a5466d895557f18ac301201abd483439c8299291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:30 +0000
Subject: [PATCH 22/25] fix: random_entropy does not take the address of an
 empty array

---
 randomgen/entropy.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/randomgen/entropy.pyx b/randomgen/entropy.pyx
index 88b6a2a..574ea76 100644
--- a/randomgen/entropy.pyx
+++ b/randomgen/entropy.pyx
@@ -174,6 +174,8 @@ def random_entropy(size=None, source="system"):
     else:
         n = compute_numel(size)
         randoms = np.zeros(n, dtype=np.uint32)
+        if n == 0:
+            return np.asarray(randoms).reshape(size)
         if source in ("system", "auto"):
             success = entropy_getbytes(<void *>(&randoms[0]), 4 * n)
         else:
-- 
2.43.0


From d07a1a80216a96728851461317d5beb9468dec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:34 +0000
Subject: [PATCH 23/25] fix: hold the lock in scalar complex_normal draws

---
 randomgen/generator.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 96972be..1077811 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -653,8 +653,9 @@ cdef class ExtendedGenerator:
                 raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation** 2)")
 
             if size is None:
-                f_real = random_standard_normal(&self._bitgen)
-                f_imag = random_standard_normal(&self._bitgen)
+                with self.lock, nogil:
+                    f_real = random_standard_normal(&self._bitgen)
+                    f_imag = random_standard_normal(&self._bitgen)
 
                 compute_complex(&f_real, &f_imag, floc_r, floc_i, fvar_r,
                                 fvar_i, f_rho)
-- 
2.43.0


From fb8da18966b2017ab297aa7030f8e9f2258166f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 24/25] fix: broadcast gamma against relation in complex_normal

---
 randomgen/generator.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1077811..1176202 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -689,8 +689,8 @@ cdef class ExtendedGenerator:
         if np.any(np.not_equal(np.imag(ogamma), 0)):
             raise ValueError("Im(gamma) != 0")
 
-        cov = 0.5 * np.imag(orelation)
-        rho = np.zeros_like(cov)
+        cov = np.broadcast_to(0.5 * np.imag(orelation), np.shape(gpc))
+        rho = np.zeros(np.shape(gpc))
         idx = (v_real.flat > 0) & (v_imag.flat > 0)
         rho.flat[idx] = cov.flat[idx] / np.sqrt(v_real.flat[idx] * v_imag.flat[idx])
         if np.any(cov.flat[~idx] != 0) or np.any(np.abs(rho) > 1):
-- 
2.43.0


From 56941d903cf6594705e89c86c17708778f2ae064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 25/25] fix: reject sizes complex_normal parameters do not
 broadcast to

---
 randomgen/generator.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/randomgen/generator.pyx b/randomgen/generator.pyx
index 1176202..19cf6b2 100644
--- a/randomgen/generator.pyx
+++ b/randomgen/generator.pyx
@@ -696,10 +696,14 @@ cdef class ExtendedGenerator:
         if np.any(cov.flat[~idx] != 0) or np.any(np.abs(rho) > 1):
             raise ValueError("Im(relation) ** 2 > Re(gamma ** 2 - relation ** 2)")
 
+        it = np.PyArray_MultiIterNew4(oloc, v_real, v_imag, rho)
         if size is not None:
             randoms = <np.ndarray>np.empty(size, np.complex128)
+            if np.broadcast_shapes(np.shape(randoms), it.shape) != np.shape(randoms):
+                raise ValueError("Output size {0} is not compatible with broadcast "
+                                 "dimensions of inputs {1}.".format(
+                                     np.shape(randoms), it.shape))
         else:
-            it = np.PyArray_MultiIterNew4(oloc, v_real, v_imag, rho)
             randoms = <np.ndarray>np.empty(it.shape, np.complex128)
 
         randoms_data = <double *>np.PyArray_DATA(randoms)
-- 
2.43.0

