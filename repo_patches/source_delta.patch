From 41b4d57be872888612bbf07ed778b059e5c93a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/43] fix: Trellis with an integer rsc feedback overwrote the
 caller's generator matrix

---
 commpy/channelcoding/convcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index d1dcf16..1ace62d 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -133,6 +133,7 @@ class Trellis:
                  DeprecationWarning)
 
             if code_type == 'rsc':
+                g_matrix = g_matrix.copy()
                 for i in range(self.k):
                     g_matrix[i][i] = feedback
 
-- 
2.43.0


From 9fda3d6459292e757d8dc85100aaae05077f93e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 02/43] fix: integer-feedback Trellis added the feedback to
 outputs that do not tap the register input

---
 commpy/channelcoding/convcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 1ace62d..2b5233d 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -181,8 +181,8 @@ class Trellis:
 
                         # Compute the contribution of the current_input to output
                         outbits[r] = (outbits[r] + \
-                                      (np.sum(dec2bitarray(current_input, self.k) * \
-                                              output_generator_array + feedback_array) % 2)) % 2
+                                      (np.sum((dec2bitarray(current_input, self.k) + feedback_array) * \
+                                              output_generator_array) % 2)) % 2
 
                     # Update the ouput_table using the computed output value
                     self.output_table[current_state][current_input] = \
-- 
2.43.0


From c18132002e400bb9ee463bc28156a62d67460ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 03/43] fix: viterbi_decode wrote its padding into the caller's
 coded bits

---
 commpy/channelcoding/convcode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 2b5233d..a52decf 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -726,11 +726,11 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
         # Pad with '0'
         else:
             if decoding_type == 'hard':
-                r_codeword[:] = 0
+                r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'soft':
-                r_codeword[:] = 0
+                r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'unquantized':
-                r_codeword[:] = -1
+                r_codeword = np.full(n, -1)
             else:
                 raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
 
-- 
2.43.0


From 75866fb800c2a513f6cfea9d5c66f8372f0726b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 04/43] fix: viterbi_decode returned uninitialised memory when
 the traceback depth exceeds the block

---
 commpy/channelcoding/convcode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index a52decf..043c6d6 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -702,6 +702,11 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     if tb_depth is None:
         tb_depth = min(5 * total_memory, L)
 
+    # Number of trellis steps to process
+    number_steps = int((L + total_memory) / k) - 1
+
+    # A traceback must happen at least once and cannot be longer than the processed steps
+    tb_depth = max(2, min(tb_depth, number_steps + 1))
 
     path_metrics = np.full((trellis.number_states, 2), np.inf)
     path_metrics[0][0] = 0
@@ -719,7 +724,7 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
     if decoding_type == 'soft':
         coded_bits = coded_bits.clip(-500, 500)
 
-    for t in range(1, int((L+total_memory)/k)):
+    for t in range(1, number_steps + 1):
         # Get the received codeword corresponding to t
         if t <= L // k:
             r_codeword = coded_bits[(t-1)*n:t*n]
-- 
2.43.0


From fb297682e44b4e6213bba8f0b73ec424f80bb57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 05/43] fix: viterbi_decode failed on codes with fewer memory
 elements than inputs

---
 commpy/channelcoding/convcode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 043c6d6..110e608 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -602,8 +602,7 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
 
     next_state_table = trellis.next_state_table
     output_table = trellis.output_table
-    pmetrics = np.empty(number_inputs)
-    index_array = np.empty([number_states, 2], 'int')
+    index_array = np.empty([number_states * number_inputs, 2], 'int')
 
     # Loop over all the current states (Time instant: t)
     for state_num in range(current_number_states):
@@ -612,6 +611,8 @@ def _acs_traceback(r_codeword, trellis, decoding_type,
         # leading into the current state (Trellis)
         number_found = _where_c(next_state_table, number_states, number_inputs, state_num, index_array)
 
+        pmetrics = np.full(max(number_found, 1), np.inf)
+
         # Loop over all the previous states (Time instant: t-1)
         for i in range(number_found):
 
@@ -703,7 +704,7 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
         tb_depth = min(5 * total_memory, L)
 
     # Number of trellis steps to process
-    number_steps = int((L + total_memory) / k) - 1
+    number_steps = max(int((L + total_memory) / k) - 1, L // k)
 
     # A traceback must happen at least once and cannot be longer than the processed steps
     tb_depth = max(2, min(tb_depth, number_steps + 1))
-- 
2.43.0


From 69a9e6d1f79eae5498f2ce45d15c68bf8abc43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 06/43] fix: conv_encode padded punctured streams with zeros up
 to the unpunctured length

---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index 110e608..ad85b7b 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -556,7 +556,7 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
             p_outbits[j] = outbits[i]
             j = j + 1
 
-    return p_outbits
+    return p_outbits[:j]
 
 
 def _where_c(inarray, rows, cols, search_value, index_array):
-- 
2.43.0


From b95f934712dadc8b19c2bf3829e5cfe06b017010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 07/43] fix: terminated encoding did not always return to the
 zero state

The flush bits were only right for recursive codes with feedback 1+D^M and for
non-recursive codes whose memories are balanced over at most two inputs.
---
 commpy/channelcoding/convcode.py | 41 +++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index ad85b7b..ea98857 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -473,6 +473,24 @@ class Trellis:
             plt.savefig(save_path)
 
 
+def _termination_inputs(trellis, state, number_steps=None):
+    """ Inputs that drive the encoder from the given state back to the zero state (the smallest ones if several do).
+
+    By default, as many steps as the worst state needs are used. """
+
+    # reachable[i] marks the states from which the zero state is reachable in i steps
+    reachable = [np.arange(trellis.number_states) == 0]
+    max_steps = trellis.total_memory if number_steps is None else number_steps
+    while len(reachable) <= max_steps and (number_steps is not None or not reachable[-1].all()):
+        reachable.append(reachable[-1][trellis.next_state_table].any(1))
+
+    inputs = []
+    for targets in reversed(reachable[:-1]):
+        inputs.append(targets[trellis.next_state_table[state]].argmax())
+        state = trellis.next_state_table[state][inputs[-1]]
+    return inputs
+
+
 def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=None):
     """
     Encode bits using a convolutional code.
@@ -503,22 +521,20 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
 
     number_message_bits = np.size(message_bits)
     
+    inbits = message_bits
+    number_inbits = number_message_bits
     if termination == 'cont':
-        inbits = message_bits
-        number_inbits = number_message_bits
         number_outbits = int(number_inbits/rate)
     else:
-        # Initialize an array to contain the message bits plus the truncation zeros
         if code_type == 'rsc':
-            inbits = message_bits
-            number_inbits = number_message_bits
-            number_outbits = int((number_inbits + k * total_memory)/rate)
+            number_term_steps = total_memory
         else:
-            number_inbits = number_message_bits + total_memory + total_memory % k
+            # Complete the last message symbol with zeros
+            number_inbits = int(math.ceil(number_message_bits / k) * k)
             inbits = np.zeros(number_inbits, 'int')
-            # Pad the input bits with M zeros (L-th terminated truncation)
             inbits[0:number_message_bits] = message_bits
-            number_outbits = int(number_inbits/rate)
+            number_term_steps = len(_termination_inputs(trellis, 0))
+        number_outbits = int((number_inbits + k * number_term_steps)/rate)
 
     outbits = np.zeros(number_outbits, 'int')
     if puncture_matrix is not None:
@@ -540,11 +556,8 @@ def conv_encode(message_bits, trellis, termination = 'term', puncture_matrix=Non
         current_state = next_state_table[current_state][current_input]
         j += 1
 
-    if code_type == 'rsc' and termination == 'term':
-        term_bits = dec2bitarray(current_state, trellis.total_memory)
-        term_bits = term_bits[::-1]
-        for i in range(trellis.total_memory):
-            current_input = bitarray2dec(term_bits[i*k:(i+1)*k])
+    if termination == 'term' or (termination != 'cont' and code_type != 'rsc'):
+        for current_input in _termination_inputs(trellis, current_state, number_term_steps):
             current_output = output_table[current_state][current_input]
             outbits[j*n:(j+1)*n] = dec2bitarray(current_output, n)
             current_state = next_state_table[current_state][current_input]
-- 
2.43.0


From c89ae3a779078fb575e3c865b90002062ab061f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 08/43] fix: viterbi_decode only refused unknown decoding types
 for codes that need padding

---
 commpy/channelcoding/convcode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index ea98857..a045752 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -704,6 +704,9 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
         Algorithms. John Wiley and Sons, 2005.
     """
 
+    if decoding_type not in ('hard', 'soft', 'unquantized'):
+        raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
+
     # k = Rows in G(D), n = columns in G(D)
     k = trellis.k
     n = trellis.n
@@ -750,8 +753,6 @@ def viterbi_decode(coded_bits, trellis, tb_depth=None, decoding_type='hard'):
                 r_codeword = np.zeros(n, 'int')
             elif decoding_type == 'unquantized':
                 r_codeword = np.full(n, -1)
-            else:
-                raise ValueError('The available decoding types are "hard", "soft" and "unquantized')
 
         _acs_traceback(r_codeword, trellis, decoding_type, path_metrics, paths,
                 decoded_symbols, decoded_bits, tb_count, t, count, tb_depth,
-- 
2.43.0


From d2bc4406c2ca7c4f4c08696b001426cda1fd2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 09/43] fix: turbo decoding of clean signals broke down (NaN)
 at high SNR

---
 commpy/channelcoding/turbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/turbo.py b/commpy/channelcoding/turbo.py
index 491f2c2..9abf23c 100644
--- a/commpy/channelcoding/turbo.py
+++ b/commpy/channelcoding/turbo.py
@@ -3,7 +3,7 @@
 
 """ Turbo Codes """
 
-from numpy import array, zeros, exp, log, empty
+from numpy import array, zeros, exp, log, empty, finfo, maximum
 
 from commpy.channelcoding import conv_encode
 from commpy.utilities import dec2bitarray
@@ -142,6 +142,7 @@ def _forward_recursion_decoding(trellis, mode, msg_length, noise_variance,
                                        branch_prob *
                                        b_state_metrics[next_state, time_index])
 
+        app = maximum(app, finfo(float).tiny)  # Keeps the ratio finite when a probability underflows
         lappr = L_int[time_index-1] + log(app[1]/app[0])
         L_ext[time_index-1] = lappr
 
-- 
2.43.0


From bfe6fa7ebf933132376713307f9b5fa6fca752c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 10/43] fix: GF.power_to_tuple overflowed for exponents above
 62

---
 commpy/channelcoding/gfields.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/gfields.py b/commpy/channelcoding/gfields.py
index 6bd0e1d..1ad8d02 100644
--- a/commpy/channelcoding/gfields.py
+++ b/commpy/channelcoding/gfields.py
@@ -77,10 +77,12 @@ class GF:
         """
         y = zeros(len(self.elements))
         for idx, i in enumerate(self.elements):
-            if 2**i < 2**self.m:
-                y[idx] = 2**i
+            # Exact integers: 2**i does not fit in the NumPy type of the elements
+            power = 2**int(i)
+            if power < 2**self.m:
+                y[idx] = power
             else:
-                y[idx] = polydivide(2**i, self.prim_poly)
+                y[idx] = polydivide(power, int(self.prim_poly))
         return GF(y, self.m)
 
     def tuple_to_power(self):
-- 
2.43.0


From 74de55aca1f0f6211b3bd85f69642e958d5ac3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 11/43] fix: polydivide never returned when dividing by 1

---
 commpy/channelcoding/gfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/gfields.py b/commpy/channelcoding/gfields.py
index 1ad8d02..5d51b59 100644
--- a/commpy/channelcoding/gfields.py
+++ b/commpy/channelcoding/gfields.py
@@ -166,7 +166,7 @@ class GF:
 # Divide two polynomials and returns the remainder
 def polydivide(x, y):
     r = y
-    while len(bin(r)) >= len(bin(y)):
+    while r != 0 and len(bin(r)) >= len(bin(y)):
         shift_count = len(bin(x)) - len(bin(y))
         if shift_count > 0:
             d = y << shift_count
-- 
2.43.0


From 0d0bf977771232db52a9aa0cd22de95ace6e934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 12/43] fix: cyclic_code_genpoly used all of GF(2^m) instead of
 the roots of x^n + 1

---
 commpy/channelcoding/algcode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commpy/channelcoding/algcode.py b/commpy/channelcoding/algcode.py
index 94e2105..f4fd0bf 100644
--- a/commpy/channelcoding/algcode.py
+++ b/commpy/channelcoding/algcode.py
@@ -35,7 +35,9 @@ def cyclic_code_genpoly(n, k):
         if (2**m-1)%n == 0:
             break
 
+    # The roots of x^n + 1 are the n-th roots of unity only
     x_gf = GF(arange(1, 2**m), m)
+    x_gf = GF(x_gf.elements[x_gf.tuple_to_power().elements * n % (2**m-1) == 0], m)
     coset_fields = x_gf.cosets()
 
     coset_leaders = array([])
-- 
2.43.0


From 8bbf67fe31d953af4a18fd50798278ea5b40daab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 13/43] fix: bitarray2dec returned a rounded float for 64 bits
 and more

---
 commpy/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index 5212aab..aa36121 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -104,7 +104,7 @@ def bitarray2dec(in_bitarray):
     number = 0
 
     for i in range(len(in_bitarray)):
-        number = number + in_bitarray[i] * pow(2, len(in_bitarray) - 1 - i)
+        number = number + int(in_bitarray[i]) * pow(2, len(in_bitarray) - 1 - i)
 
     return number
 
-- 
2.43.0


From b249f958a6fbad5fb5acb4d86f9e6bee4894df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 14/43] fix: cyclic_code_genpoly rounded generator polynomials
 of high degree

---
 commpy/channelcoding/algcode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/algcode.py b/commpy/channelcoding/algcode.py
index f4fd0bf..355d806 100644
--- a/commpy/channelcoding/algcode.py
+++ b/commpy/channelcoding/algcode.py
@@ -49,7 +49,7 @@ def cyclic_code_genpoly(n, k):
     y_gf = GF(coset_leaders, m)
     minpol_list = y_gf.minpolys()
     idx_list = arange(1, len(minpol_list))
-    poly_list = array([])
+    poly_list = []
 
     for i in range(1, 2**len(minpol_list)):
         i_array = dec2bitarray(i, len(minpol_list))
@@ -61,9 +61,10 @@ def cyclic_code_genpoly(n, k):
                 gpoly_array = dec2bitarray(gpoly, 2**m)
                 poly_array = dec2bitarray(poly, 2**m)
                 gpoly = bitarray2dec(convolve(gpoly_array, poly_array) % 2)
-            poly_list = concatenate((poly_list, array([gpoly])))
+            poly_list.append(gpoly)
 
-    return poly_list.astype(int)
+    # Polynomials of degree 63 and more do not fit in a NumPy integer
+    return array(poly_list, dtype=int if n - k < 63 else object)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From dc9981f4f34ab0dbd4b3934e912eb5c88873b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 15/43] fix: ldpc_bp_decode clipped the caller's LLRs in place

---
 commpy/channelcoding/ldpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index b8fe73c..23e37cc 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -183,7 +183,7 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
     """
 
     # Clip LLRs
-    llr_vec.clip(-_llr_max, _llr_max, llr_vec)
+    llr_vec = llr_vec.clip(-_llr_max, _llr_max)
 
     # Build parity_check_matrix if required
     if ldpc_code_params.get('parity_check_matrix') is None:
-- 
2.43.0


From a1d6b0aba3e7a2763351b927d5416f364fdcb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 16/43] fix: sum-product decoding turned null LLRs into NaN

---
 commpy/channelcoding/ldpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 23e37cc..b7d4380 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -211,6 +211,9 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                 message_matrix.data *= .5
                 np.tanh(message_matrix.data, out=message_matrix.data)
 
+                # A null message is replaced by a negligible one, for it is divided out of the product below
+                message_matrix.data[message_matrix.data == 0] = 2. ** -600
+
                 # Runtime Warnings are expected when llr = 0. No warn should be raised as this case are expected.
                 with np.errstate(divide='ignore', invalid='ignore'):
                     # Compute product as exponent of the sum of logarithm
-- 
2.43.0


From a2a1962cab996cb267f4bbfa48cf31572e102fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 17/43] fix: min-sum decoding failed on check nodes of degree
 one

---
 commpy/channelcoding/ldpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index b7d4380..7f8df00 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -238,7 +238,8 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                     indexes = np.arange(len(row_data))
                     for j, i in enumerate(range(begin_row, end_row)):
                         other_val = row_data[indexes != j]
-                        message_matrix.data[i] = np.sign(other_val).prod() * np.abs(other_val).min()
+                        min_val = np.abs(other_val).min() if len(other_val) else _llr_max
+                        message_matrix.data[i] = np.sign(other_val).prod() * min_val
             else:
                 raise NameError('Please input a valid decoder_algorithm string (meanning "SPA" or "MSA").')
 
-- 
2.43.0


From abaa3d2210556cf2229bc345923d3fe8c5bd481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 18/43] fix: ldpc_bp_decode only refused unknown algorithms
 when an iteration was needed

---
 commpy/channelcoding/ldpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 7f8df00..78e79f1 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -182,6 +182,9 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
         LLR values corresponding to the decoded output.
     """
 
+    if decoder_algorithm not in ('SPA', 'MSA'):
+        raise NameError('Please input a valid decoder_algorithm string (meanning "SPA" or "MSA").')
+
     # Clip LLRs
     llr_vec = llr_vec.clip(-_llr_max, _llr_max)
 
@@ -229,7 +232,7 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                     message_matrix.data *= 2
                     message_matrix.data.clip(-_llr_max, _llr_max, message_matrix.data)
 
-            elif decoder_algorithm == 'MSA':
+            else:
                 message_matrix = message_matrix.tocsr()
                 for row_idx in range(message_matrix.shape[0]):
                     begin_row = message_matrix.indptr[row_idx]
@@ -240,8 +243,6 @@ def ldpc_bp_decode(llr_vec, ldpc_code_params, decoder_algorithm, n_iters):
                         other_val = row_data[indexes != j]
                         min_val = np.abs(other_val).min() if len(other_val) else _llr_max
                         message_matrix.data[i] = np.sign(other_val).prod() * min_val
-            else:
-                raise NameError('Please input a valid decoder_algorithm string (meanning "SPA" or "MSA").')
 
             # Variable Node Update
             msg_sum = np.array(message_matrix.sum(0)).squeeze()
-- 
2.43.0


From c582341ee275cfdcde4d7c03826570e787907964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 19/43] fix: the last node degree was lost when a design file
 has no blank at the end of the line

---
 commpy/channelcoding/ldpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 78e79f1..08d9131 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -92,8 +92,8 @@ def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
 
         [n_vnodes, n_cnodes] = [int(x) for x in ldpc_design_file.readline().split(' ')]
         [max_vnode_deg, max_cnode_deg] = [int(x) for x in ldpc_design_file.readline().split(' ')]
-        vnode_deg_list = np.array([int(x) for x in ldpc_design_file.readline().split(' ')[:-1]], np.int32)
-        cnode_deg_list = np.array([int(x) for x in ldpc_design_file.readline().split(' ')[:-1]], np.int32)
+        vnode_deg_list = np.array([int(x) for x in ldpc_design_file.readline().split()], np.int32)
+        cnode_deg_list = np.array([int(x) for x in ldpc_design_file.readline().split()], np.int32)
 
         cnode_adj_list = -np.ones([n_cnodes, max_cnode_deg], int)
         vnode_adj_list = -np.ones([n_vnodes, max_vnode_deg], int)
-- 
2.43.0


From c88a7e13273403de861b6975a36caf0705671a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 20/43] fix: LDPC generator matrices were inverted over the
 reals, failing or wrong unless the determinant is +-1

---
 commpy/channelcoding/ldpc.py | 39 +++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 08d9131..0fd0d36 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -3,7 +3,6 @@
 
 import numpy as np
 import scipy.sparse as sp
-import scipy.sparse.linalg as splg
 
 __all__ = ['build_matrix', 'get_ldpc_code_params', 'ldpc_bp_decode', 'write_ldpc_params',
            'triang_ldpc_systematic_encode']
@@ -30,7 +29,7 @@ def build_matrix(ldpc_code_params):
     ---
     to ldpc_code_param:
             parity_check_matrix (CSC sparse matrix of int8) - parity check matrix.
-            generator_matrix (CSR sparse matrix) - generator matrix of the code.
+            generator_matrix (CSR sparse matrix) - generator matrix of the code (None if there is no systematic one).
     """
     n_cnodes = ldpc_code_params['n_cnodes']
     cnode_deg_list = ldpc_code_params['cnode_deg_list']
@@ -45,7 +44,39 @@ def build_matrix(ldpc_code_params):
     parity_part = parity_check_matrix[:, :-n_cnodes]
 
     ldpc_code_params['parity_check_matrix'] = parity_check_matrix
-    ldpc_code_params['generator_matrix'] = splg.inv(systematic_part).dot(parity_part).tocsr()
+    ldpc_code_params['generator_matrix'] = _solve_gf2(systematic_part, parity_part)
+
+
+def _solve_gf2(systematic_part, parity_part):
+    """
+    Solve systematic_part * X = parity_part over GF(2).
+
+    Parameters
+    ----------
+    systematic_part : square sparse matrix of 0's and 1's
+
+    parity_part : sparse matrix of 0's and 1's with as many rows
+
+    Returns
+    -------
+    solution : CSR sparse matrix of 0's and 1's or None if systematic_part is singular.
+    """
+    left = systematic_part.toarray().astype(bool)
+    right = parity_part.toarray().astype(bool)
+
+    for idx in range(len(left)):
+        pivot = idx + left[idx:, idx].argmax()
+        if not left[pivot, idx]:
+            return None
+        left[[idx, pivot]] = left[[pivot, idx]]
+        right[[idx, pivot]] = right[[pivot, idx]]
+
+        rows = left[:, idx].copy()
+        rows[idx] = False
+        left[rows] ^= left[idx]
+        right[rows] ^= right[idx]
+
+    return sp.csr_matrix(right.astype(float))
 
 
 def get_ldpc_code_params(ldpc_design_filename, compute_matrix=False):
@@ -345,6 +376,8 @@ def triang_ldpc_systematic_encode(message_bits, ldpc_code_params, pad=True):
 
     if ldpc_code_params.get('generator_matrix') is None or ldpc_code_params.get('parity_check_matrix') is None:
         build_matrix(ldpc_code_params)
+        if ldpc_code_params['generator_matrix'] is None:
+            raise ValueError('The parity part of the parity check matrix is not invertible.')
 
     block_length = ldpc_code_params['generator_matrix'].shape[1]
     modulo = len(message_bits) % block_length
-- 
2.43.0


From 7e6a8c0f07c98eda18318b35e9ef972c8cddae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 21/43] fix: soft demodulation returned NaN or infinite LLRs
 when the likelihoods underflow

---
 commpy/modulation.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 4f90a52..f555d02 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,7 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    log, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -126,15 +126,13 @@ class Modem:
             demod_bits = zeros(len(input_symbols) * self.num_bits_symbol)
             for i in arange(len(input_symbols)):
                 current_symbol = input_symbols[i]
+                # Sum the likelihoods in the log domain: they all underflow when the noise variance is small
+                log_likelihoods = -abs(current_symbol - self._constellation) ** 2 / noise_var
                 for bit_index in arange(self.num_bits_symbol):
-                    llr_num = 0
-                    llr_den = 0
-                    for bit_value, symbol in enumerate(self._constellation):
-                        if (bit_value >> bit_index) & 1:
-                            llr_num += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
-                        else:
-                            llr_den += exp((-abs(current_symbol - symbol) ** 2) / noise_var)
-                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = log(llr_num / llr_den)
+                    is_one = (arange(self.m) >> bit_index) & 1 == 1
+                    llr_num = logaddexp.reduce(log_likelihoods[is_one])
+                    llr_den = logaddexp.reduce(log_likelihoods[~is_one])
+                    demod_bits[i * self.num_bits_symbol + self.num_bits_symbol - 1 - bit_index] = llr_num - llr_den
         else:
             raise ValueError('demod_type must be "hard" or "soft"')
 
-- 
2.43.0


From 30263961915bdc194031c5543fd2eb5d0cb1f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 22/43] fix: OFDM functions failed with a TypeError (float
 indices)

---
 commpy/modulation.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index f555d02..05607bb 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -263,18 +263,15 @@ class QAMModem(Modem):
 def ofdm_tx(x, nfft, nsc, cp_length):
     """ OFDM Transmit signal generation """
 
-    nfft = float(nfft)
-    nsc = float(nsc)
-    cp_length = float(cp_length)
     ofdm_tx_signal = array([])
 
     for i in range(0, shape(x)[1]):
         symbols = x[:, i]
         ofdm_sym_freq = zeros(nfft, dtype=complex)
-        ofdm_sym_freq[1:(nsc / 2) + 1] = symbols[nsc / 2:]
-        ofdm_sym_freq[-(nsc / 2):] = symbols[0:nsc / 2]
+        ofdm_sym_freq[1:(nsc // 2) + 1] = symbols[nsc // 2:]
+        ofdm_sym_freq[-(nsc // 2):] = symbols[0:nsc // 2]
         ofdm_sym_time = ifft(ofdm_sym_freq)
-        cp = ofdm_sym_time[-cp_length:]
+        cp = ofdm_sym_time[nfft - cp_length:]
         ofdm_tx_signal = concatenate((ofdm_tx_signal, cp, ofdm_sym_time))
 
     return ofdm_tx_signal
@@ -289,7 +286,7 @@ def ofdm_rx(y, nfft, nsc, cp_length):
     for i in range(0, num_ofdm_symbols):
         ofdm_symbol = y[i * nfft + (i + 1) * cp_length:(i + 1) * (nfft + cp_length)]
         symbols_freq = fft(ofdm_symbol)
-        x_hat[:, i] = concatenate((symbols_freq[-nsc / 2:], symbols_freq[1:(nsc / 2) + 1]))
+        x_hat[:, i] = concatenate((symbols_freq[-(nsc // 2):], symbols_freq[1:(nsc // 2) + 1]))
 
     return x_hat
 
-- 
2.43.0


From c3f357b6fa5f6208b27520908f1641103539cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 23/43] fix: best_first_detector failed with more receive than
 transmit antennas

---
 commpy/modulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 05607bb..6836872 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -490,7 +490,7 @@ def best_first_detector(y, h, constellation, stack_size, noise_var, demode, llr_
             return _Node(children_symb_vectors[:, ordering], children_metric[ordering])
 
     # Extract information from arguments
-    nb_tx, nb_rx = h.shape
+    nb_rx, nb_tx = h.shape
     constellation = array(constellation)
     m = constellation.size
     modulation_order = int(log2(m))
-- 
2.43.0


From 46183a04c0705e134264f0ec9412ddb310056395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 24/43] fix: raised-cosine filters were wrong at singular times
 that rounding misses

A tap at t = Ts/(2 alpha) (rcos) or Ts/(4 alpha) (rrcos) whose float time differs from it by an ulp was
computed as a quotient of rounding errors.
---
 commpy/filters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/filters.py b/commpy/filters.py
index 8a5f64f..e6e7d9a 100644
--- a/commpy/filters.py
+++ b/commpy/filters.py
@@ -57,9 +57,9 @@ def rcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rc[x] = 1.0
-        elif alpha != 0 and t == Ts/(2*alpha):
+        elif abs(2*alpha*t/Ts - 1) < 1e-8:
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
-        elif alpha != 0 and t == -Ts/(2*alpha):
+        elif abs(2*alpha*t/Ts + 1) < 1e-8:
             h_rc[x] = (np.pi/4)*(np.sin(np.pi*t/Ts)/(np.pi*t/Ts))
         else:
             h_rc[x] = (np.sin(np.pi*t/Ts)/(np.pi*t/Ts))* \
@@ -105,10 +105,10 @@ def rrcosfilter(N, alpha, Ts, Fs):
         t = (x-N/2)*T_delta
         if t == 0.0:
             h_rrc[x] = 1.0 - alpha + (4*alpha/np.pi)
-        elif alpha != 0 and t == Ts/(4*alpha):
+        elif abs(4*alpha*t/Ts - 1) < 1e-8:
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
-        elif alpha != 0 and t == -Ts/(4*alpha):
+        elif abs(4*alpha*t/Ts + 1) < 1e-8:
             h_rrc[x] = (alpha/np.sqrt(2))*(((1+2/np.pi)* \
                     (np.sin(np.pi/(4*alpha)))) + ((1-2/np.pi)*(np.cos(np.pi/(4*alpha)))))
         else:
-- 
2.43.0


From deb6a140e73564de029391093d5b9b280c393cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 25/43] fix: specular components had the wrong phase sign on
 the transmit side

---
 commpy/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index d374755..8481f3f 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -449,7 +449,7 @@ class MIMOFlatChannel(_FlatChannel):
         H = zeros((self.nb_rx, self.nb_tx), dtype=complex)
         for n in range(self.nb_rx):
             for m in range(self.nb_tx):
-                H[n, m] = exp(1j * 2 * pi * (n * dr * cos(thetar) + m * dt * cos(thetat)))
+                H[n, m] = exp(1j * 2 * pi * (n * dr * cos(thetar) - m * dt * cos(thetat)))
         return H
 
     @property
-- 
2.43.0


From 24179a246c72656f8d4b0c1b805817b40c190cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 26/43] fix: correlated MIMO channels failed or generated NaN
 gains

sqrtm returns complex256 matrices, that einsum refuses to write in the gains, and has no answer or a wrong one
for singular correlation matrices such as those of the exponential model.
---
 commpy/channels.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 8481f3f..b50230b 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -22,11 +22,17 @@ from __future__ import division, print_function  # Python 2 compatibility
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
     pi, cos
 from numpy.random import randn, random, standard_normal
-from scipy.linalg import sqrtm
+from scipy.linalg import eigh
 
 __all__ = ['SISOFlatChannel', 'MIMOFlatChannel', 'bec', 'bsc', 'awgn']
 
 
+def _sqrt_psd(matrix):
+    """ Square root of an Hermitian positive semi-definite matrix, be it singular. """
+    eigenvalues, eigenvectors = eigh(matrix)
+    return (eigenvectors * sqrt(eigenvalues.clip(0))).dot(eigenvectors.conj().T)
+
+
 class _FlatChannel(object):
 
     def __init__(self):
@@ -374,7 +380,7 @@ class MIMOFlatChannel(_FlatChannel):
             self.channel_gains = standard_normal(dims)
 
         # Add correlation and mean
-        einsum('ij,ajk,lk->ail', sqrtm(self.fading_param[2]), self.channel_gains, sqrtm(self.fading_param[1]),
+        einsum('ij,ajk,lk->ail', _sqrt_psd(self.fading_param[2]), self.channel_gains, _sqrt_psd(self.fading_param[1]),
                out=self.channel_gains, optimize='greedy')
         self.channel_gains += self.fading_param[0]
 
-- 
2.43.0


From b8333d32daf3ef3eddd7314327f6a9c379a55529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 27/43] fix: fading parameters were refused for rounding
 errors, accepted when NaN

SISO channels compared the energy exactly (and accepted negative variances), MIMO channels accepted NaN.
---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index b50230b..f261828 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -233,7 +233,7 @@ class SISOFlatChannel(_FlatChannel):
 
     @fading_param.setter
     def fading_param(self, fading_param):
-        if fading_param[1] + absolute(fading_param[0]) ** 2 != 1:
+        if not absolute(absolute(fading_param[1]) + absolute(fading_param[0]) ** 2 - 1) <= 1e-3:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
@@ -467,7 +467,7 @@ class MIMOFlatChannel(_FlatChannel):
     def fading_param(self, fading_param):
         NLOS_gain = trace(kron(fading_param[1].T, fading_param[2]))
         LOS_gain = einsum('ij,ij->', absolute(fading_param[0]), absolute(fading_param[0]))
-        if absolute(NLOS_gain + LOS_gain - self.nb_tx * self.nb_rx) > 1e-3:
+        if not absolute(NLOS_gain + LOS_gain - self.nb_tx * self.nb_rx) <= 1e-3:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-- 
2.43.0


From 1708c792d4765c7439614d246b8f9b7fe6176aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 28/43] fix: exponential correlation presets accepted |t| or
 |r| < 1, and failed half-way for negative betas

A refused call now leaves the fading parameters as they were.
---
 commpy/channels.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index f261828..bae7281 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -526,10 +526,12 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betar < 0 or betat < 0:
+            raise ValueError("beta must be positif")
 
         # Construct the exponent matrix
         expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
@@ -608,10 +610,12 @@ class MIMOFlatChannel(_FlatChannel):
                     If betat or betar are negative.
         """
         # Check inputs
-        if abs(t) - 1 > 1e-4:
+        if abs(abs(t) - 1) > 1e-4:
             raise ValueError('abs(t) must be one.')
-        if abs(r) - 1 > 1e-4:
+        if abs(abs(r) - 1) > 1e-4:
             raise ValueError('abs(r) must be one.')
+        if betar < 0 or betat < 0:
+            raise ValueError("beta must be positif")
 
         # Scaling
         nb_antennas = mean.size
-- 
2.43.0


From 37d54693c93d4bb7d3a2c60a376b4426db2a6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 29/43] fix: channels took complex64 signals and parameters for
 real ones

Real channels propagated them without TypeError, awgn added real noise to them, and a complex64 mean or a
complex correlation with a real mean made a channel that fails.
---
 commpy/channels.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index bae7281..9457906 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -20,7 +20,7 @@ Channel Models (:mod:`commpy.channels`)
 from __future__ import division, print_function  # Python 2 compatibility
 
 from numpy import abs, sqrt, sum, zeros, identity, hstack, einsum, trace, kron, absolute, fromiter, array, exp, \
-    pi, cos
+    pi, cos, iscomplexobj
 from numpy.random import randn, random, standard_normal
 from scipy.linalg import eigh
 
@@ -208,7 +208,7 @@ class SISOFlatChannel(_FlatChannel):
                         If the noise standard deviation as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         nb_symb = len(msg)
 
@@ -237,7 +237,7 @@ class SISOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0], complex)
+        self._isComplex = iscomplexobj(fading_param[0])
 
     @property
     def k_factor(self):
@@ -287,7 +287,7 @@ class MIMOFlatChannel(_FlatChannel):
 
     isComplex       : Boolean, Read-only
                         True if the channel is complex, False if not.
-                        The value is set together with fading_param based on the type of fading_param[0].
+                        The value is set together with fading_param based on the type of its elements.
 
     k_factor        : positive float, Read-only
                         Fading k-factor, the power ratio between LOS and NLOS.
@@ -357,7 +357,7 @@ class MIMOFlatChannel(_FlatChannel):
                         If the noise standard deviation noise_std as not been set yet.
         """
 
-        if isinstance(msg[0], complex) and not self.isComplex:
+        if iscomplexobj(msg) and not self.isComplex:
             raise TypeError('Trying to propagate a complex message in a real channel.')
         (nb_vect, mod) = divmod(len(msg), self.nb_tx)
 
@@ -471,7 +471,7 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-        self._isComplex = isinstance(fading_param[0][0, 0], complex)
+        self._isComplex = any(iscomplexobj(param) for param in fading_param)
 
     @property
     def k_factor(self):
@@ -708,7 +708,7 @@ def awgn(input_signal, snr_dB, rate=1.0):
     snr_linear = 10 ** (snr_dB / 10.0)
     noise_variance = avg_energy / (2 * rate * snr_linear)
 
-    if isinstance(input_signal[0], complex):
+    if iscomplexobj(input_signal):
         noise = (sqrt(noise_variance) * randn(len(input_signal))) + (sqrt(noise_variance) * randn(len(input_signal))*1j)
     else:
         noise = sqrt(2 * noise_variance) * randn(len(input_signal))
-- 
2.43.0


From a4467c1138323fc626fde94f018c610c6530a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 30/43] fix: BEC and BSC with probability 0 acted when the
 random number was 0

---
 commpy/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 9457906..a7e846d 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -655,7 +655,7 @@ def bec(input_bits, p_e):
         Output bits from the channel.
     """
     output_bits = input_bits.copy()
-    output_bits[random(len(output_bits)) <= p_e] = -1
+    output_bits[random(len(output_bits)) < p_e] = -1
     return output_bits
 
 
@@ -677,7 +677,7 @@ def bsc(input_bits, p_t):
         Output bits from the channel.
     """
     output_bits = input_bits.copy()
-    flip_locs = (random(len(output_bits)) <= p_t)
+    flip_locs = (random(len(output_bits)) < p_t)
     output_bits[flip_locs] = 1 ^ output_bits[flip_locs]
     return output_bits
 
-- 
2.43.0


From 73df424c2bb3f2eb5be91e640f96f80fb84ec80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 31/43] fix: kbest dropped the imaginary part of complex64
 constellations

and failed on real received vectors with complex constellations.
---
 commpy/modulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commpy/modulation.py b/commpy/modulation.py
index 6836872..1598b26 100644
--- a/commpy/modulation.py
+++ b/commpy/modulation.py
@@ -25,7 +25,8 @@ from bisect import insort
 import matplotlib.pyplot as plt
 from numpy import arange, array, zeros, pi, sqrt, log2, argmin, \
     hstack, repeat, tile, dot, shape, concatenate, exp, \
-    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter
+    logaddexp, vectorize, empty, eye, kron, inf, full, abs, newaxis, minimum, clip, fromiter, \
+    iscomplexobj
 from numpy.fft import fft, ifft
 from numpy.linalg import qr, norm
 from sympy.combinatorics.graycode import GrayCode
@@ -372,12 +373,12 @@ def kbest(y, h, constellation, K, noise_var=0, output_type='hard', demode=None):
     m = len(constellation)
     nb_can = 1
 
-    if isinstance(constellation[0], complex):
+    if iscomplexobj(constellation):
         const_type = complex
     else:
         const_type = float
     X = empty((nb_rx, K * m), dtype=const_type)  # Set of current candidates
-    d = tile(yt[:, None], (1, K * m))  # Corresponding distance vector
+    d = tile(yt[:, None] * const_type(1), (1, K * m))  # Corresponding distance vector
     d_tot = zeros(K * m, dtype=float)  # Corresponding total distance
     hyp = empty(K * m, dtype=const_type)  # Hypothesis vector
 
-- 
2.43.0


From 40bff780caccc3e8c01e695967de10240181fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 32/43] fix: MIMO links read one bit too many from the receiver
 for some code rates

The length of the received message was rounded up from a floating-point quotient (e.g. 21 / 0.7 > 30).
---
 commpy/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 356f32d..e2364a0 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -233,7 +233,7 @@ class LinkModel:
                 # Deals with MIMO channel
                 if isinstance(self.channel, MIMOFlatChannel):
                     nb_symb_vector = len(channel_output)
-                    received_msg = np.empty(int(math.ceil(len(msg) / float(self.rate))))
+                    received_msg = np.empty(int(math.ceil(len(msg) / self.rate)))
                     for i in range(nb_symb_vector):
                         received_msg[receive_size * i:receive_size * (i + 1)] = \
                             self.receive(channel_output[i], self.channel.channel_gains[i],
@@ -319,7 +319,7 @@ class LinkModel:
                 # Deals with MIMO channel
                 if isinstance(self.channel, MIMOFlatChannel):
                     nb_symb_vector = len(channel_output)
-                    received_msg = np.empty(int(math.ceil(len(msg) / float(self.rate))))
+                    received_msg = np.empty(int(math.ceil(len(msg) / self.rate)))
                     for i in range(nb_symb_vector):
                         received_msg[receive_size * i:receive_size * (i + 1)] = \
                             self.receive(channel_output[i], self.channel.channel_gains[i],
-- 
2.43.0


From 5e84fcbe7a736798f2901497a5073f2f6242b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 33/43] fix: full link metrics with several chunks per
 transmission were wrong

The BER was not divided by the number of chunks per transmission, and CEs counted the transmissions with errors
instead of the chunks with errors.
---
 commpy/links.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index e2364a0..5adac2e 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -257,9 +257,9 @@ class LinkModel:
 
                 chunk_count[id_tx] += number_chunks_per_send
                 total_tx_send += 1
-            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk)
+            BERs[id_SNR] = bit_err.sum() / (total_tx_send * send_chunk * number_chunks_per_send)
             BEs[id_SNR] = bit_err
-            CEs[id_SNR] = np.where(bit_err > 0, 1, 0)
+            CEs[id_SNR] = chunk_loss
             NCs[id_SNR] = chunk_count
             if BEs[id_SNR].sum() < err_min:
                 break
-- 
2.43.0


From 9b9bed9dca31854b9fbe6002048c6a4722e7efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 34/43] fix: links refused NumPy floats as code rate

---
 commpy/links.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index 5adac2e..a808194 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -142,7 +142,7 @@ class LinkModel:
         self.num_bits_symbol = num_bits_symbol
         self.constellation = constellation
         self.Es = Es
-        if type(rate) is float:
+        if isinstance(rate, float):
             rate = Fraction(rate).limit_denominator(100)
         self.rate = rate
 
@@ -206,7 +206,7 @@ class LinkModel:
         # Set chunk size and round it to be a multiple of num_bits_symbol* nb_tx to avoid padding taking in to account the coding rate
         if send_chunk is None:
             send_chunk = err_min
-        if type(code_rate) is float:
+        if isinstance(code_rate, float):
             code_rate = Fraction(code_rate).limit_denominator(100)
         self.rate = code_rate
         divider = (Fraction(1, self.num_bits_symbol * self.channel.nb_tx) * 1 / code_rate).denominator
@@ -296,7 +296,7 @@ class LinkModel:
         # Set chunk size and round it to be a multiple of num_bits_symbol*nb_tx to avoid padding
         if send_chunk is None:
             send_chunk = err_min
-        if type(code_rate) is float:
+        if isinstance(code_rate, float):
             code_rate = Fraction(code_rate).limit_denominator(100)
         self.rate = code_rate
         divider = (Fraction(1, self.num_bits_symbol * self.channel.nb_tx) * 1 / code_rate).denominator
-- 
2.43.0


From 7db9ab714726856b1a3be25d824731debb9741b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 35/43] fix: links called decoders that are bound methods with
 the wrong arguments

---
 commpy/links.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/commpy/links.py b/commpy/links.py
index a808194..2ad4550 100644
--- a/commpy/links.py
+++ b/commpy/links.py
@@ -17,7 +17,7 @@ from __future__ import division  # Python 2 compatibility
 
 import math
 from fractions import Fraction
-from inspect import getfullargspec
+from inspect import signature
 
 import numpy as np
 
@@ -64,6 +64,11 @@ def link_performance(link_model, SNRs, send_max, err_min, send_chunk=None, code_
     return link_model.link_performance(SNRs, send_max, err_min, send_chunk, code_rate)
 
 
+def _nb_positional_args(fct):
+    """ Number of positional arguments a callable takes (without self if it is a bound method). """
+    return len([p for p in signature(fct).parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
+
+
 class LinkModel:
     """
     Construct a link model.
@@ -213,7 +218,7 @@ class LinkModel:
         send_chunk = max(divider, send_chunk // divider * divider)
 
         receive_size = self.channel.nb_tx * self.num_bits_symbol
-        full_args_decoder = len(getfullargspec(self.decoder).args) > 1
+        full_args_decoder = _nb_positional_args(self.decoder) > 1
 
         # Computations
         for id_SNR in range(len(SNRs)):
@@ -303,7 +308,7 @@ class LinkModel:
         send_chunk = max(divider, send_chunk // divider * divider)
 
         receive_size = self.channel.nb_tx * self.num_bits_symbol
-        full_args_decoder = len(getfullargspec(self.decoder).args) > 1
+        full_args_decoder = _nb_positional_args(self.decoder) > 1
 
         # Computations
         for id_SNR in range(len(SNRs)):
-- 
2.43.0


From 2f5e506e20d13d02c4c8d916a8eb57e3599c14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:27 +0000
Subject: [PATCH 36/43] fix: the WiFi generator polynomials 133 and 171 were
 read as decimal numbers

The standard (and its reference in the comment) gives them in octal, leftmost bit for the current input.
---
 commpy/wifi80211.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commpy/wifi80211.py b/commpy/wifi80211.py
index 58ee435..54138df 100644
--- a/commpy/wifi80211.py
+++ b/commpy/wifi80211.py
@@ -46,7 +46,7 @@ class Wifi80211:
     # "The encoder uses a 6-stage shift register."
     # (https://pdfs.semanticscholar.org/c63b/71e43dc23b17ca57267f3b769224c64d5e33.pdf p.19)
     memory = np.array(6, ndmin=1)
-    generator_matrix = np.array((133, 171), ndmin=2)  # from 802.11 standard, page 2295
+    generator_matrix = np.array((0o133, 0o171), ndmin=2)  # from 802.11 standard, page 2295
 
     def get_modem(self) -> mod.Modem:
         """
@@ -105,7 +105,8 @@ class Wifi80211:
 
     @staticmethod
     def _get_trellis():
-        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix)
+        # The leftmost bit of the generators is the current input bit
+        return cc.Trellis(Wifi80211.memory, Wifi80211.generator_matrix, polynomial_format='Matlab')
 
     def __init__(self, mcs: int):
         """
-- 
2.43.0


From 41e71480e037bcfe6a8cfb18e24fa69e35688fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:30 +0000
Subject: [PATCH 37/43] fix: overwriting a result of decimal2bitarray changed
 later results

The function handed out the array kept in its cache.
---
 commpy/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index aa36121..d0f299f 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -55,7 +55,6 @@ def dec2bitarray(in_number, bit_width):
     return result
 
 
-@functools.lru_cache(maxsize=128, typed=False)
 def decimal2bitarray(number, bit_width):
     """
     Converts a positive integer to NumPy array of the specified size containing bits (0 and 1). This version is slightly
@@ -75,6 +74,11 @@ def decimal2bitarray(number, bit_width):
         Array containing the binary representation of all the input decimal(s).
 
     """
+    return _cached_decimal2bitarray(number, bit_width).copy()
+
+
+@functools.lru_cache(maxsize=128, typed=False)
+def _cached_decimal2bitarray(number, bit_width):
     result = np.zeros(bit_width, np.int8)
     i = 1
     pox = 0
-- 
2.43.0


From c049e9e7d67b25dbf0baea345163eb9dde2cd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 38/43] fix: SISO channels accepted (0, -1) as fading
 parameters and generated NaN gains

---
 commpy/channels.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index a7e846d..07ad937 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -218,9 +218,9 @@ class SISOFlatChannel(_FlatChannel):
         # Generate channel
         self.channel_gains = self.fading_param[0]
         if self.isComplex:
-            self.channel_gains += (standard_normal(nb_symb) + 1j * standard_normal(nb_symb)) * sqrt(0.5 * self.fading_param[1])
+            self.channel_gains += (standard_normal(nb_symb) + 1j * standard_normal(nb_symb)) * sqrt(0.5 * absolute(self.fading_param[1]))
         else:
-            self.channel_gains += standard_normal(nb_symb) * sqrt(self.fading_param[1])
+            self.channel_gains += standard_normal(nb_symb) * sqrt(absolute(self.fading_param[1]))
 
         # Generate outputs
         self.unnoisy_output = self.channel_gains * msg
@@ -233,7 +233,9 @@ class SISOFlatChannel(_FlatChannel):
 
     @fading_param.setter
     def fading_param(self, fading_param):
-        if not absolute(absolute(fading_param[1]) + absolute(fading_param[0]) ** 2 - 1) <= 1e-3:
+        variance = absolute(fading_param[1])
+        if not absolute(variance - fading_param[1]) <= 1e-3 or \
+                not absolute(variance + absolute(fading_param[0]) ** 2 - 1) <= 1e-3:
             raise ValueError("With this parameters, the channel would add or remove energy.")
 
         self._fading_param = fading_param
-- 
2.43.0


From 0d173ce8975e59eb9d0828e783fa44ce4b9c82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:04 +0000
Subject: [PATCH 39/43] fix: dec2bitarray failed on NumPy integers around 2**63
 and above

---
 commpy/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commpy/utilities.py b/commpy/utilities.py
index d0f299f..c4141c8 100644
--- a/commpy/utilities.py
+++ b/commpy/utilities.py
@@ -79,6 +79,7 @@ def decimal2bitarray(number, bit_width):
 
 @functools.lru_cache(maxsize=128, typed=False)
 def _cached_decimal2bitarray(number, bit_width):
+    number = int(number)  # NumPy integers cannot be compared or combined exactly with powers of two from 2**63
     result = np.zeros(bit_width, np.int8)
     i = 1
     pox = 0
-- 
2.43.0


From c91402c36dbbf064f91fda7897f9b609dfacd216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 40/43] fix: viterbi_decode returned wrong bits for strong
 values in small types (int8, float32...)

The branch metrics were computed in the type of the input: exp overflowed to infinity above 11 to 88, squares wrapped.
---
 commpy/channelcoding/convcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/convcode.py b/commpy/channelcoding/convcode.py
index a045752..a2dfe4c 100644
--- a/commpy/channelcoding/convcode.py
+++ b/commpy/channelcoding/convcode.py
@@ -588,7 +588,7 @@ def _where_c(inarray, rows, cols, search_value, index_array):
 
 @functools.lru_cache(maxsize=128, typed=False)
 def _compute_branch_metrics(decoding_type, _r_codeword: tuple, _i_codeword_array: tuple):
-    r_codeword = np.array(_r_codeword)
+    r_codeword = np.array(_r_codeword, dtype=float)  # small types overflow in the metrics
     i_codeword_array = np.array(_i_codeword_array)
     if decoding_type == 'hard':
         return hamming_dist(r_codeword.astype(int), i_codeword_array.astype(int))
-- 
2.43.0


From 573435c1d29d240c6cb5a903ff466f3c5145abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 41/43] fix: building the matrices failed for LDPC codes with
 more checks than variables

---
 commpy/channelcoding/ldpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commpy/channelcoding/ldpc.py b/commpy/channelcoding/ldpc.py
index 0fd0d36..28c4b0a 100644
--- a/commpy/channelcoding/ldpc.py
+++ b/commpy/channelcoding/ldpc.py
@@ -53,16 +53,18 @@ def _solve_gf2(systematic_part, parity_part):
 
     Parameters
     ----------
-    systematic_part : square sparse matrix of 0's and 1's
+    systematic_part : sparse matrix of 0's and 1's
 
     parity_part : sparse matrix of 0's and 1's with as many rows
 
     Returns
     -------
-    solution : CSR sparse matrix of 0's and 1's or None if systematic_part is singular.
+    solution : CSR sparse matrix of 0's and 1's or None if systematic_part is not square or singular.
     """
     left = systematic_part.toarray().astype(bool)
     right = parity_part.toarray().astype(bool)
+    if left.shape[0] != left.shape[1]:
+        return None
 
     for idx in range(len(left)):
         pivot = idx + left[idx:, idx].argmax()
-- 
2.43.0


From 41a18a4704ee590a1763024eaf7880598bc8828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 42/43] fix: the exponential correlation model failed for
 integer coefficients (t=1 or r=-1)

---
 commpy/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commpy/channels.py b/commpy/channels.py
index 07ad937..1df2b79 100644
--- a/commpy/channels.py
+++ b/commpy/channels.py
@@ -536,8 +536,8 @@ class MIMOFlatChannel(_FlatChannel):
             raise ValueError("beta must be positif")
 
         # Construct the exponent matrix
-        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
-        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), int, self.nb_rx ** 2)
+        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), float, self.nb_tx ** 2)
+        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), float, self.nb_rx ** 2)
 
         # Reshape
         expo_tx = expo_tx.reshape(self.nb_tx, self.nb_tx)
@@ -625,8 +625,8 @@ class MIMOFlatChannel(_FlatChannel):
         mean = mean * sqrt(k_factor * NLOS_gain / einsum('ij,ij->', absolute(mean), absolute(mean)))
 
         # Construct the exponent matrix
-        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), int, self.nb_tx ** 2)
-        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), int, self.nb_rx ** 2)
+        expo_tx = fromiter((j - i for i in range(self.nb_tx) for j in range(self.nb_tx)), float, self.nb_tx ** 2)
+        expo_rx = fromiter((j - i for i in range(self.nb_rx) for j in range(self.nb_rx)), float, self.nb_rx ** 2)
 
         # Reshape
         expo_tx = expo_tx.reshape(self.nb_tx, self.nb_tx)
-- 
2.43.0


From 2747c3aa4d016eec656fc116d2e11bf301440ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 43/43] fix: map_decode lost the hypothesis of a 1 under strong
 negative priors

1 - priors[0] is null below a prior of about -37 and inaccurate before: the state metrics then
dropped every path with a 1 there, and the LLRs and decisions of the other bits were wrong.
---
 commpy/channelcoding/turbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commpy/channelcoding/turbo.py b/commpy/channelcoding/turbo.py
index 9abf23c..b579e33 100644
--- a/commpy/channelcoding/turbo.py
+++ b/commpy/channelcoding/turbo.py
@@ -238,7 +238,7 @@ def map_decode(sys_symbols, non_sys_symbols, trellis, noise_variance, L_int, mod
 
     priors = empty([2, msg_length])
     priors[0,:] = 1/(1 + exp(L_int))
-    priors[1,:] = 1 - priors[0,:]
+    priors[1,:] = 1/(1 + exp(-L_int))  # 1 - priors[0,:] would vanish for strong priors
 
     # Backward recursion
     _backward_recursion(trellis, msg_length, noise_variance, sys_symbols,
-- 
2.43.0

