From c5dde5d45c4d1077e2ae9c37325cdac631d14cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 01/90] fix: store Transfer coefficients as trimmed real float
 copies

---
 harold/_classes.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2bd1796..4b8985f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1327,6 +1327,29 @@ class Transfer:
         # End of the num, den for loop
         # =============================
 
+        # Entries are kept as real-valued float copies with no leading zeros
+        def regularize_entry(x):
+            if np.iscomplexobj(x) and np.any(x.imag):
+                raise ValueError('Complex valued representations are not '
+                                 'supported.')
+            x = np.trim_zeros(np.array(x.real, dtype=float).ravel(), 'f')
+            return np.atleast_2d(x) if x.size > 0 else np.array([[0.]])
+
+        for ind, x in enumerate(returned_numden_list):
+            if None_flags[ind]:
+                continue
+            if MIMO_flags[ind]:
+                returned_numden_list[ind] = [[regularize_entry(z) for z in y]
+                                             for y in x]
+                zero_entry = any(not z.any() for y in
+                                 returned_numden_list[ind] for z in y)
+            else:
+                returned_numden_list[ind] = regularize_entry(x)
+                zero_entry = not returned_numden_list[ind].any()
+
+            if ind == 1 and zero_entry:
+                raise ValueError('Denominator polynomials cannot be zero.')
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From 8f41209d6e91ea4740bc385aef47f7cad4e84ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 02/90] fix: keep the sampling period when adding two dynamic
 State models

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4b8985f..6a9353d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2002,7 +2002,7 @@ class State:
                 addb = np.vstack((self._b, other.b))
                 addc = np.hstack((self._c, other.c))
                 addd = self._d + other.d
-                return State(adda, addb, addc, addd)
+                return State(adda, addb, addc, addd, dt=self._dt)
             # One of them is SISO and needs to be broadcasted
             else:
                 if self._isSISO:
-- 
2.43.0


From d449cfd73f35590636de46d7d3ab0084d542e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 03/90] fix: broadcast SISO Transfers correctly in Transfer
 addition

---
 harold/_classes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 6a9353d..a0d4492 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -525,14 +525,16 @@ class Transfer:
             # One of them is SISO and will be broadcasted here
             else:
                 if self._isSISO:
+                    p, m = other.shape
                     return other +\
-                        Transfer([[self._num]*other.m for n in range(other.p)],
-                                 [[self._den]*other.m for n in range(other.p)],
+                        Transfer([[self._num]*m for n in range(p)],
+                                 [[self._den]*m for n in range(p)],
                                  self._dt)
                 else:
+                    p, m = self._shape
                     return self +\
-                        Transfer([[other.num]*other.m for n in range(other.p)],
-                                 [[other.den]*other.m for n in range(other.p)],
+                        Transfer([[other.num]*m for n in range(p)],
+                                 [[other.den]*m for n in range(p)],
                                  self._dt)
 
         # Regularize arrays and scalars and consistency checks
-- 
2.43.0


From 1bd0dc0f4c7cb91d97e83f9c05fb3fb696e9979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 04/90] fix: refuse adding MIMO Transfers of different shapes

---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index a0d4492..21ef341 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -478,6 +478,10 @@ class Transfer:
 
             # Both SISO or both MIMO
             if sisoflag in [0, 2]:
+                if self._shape != other.shape:
+                    raise ValueError('Shapes are not compatible for '
+                                     'addition. Model shapes are {0} and'
+                                     ' {1}'.format(self._shape, other.shape))
 
                 # Create empty num and den holders.
                 newnum = [[None]*self._m for n in range(self._p)]
-- 
2.43.0


From 777d0cc66cf264f929927e315b9960fb830ab142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 05/90] fix: allow broadcasting when adding static Transfers

---
 harold/_classes.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 21ef341..9abb962 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -462,9 +462,7 @@ class Transfer:
             # If both are static gains
             if gainflag == 2:
                 try:
-                    s = self.shape
-                    num = (self.to_array() +
-                           other.to_array()).reshape(*s, 1).tolist()
+                    num = (self.to_array() + other.to_array()).tolist()
                     return Transfer(num, dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From e1d48f3e37cf4b9d8ca53daa4fff86ec34086afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:48 +0000
Subject: [PATCH 06/90] fix: treat row and column arrays as gain matrices in
 Transfer sums

---
 harold/_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9abb962..c762f4b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -576,7 +576,7 @@ class Transfer:
                                      'shape is {0} but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
 
-                return Transfer(mat, dt=self._dt)
+                return Transfer(mat.tolist(), dt=self._dt)
 
             elif self._isSISO:
                 # 3
@@ -590,7 +590,8 @@ class Transfer:
             else:
                 # 5
                 if isinstance(s, float):
-                    return self + Transfer(np.ones(self.shape)*s, dt=self._dt)
+                    return self + Transfer((np.ones(self.shape)*s).tolist(),
+                                           dt=self._dt)
                 # 6
                 if self.shape != other.shape:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From 875ee470316e931ec21ef259be80ec3c5bd5149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:48 +0000
Subject: [PATCH 07/90] fix: infinite recursion when adding a 1x1 array to a
 SISO State

---
 harold/_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index c762f4b..4e641cb 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2107,6 +2107,9 @@ class State:
                     return State(self._a, self._b, self._c, self._d + s,
                                  dt=self._dt)
                 # 4
+                elif s.shape == (1, 1):
+                    return State(self._a, self._b, self._c, self._d + s,
+                                 dt=self._dt)
                 else:
                     # Broadcast and send to #6
                     p, m = s.shape
-- 
2.43.0


From c06bcadfb985d0b7d2df0b00692c091724c9793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:48 +0000
Subject: [PATCH 08/90] fix: static State plus dynamic Transfer is a State

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4e641cb..ad2eeea 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2041,7 +2041,7 @@ class State:
             # If one of them is a static gain
             elif gainflag == 1:
                 if self._isgain:
-                    return self.to_array() + other
+                    return self + transfer_to_state(other)
                 else:
                     return self + other.to_array()
             # No static gains, carry on
-- 
2.43.0


From f59db55fed18eeec613a1153cb820c0f876ee17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:45 +0000
Subject: [PATCH 09/90] fix: multiply Transfer by State in the order given

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index ad2eeea..d64702c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -699,7 +699,7 @@ class Transfer:
             if not self._dt == other._dt:
                 raise ValueError('The sampling periods don\'t match '
                                  'so I cannot multiply these systems. ')
-            return other*transfer_to_state(self)
+            return transfer_to_state(self)*other
 
         elif isinstance(other, Transfer):
             if not self._dt == other._dt:
-- 
2.43.0


From 4f5d17df9dd65aec4c7ed288c106521306c54fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:45 +0000
Subject: [PATCH 10/90] fix: Transfer @ State multiplied with the class instead
 of the model

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d64702c..e4f8dcd 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -902,7 +902,7 @@ class Transfer:
                                  'so I cannot multiply these systems.')
 
             if isinstance(other, State):
-                return transfer_to_state(self) @ State
+                return transfer_to_state(self) @ other
 
             # 2.
             if other._isSISO:
-- 
2.43.0


From eda68dbba7c920b7d6b44294315d349600da32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:45 +0000
Subject: [PATCH 11/90] fix: keep the sampling period in array @ Transfer

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index e4f8dcd..50517c4 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -961,7 +961,7 @@ class Transfer:
             else:
                 arr = other.real
 
-            return Transfer(arr.tolist(), self._dt) @ self
+            return Transfer(arr.tolist(), dt=self._dt) @ self
 
         elif isinstance(other, (int, float)):
             return self * other
-- 
2.43.0


From f9be4bf72db0dfddad8c2f1cbf618a20b5db62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 12/90] fix: respect the denominator of static SISO Transfers
 in products

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 50517c4..eb4cb49 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -710,7 +710,7 @@ class Transfer:
             # For gain, convert to ndarray and let previous case handle it
             if self._isgain:
                 if self._isSISO:
-                    return other * float(self._num)
+                    return other * self.to_array().item()
                 else:
                     # recast as a numpy array and multiply
                     # if denominator has non unity entries
-- 
2.43.0


From 2c94ef2b3216bc89a9c595b94c8bcd2f9a64ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 13/90] fix: State @ Transfer with one static gain returns a
 State

---
 harold/_classes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index eb4cb49..bca775b 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2257,10 +2257,7 @@ class State:
 
             # If one of them is a static gain
             elif gainflag == 1:
-                if self._isgain:
-                    return self.to_array() @ other
-                else:
-                    return self @ other.to_array()
+                return self @ transfer_to_state(other)
 
             # No static gains, carry on
             else:
-- 
2.43.0


From 387f83562e45fe5f255857ab93b18f3eef513962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 14/90] fix: static State times scalar used the method object

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index bca775b..f6cca7c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2328,7 +2328,7 @@ class State:
                     mat = self.to_array() @ s
                 except ValueError:
                     # 1
-                    mat = self.to_array * s
+                    mat = self.to_array() * s
 
                 return State(mat, dt=self._dt)
 
-- 
2.43.0


From 627451b922f2b21a89e2c011b32a106c96f52299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 15/90] fix: check the shape of 1D arrays in State products as
 rows

---
 harold/_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f6cca7c..58b2e45 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2306,7 +2306,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[1] != other.shape[0] and not self._isSISO:
+                if not (isinstance(s, float) or self._isSISO or
+                        self._shape[1] == s.shape[0]):
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. State shape is {0}'
                                      ' but the array shape is {1}.'
@@ -2396,7 +2397,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[0] != other.shape[1] and not self._isSISO:
+                if not (isinstance(s, float) or self._isSISO or
+                        self._shape[0] == s.shape[1]):
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. Model shape is {0} but'
                                      ' the array shape is {1}.'
-- 
2.43.0


From 848cc2d26c68904f247e4542a1c6b72b3f9fc9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 16/90] fix: MIMO Transfer @ array for 1D arrays and row/column
 shaped gains

---
 harold/_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 58b2e45..a8616d9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -874,7 +874,8 @@ class Transfer:
 
             # If self is gain, this is just matrix multiplication
             if self._isgain:
-                return Transfer(self.to_array() @ arr, dt=self._dt)
+                return Transfer((self.to_array() @ arr).tolist(),
+                                dt=self._dt)
 
             tp, tm = self._shape[0], arr.shape[1]
 
@@ -885,7 +886,7 @@ class Transfer:
                 for c in range(tm):
                     t_G = Transfer(0, 1, dt=self._dt)
                     for ind in range(self._m):
-                        t_G += self[r, ind] * other[ind, [c]]
+                        t_G += self[r, ind] * arr[ind, c]
                     newnum[r][c] = t_G.num
                     newden[r][c] = t_G.den
 
-- 
2.43.0


From b1449817f3f8191a04d93f9d228ffd6a8aa5f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:46 +0000
Subject: [PATCH 17/90] fix: invert MIMO Transfers whose entries cancel to a
 static gain

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index a8616d9..0ce2e22 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -826,7 +826,7 @@ class Transfer:
             # A-BD^{-1}C | BD^{-1}
             # -----------|--------
             # -D^{-1}C   | D^{-1}
-            if self._isgain:
+            if a.size == 0:
                 ai, bi, ci = a, b, c
             else:
                 ai = a - b @ solve(d, c)
-- 
2.43.0


From 28b21a9d7f7f236c5dcaf83dab6505df4cd50f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:27 +0000
Subject: [PATCH 18/90] fix: static SISO State scales static MIMO models in
 products

---
 harold/_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 0ce2e22..a89388a 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2169,6 +2169,8 @@ class State:
 
             # If both are static gains
             if gainflag == 2:
+                if self._isSISO or other._isSISO:
+                    return State(self.to_array()*other.to_array(), dt=self._dt)
                 try:
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
@@ -2248,6 +2250,8 @@ class State:
 
             # If both are static gains
             if gainflag == 2:
+                if self._isSISO or other._isSISO:
+                    return State(self.to_array()*other.to_array(), dt=self._dt)
                 try:
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
-- 
2.43.0


From b1ad493e9c32b89f21375dadff12bac9b611dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:39 +0000
Subject: [PATCH 19/90] fix: ignore infinite zeros when converting State
 channels to Transfer

---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index a89388a..8c0b0c9 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2884,6 +2884,8 @@ def state_to_transfer(state_or_abcd, output='system'):
             # with it
 
             zz = transmission_zeros(A, b, c, np.array([[0]]))
+            # Channels with no transfer might report zeros at infinity
+            zz = zz[np.isfinite(zz)]
 
             # For finding k of a G(s) we compute
             #          pole polynomial evaluated at some s0
-- 
2.43.0


From 9f4d7e28fcf252602dfef1e40c6e54e3b4a790b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:26 +0000
Subject: [PATCH 20/90] fix: leading zeros and rounding noise in haroldlcm
 arguments

---
 harold/_polynomial_ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index b96a5dc..8743a8c 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -78,6 +78,12 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     if not all([x.size > 0 for x in args]):
         raise ValueError('Empty arrays are not allowed.')
 
+    # Rounding noise among the coefficients ruins the balancing below
+    args = [np.where(abs(a) > np.spacing(1000*abs(a).max()), a, 0.)
+            for a in args]
+    # Leading zeros do not count, all zeros is a constant
+    args = [np.trim_zeros(a, 'f') if np.any(a) else a[:1] for a in args]
+
     # All scalars
     if all([x.size == 1 for x in args]):
         if compute_multipliers:
-- 
2.43.0


From b4111c0c1122b0e5892e4ecd30a34e3373f8e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:44 +0000
Subject: [PATCH 21/90] fix: state_to_transfer returns Transfer arguments
 unchanged

---
 harold/_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8c0b0c9..bae93a5 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2836,6 +2836,11 @@ def state_to_transfer(state_or_abcd, output='system'):
                          '"{0}"'.format(output))
 
     output = output.lower()[0]
+
+    if isinstance(state_or_abcd, Transfer):
+        return (state_or_abcd.polynomials if output == 'p'
+                else state_or_abcd)
+
     # If a discrete time system is given this will be modified to the
     # SamplingPeriod later.
     dt = None
-- 
2.43.0


From 8bf0f0fb917a45095d5a4f5d54bb0868592c6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:44 +0000
Subject: [PATCH 22/90] fix: convert static row and column State models entry
 by entry

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index bae93a5..77758b5 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2866,7 +2866,7 @@ def state_to_transfer(state_or_abcd, output='system'):
     if it_is_gain:
         if output == 'p':
             return D, np.ones_like(D)
-        return Transfer(D, dt=dt)
+        return Transfer(D.tolist(), np.ones_like(D).tolist(), dt=dt)
 
     n = A.shape[0]
 
-- 
2.43.0


From 00b327291f6289158e022e125bdc491b5094095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:44 +0000
Subject: [PATCH 23/90] fix: repeated channels when indexing a SISO Transfer

---
 harold/_classes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 77758b5..e27c1c3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -984,7 +984,11 @@ class Transfer:
 
         # if a SISO is sliced only [0,0] will pass, then return self
         if self._isSISO:
-            return self
+            if np.size(rc) == 1 and np.size(cb) == 1:
+                return self
+            return Transfer([[self.num]*np.size(cb)]*np.size(rc),
+                            [[self.den]*np.size(cb)]*np.size(rc),
+                            dt=self._dt)
 
         # Is the result goint to be SISO ?
         if isinstance(rc, int) and isinstance(cb, int):
-- 
2.43.0


From b214801e1d8d0d2067b34e8adaebb00137217ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:44 +0000
Subject: [PATCH 24/90] fix: feedback of static models with a zero gain or
 row/column shape

---
 harold/_bd_algebra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 2ad4499..8563888 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -88,10 +88,10 @@ def feedback(G, H, negative=True):
 
     # if both are static
     if g._isgain and h._isgain:
-        if np.any(d) and np.any(n):
-            mat = d + sign * (d @ solve(delta, n @ d))
+        mat = d + sign * (d @ solve(delta, n @ d))
 
-        return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
+        return (Transfer(mat.tolist(), np.ones_like(mat).tolist(), dt=dt)
+                if conv_tf else State(mat, dt=dt))
     # if both are dynamic
     elif (not g._isgain) and (not h._isgain):
         acl = np.block([[a, np.zeros([n1, n2]), b],
-- 
2.43.0


From 5d0229072469fa919cdb1d7c368721b52a8ff273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:59 +0000
Subject: [PATCH 25/90] fix: observer staircase form swapped B and C when C has
 full column rank

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6890e09..2e281ce 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -96,7 +96,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         if invert:
             A0, B0, C0 = fliplr(flipud(A0)), flipud(B0), fliplr(C0)
             T = flipud(T)
-        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, B0.T, C0.T, T.T)
+        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
     tol_from_A = n*norm(A, 1)*np.spacing(1.)
-- 
2.43.0


From 7c930be2762a872ee1ecb6e2b00cc6de41e8a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:59 +0000
Subject: [PATCH 26/90] fix: minimal realization when no states are left and
 observability test

---
 harold/_system_funcs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 2e281ce..d294dff 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -394,8 +394,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while kc <= tol:
                 Ac, Bc, Cc = (Ac[:-1, :-1], Bc[:-1, :], Cc[:, :-1])
                 if Ac.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
-                    break
+                    return Ac, Bc, Cc
                 else:
                     kc, *_ = cancellation_distance(Ac, Bc)
             # Return the resulting matrices
@@ -410,10 +409,9 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while ko <= tol:  # Until cancel dist gets big
                 Ao, Bo, Co = Ao[1:, 1:], Bo[1:, :], Co[:, 1:]
                 if Ao.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
-                    break
+                    return Ao, Bo, Co
                 else:
-                    ko, *_ = cancellation_distance(Ao, Bo)
+                    ko, *_ = cancellation_distance(Ao.T, Co.T)
 
             # Return the resulting matrices
             A, B, C = Ao, Bo, Co
-- 
2.43.0


From a02d270d378f37e95357b0e19fd1fbd5c50a2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:00 +0000
Subject: [PATCH 27/90] fix: keep sampling period and shape of static models in
 minimal_realization

---
 harold/_system_funcs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index d294dff..df56a56 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -335,7 +335,7 @@ def minimal_realization(G, tol=1e-6):
 
     if type(G).__name__ == 'State':
         if G._isgain:
-            return State(G.to_array())
+            return State(G.to_array(), dt=G.SamplingPeriod)
         else:
             A, B, C, D = G.matrices
             Am, Bm, Cm = _minimal_realization_state(A, B, C, tol=tol)
@@ -345,7 +345,9 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array())
+            gain = np.atleast_2d(G.to_array())
+            return Transfer(gain.tolist(), np.ones_like(gain).tolist(),
+                            dt=G.SamplingPeriod)
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
-- 
2.43.0


From 71d77a7d38a94b24294043ca5da7d4f7a058300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:23 +0000
Subject: [PATCH 28/90] fix: zero entries and near-real zeros in minimal
 realization of Transfers

---
 harold/_system_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index df56a56..1ca436a 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -458,6 +458,8 @@ def _minimal_realization_simplify(num, den, tol):
     '''
     # Early exit if numerator is a scalar
     if num.size == 1:
+        if num[0, 0] == 0.:
+            return np.array([[0.]]), np.array([[1.]])
         m = den[0, 0]
         return num/m, den/m
 
@@ -511,7 +513,7 @@ def _minimal_realization_simplify(num, den, tol):
                     plz = np.delete(plz, match_index)
                 else:
                     # It was a real/complex cancellation, make the zero real
-                    safe_z += np.real(z)
+                    safe_z += [np.real(z)]
 
             elif not bool_cz and bool_cp:
                 # Same with above but this time we convert the other pole
-- 
2.43.0


From cd46b610247da455dc8062342e09953d6a77aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:00 +0000
Subject: [PATCH 29/90] fix: rank decisions of staircase were too tight for
 rounding noise

---
 harold/_system_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 1ca436a..7f21e50 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -81,7 +81,8 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         return A, B, C, eye(A.shape[0])
 
     n = A.shape[0]
-    ub, sb, vb, m = haroldsvd(B, also_rank=True)
+    ub, sb, vb, m = haroldsvd(B, also_rank=True,
+                              rank_tol=100*n*norm(B, 1)*np.spacing(1.))
     sb[m:, m:] = 0.
 
     # After these, start the regular case
@@ -99,7 +100,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
-    tol_from_A = n*norm(A, 1)*np.spacing(1.)
+    tol_from_A = 100*n*norm(A, 1)*np.spacing(1.)
 
     for _ in range(A0.shape[0]):
         next_, size_ = next_ + size_, m
-- 
2.43.0


From 3fa5bdb1812bea75bdc6bb00a09b7ef715eed57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:20 +0000
Subject: [PATCH 30/90] fix: State.dcgain returned huge or NaN values instead
 of inf at integrators

---
 harold/_system_funcs.py | 64 +++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 7f21e50..3a1d0a5 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -5,7 +5,7 @@ from numpy.linalg import cond, eig, norm
 from numpy import array, flipud, fliplr, eye, zeros
 from numpy.random import rand
 from scipy.linalg import (solve, svdvals, qr, block_diag,
-                          hessenberg, matrix_balance, LinAlgError)
+                          hessenberg, matrix_balance)
 from ._aux_linalg import haroldsvd, matrix_slice, e_i
 from ._classes import State, Transfer, transfer_to_state
 from ._arg_utils import _check_for_state_or_transfer
@@ -544,42 +544,32 @@ def dcgain(self):
     if self._isgain:
         return self.d
 
-    # First try if A is not singular
-    try:
-
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            aa, bb, cc = _minimal_realization_state(self.a, self.b, self.c)
-            R = cc @ solve(np.eye(aa.shape[0]) - aa if self._dt else -aa, bb)
-            R[R > 1/np.spacing(1.)] = np.inf
-            return R + self.d
-
-    except LinAlgError:
-        # Maybe single channel subsystems would remove singularities
-        if self._isSISO:
-            return np.inf
-
-        R = np.empty_like(self.d)
-        for c in range(self._m):
-            for r in range(self._p):
-                aa, bb, cc = _minimal_realization_state(self.a,
-                                                        self.b[:, [c]],
-                                                        self.c[[r], :])
-                # try again
-                if self._dt:
-                    # -(zI - A) at z=1
-                    aa -= np.eye(aa.shape[0])
-                try:
-                    with warnings.catch_warnings():
-                        warnings.simplefilter("ignore")
-                        val = cc @ solve(-aa, bb)
-                        if abs(val) > 1/np.spacing(1.):
-                            val = np.inf
-                        R[r, c] = val
-                except LinAlgError:
-                    # OK fine
-                    R[r, c] = np.inf
-        return R + self.d
+    def gain_at_dc(b, c):
+        # None if there is a pole at the DC point (up to rounding errors)
+        aa, bb, cc = _minimal_realization_state(self.a, b, c)
+        if aa.size == 0:
+            return np.zeros((c.shape[0], b.shape[1]))
+        aa = np.eye(aa.shape[0]) - aa if self._dt else -aa
+        sv = svdvals(aa)
+        if sv[-1] <= 1e4 * np.spacing(max(1., norm(self.a))):
+            return None
+        return cc @ solve(aa, bb)
+
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore")
+        R = gain_at_dc(self.b, self.c)
+        if R is None:
+            # Maybe single channel subsystems would remove singularities
+            if self._isSISO:
+                return np.inf
+
+            R = np.empty_like(self.d)
+            for c in range(self._m):
+                for r in range(self._p):
+                    val = gain_at_dc(self.b[:, [c]], self.c[[r], :])
+                    R[r, c] = np.inf if val is None else val.item()
+
+    return R + self.d
 
 
 setattr(State, 'dcgain', dcgain)
-- 
2.43.0


From 08eb75b18dc24c2a933f8ce67bdc4859ff229536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 31/90] fix: haroldker returns rows of the wrong factor as the
 null space basis

---
 harold/_aux_linalg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 540bda2..d7d85f0 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -132,17 +132,13 @@ def haroldker(N, side='right'):
 
     m, n = A.shape
 
-    if A.size <= 1:
-        # don't bother
-        return np.array([[0]])
-
     V, r = haroldsvd(A, also_rank=True)[2:]
 
     if r == min(m, n) and m >= n:
         # If full rank and not fat, return trivial zero
         return np.zeros((A.shape[1], 1))
     else:
-        return V[:, r:]
+        return V[r:, :].conj().T
 
 
 def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
-- 
2.43.0


From 7868de49e8a07c6ab126c0332372aca4bd0c2332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 32/90] fix: matrix_slice ignores the height of the north-east
 corner

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index d7d85f0..35de83a 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -430,7 +430,7 @@ def matrix_slice(M, corner_shape, corner='nw'):
     if corner == 'nw':
         p, m = z, w
     elif corner == 'ne':
-        p, m = x, y - w
+        p, m = z, y - w
     elif corner == 'sw':
         p, m = x - z, w
     else:
-- 
2.43.0


From 835cbbf4bc9874db307f6e09a8fb5f3d9ba37c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 33/90] fix: haroldpolymul rejects lists and a zero first
 argument

---
 harold/_polynomial_ops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 8743a8c..1f0cac0 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -424,12 +424,13 @@ def haroldpolymul(*args, trim_zeros=True):
 
     """
 
+    trimmedargs = [np.array(x).flatten() for x in args]
     if trim_zeros:
-        trimmedargs = [np.trim_zeros(x.flatten(), 'f') for x in args]
-    else:
-        trimmedargs = args
+        trimmedargs = [np.trim_zeros(x, 'f') for x in trimmedargs]
 
     p = trimmedargs[0]
+    if p.size == 0:  # it was all zeros
+        return np.array([0.])
 
     for x in trimmedargs[1:]:
         if x.size == 0:  # it was all zeros
-- 
2.43.0


From af05f04177dede2deec90c5ce6bf7ef9d9317404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 34/90] fix: haroldpolydiv fails for divisors with leading
 zeros and accepts zero ones

---
 harold/_polynomial_ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 1f0cac0..3c8dd9f 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -474,6 +474,10 @@ def haroldpolydiv(dividend, divisor):
     (array([1., 1.]), array([], dtype=float64))
 
     """
+    divisor = np.trim_zeros(np.atleast_1d(divisor), 'f')
+    if divisor.size == 0:
+        raise ZeroDivisionError('The divisor is the zero polynomial.')
+
     h_factor, h_remainder = (np.trim_zeros(x, 'f') for x
                              in sig.deconvolve(dividend, divisor))
 
-- 
2.43.0


From b64ae839d049623bfba46aec5b23099694b27bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 35/90] fix: haroldgcd with a constant argument returns the
 other polynomial

---
 harold/_polynomial_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 3c8dd9f..c20abd1 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -234,7 +234,7 @@ def haroldgcd(*args):
         return np.array([1])
 
     if n > 0 and p == 0:
-        return arr_args.pop(max_degree_index)
+        return np.array([1])
 
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
-- 
2.43.0


From 8653c365410e53060b9bcb5d81b2fa51e506375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 36/90] fix: haroldgcd mishandles zero polynomials

---
 harold/_polynomial_ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index c20abd1..28f6238 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -206,13 +206,17 @@ def haroldgcd(*args):
                  I am still interested in better methods.
     """
     raw_arr_args = [np.atleast_1d(np.squeeze(x)) for x in args]
-    arr_args = [np.trim_zeros(x, 'f') for x in raw_arr_args if x.size > 0]
-    dimension_list = [x.ndim for x in arr_args]
+    dimension_list = [x.ndim for x in raw_arr_args]
 
     # do we have 2d elements?
     if max(dimension_list) > 1:
         raise ValueError('Input arrays must be 1D arrays, rows, or columns')
 
+    # Every polynomial divides zero
+    arr_args = [np.trim_zeros(x, 'f') for x in raw_arr_args if np.any(x)]
+    if not arr_args:
+        return np.array([0.])
+
     degree_list = np.array([x.size-1 for x in arr_args])
     max_degree = np.max(degree_list)
     max_degree_index = np.argmax(degree_list)
-- 
2.43.0


From 9670c49488e5db0bc9180552fac9718832f88a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 37/90] fix: Lyapunov solver truncates the solution for integer
 data

---
 harold/_solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index bcdf78e..f69b05e 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -203,7 +203,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Y, dtype=float)
 
     # =============================
     #  Main Loop
@@ -365,7 +365,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Y, dtype=float)
 
     # =============================
     #  Main Loop
@@ -528,7 +528,7 @@ def _solve_continuous_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Y, dtype=float)
 
     # =============================
     #  Main Loop
@@ -653,7 +653,7 @@ def _solve_discrete_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Y, dtype=float)
 
     # =============================
     #  Main Loop
-- 
2.43.0


From 5ab7f439114c590a1fe59d8115462d5ac2897ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 38/90] fix: discrete generalized Lyapunov solver overwrites
 its arguments

---
 harold/_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index f69b05e..38f2b69 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -349,7 +349,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     if A.shape[0] < 3:
         return mini_sylvester(A, E, Y)
 
-    As, Es, Q, Z = qz(A, E, overwrite_a=True, overwrite_b=True)
+    As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = As.shape[0]
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
-- 
2.43.0


From d5b6b4288cfb522d9ecdfcd66497140cc9010a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:11 +0000
Subject: [PATCH 39/90] fix: compressed controllability matrix uses the
 transposed right factor

---
 harold/_kalman_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index e2d86a8..f46ff8c 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -53,7 +53,7 @@ def controllability_matrix(G, compress=False):
 
     if compress:
         T, S, V, r = haroldsvd(Cc, also_rank=True)
-        return S.dot(V.T), T, r
+        return S.dot(V), T, r
 
     T, *_, r = haroldsvd(Cc, also_rank=True)
     return Cc, T, r
-- 
2.43.0


From 2165d73a7a5ccb13677c1eaa780c5fd39503879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:12 +0000
Subject: [PATCH 40/90] fix: observability matrix transformation does not
 compress the columns

---
 harold/_kalman_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f46ff8c..f04bb67 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -106,8 +106,8 @@ def observability_matrix(G, compress=False):
         T, S, V, r = haroldsvd(Co, also_rank=True)
         return T.dot(S), V.T, r
 
-    *_, T, r = haroldsvd(Co, also_rank=True)
-    return Co, T, r
+    *_, V, r = haroldsvd(Co, also_rank=True)
+    return Co, V.T, r
 
 
 def kalman_decomposition(G, compute_T=False, output='system',
-- 
2.43.0


From 578a2027a0f757c52c681278bb673ea96b68acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:12 +0000
Subject: [PATCH 41/90] fix: hessenberg_realization drops the feedthrough and
 fails for static gains

---
 harold/_system_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 3a1d0a5..f8ca618 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -182,11 +182,13 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
         in_is_sys = False
     else:
         _check_for_state_or_transfer(G)
+        if G._isgain:
+            return G
         in_is_sys = True
         if type(G).__name__ == 'Transfer':
-            a, b, c, _ = transfer_to_state(G, output='matrices')
+            a, b, c, d = transfer_to_state(G, output='matrices')
         else:
-            a, b, c = G.a, G.b, G.c
+            a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
@@ -209,7 +211,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
 
     if output == 'system':
         if in_is_sys:
-            Gh = State(ah, bh, ch, dt=G.SamplingPeriod)
+            Gh = State(ah, bh, ch, d, dt=G.SamplingPeriod)
         else:
             Gh = State(ah, bh, ch)
         if compute_T:
-- 
2.43.0


From 9913f2a08c991a6764426c765648610b5854657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:23 +0000
Subject: [PATCH 42/90] fix: hessenberg_realization loses the similarity to the
 given system

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index f8ca618..561aa41 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -196,7 +196,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     qq, bh = qr(b)
     ab, cb = qq.T @ a @ qq, c @ qq
     ah, qh = hessenberg(ab, calc_q=True)
-    ch = cb @ qh
+    bh, ch = qh.T @ bh, cb @ qh
 
     if compute_T:
         T = qq @ qh
@@ -204,7 +204,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     if invert:
         ah, bh, ch = fliplr(flipud(ah)), flipud(bh), fliplr(ch)
         if compute_T:
-            T = flipud(T)
+            T = fliplr(T)
 
     if form == 'o':
         ah, bh, ch = ah.T, ch.T, bh.T
-- 
2.43.0


From 5018f36e5a3f8ca53c3573d0a890853fe3297de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:23 +0000
Subject: [PATCH 43/90] fix: cancellation_distance lower bound can exceed the
 distance

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 561aa41..e54ebb4 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -291,7 +291,7 @@ def cancellation_distance(F, G):
     e_f = evals[f]
     upper1 = upp0[f]
     upper2 = svdvals(A - e_f*B)[-1]
-    lower0 = upper2/(K+1)
+    lower0 = min(svdvals(A - x*B)[-1] for x in evals)/(K+1)
     radius = upper2*K
 
     return upper2, upper1, lower0, e_f, radius
-- 
2.43.0


From 7669b1a36fdb9cee65d52077d68c2206c20c2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:12 +0000
Subject: [PATCH 44/90] fix: transmission_zeros reports spurious zeros for
 degenerate systems

---
 harold/_classes.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index e27c1c3..9a8e454 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3240,11 +3240,8 @@ def transmission_zeros(A, B, C, D):
 
         n, (p, m) = Ar.shape[0], Dr.shape
 
-        if not np.any(np.c_[Cr, Dr]) == 0 or p != m:
-            Arc, Crc, Brc, Drc = _tzeros_reduce(Ar.T, Cr.T, Br.T, Dr.T)
-            Arc, Crc, Brc, Drc = Arc.T, Crc.T, Brc.T, Drc.T
-        else:
-            Arc, Brc, Crc, Drc = (Ar, Br, Cr, Dr)
+        Arc, Crc, Brc, Drc = _tzeros_reduce(Ar.T, Cr.T, Br.T, Dr.T)
+        Arc, Crc, Brc, Drc = Arc.T, Crc.T, Brc.T, Drc.T
 
     if Arc.size == 0:
         return np.zeros((0, 1))
@@ -3270,7 +3267,8 @@ def _tzeros_reduce(A, B, C, D):
     Basic deflation loop until we get a full row rank feedthrough matrix.
     """
     m_eps = np.spacing(100 * np.sqrt((A.shape[0] + C.shape[0]) * (
-                       A.shape[1] + B.shape[1]))) * norm(A, 'fro')
+                       A.shape[1] + B.shape[1]))) * norm(
+                           np.block([[A, B], [C, D]]), 'fro')
 
     for x in range(A.shape[0]):  # At most!
         n, (p, m) = A.shape[0], D.shape
@@ -3291,6 +3289,7 @@ def _tzeros_reduce(A, B, C, D):
         q_of_c, *_, rho = haroldsvd(Ctilde.T, also_rank=1, rank_tol=m_eps)
         nu = n - rho
         if rho == 0:  # [C,D] happen to be compressed simultaneously
+            C, D = Cbar, r_of_d[:sigma, :] if sigma > 0 else D[:0, :]
             break
         elif nu == 0:  # [C, D] happen to form a invertible matrix
             A, B, C, D = np.array([]), np.array([]), np.array([]), np.array([])
@@ -3304,8 +3303,8 @@ def _tzeros_reduce(A, B, C, D):
             B, D = BD_slice[:nu, :], BD_slice[nu:, :]
         else:
             ABCD_slice = q_of_c.T @ np.c_[A @ q_of_c, B]
-            A, B, C, D = (ABCD_slice[:nu, :nu], ABCD_slice[:nu, -m:],
-                          ABCD_slice[nu:, :nu], ABCD_slice[nu:, -m:])
+            A, B, C, D = (ABCD_slice[:nu, :nu], ABCD_slice[:nu, n:],
+                          ABCD_slice[nu:, :nu], ABCD_slice[nu:, n:])
     return A, B, C, D
 
 
-- 
2.43.0


From f3f528866a188006750229276a7c731093b7ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 45/90] fix: add the 'trapezoidal' alias to the known
 discretization methods

---
 harold/_global_constants.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harold/_global_constants.py b/harold/_global_constants.py
index b1649e3..e28f8b9 100644
--- a/harold/_global_constants.py
+++ b/harold/_global_constants.py
@@ -23,6 +23,7 @@ THE SOFTWARE.
 """
 _KnownDiscretizationMethods = ('bilinear',
                                'tustin',
+                               'trapezoidal',
                                'zoh',
                                'foh',
                                'forward difference',
-- 
2.43.0


From 13febd49e78a492a2c7245354f51c9d2f0643175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 46/90] fix: discretize and undiscretize of static gains

---
 harold/_discrete_funcs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 33fe0ce..8b5fd32 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -109,7 +109,7 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
 
     if G._isgain:
         # Method doesn't matter
-        Gd = Transfer(G.to_array(), dt=dt) if isinstance(G, Transfer) else \
+        Gd = Transfer(*G.polynomials, dt=dt) if isinstance(G, Transfer) else \
                                                     State(G.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
@@ -268,13 +268,13 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
 
     if isinstance(G, Transfer):
         if G._isgain:
-            return Transfer(G.to_array)
+            return Transfer(*G.polynomials)
         T = transfer_to_state(G)
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
         if G._isgain:
-            return State(G.to_array)
+            return State(G.to_array())
         undiscretized_args = _undiscretize(G, dt, method, prewarp_at, q)
         return State(*undiscretized_args)
 
-- 
2.43.0


From a85611d0c7f786e38c6b06850c78e68541a23211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 47/90] fix: undiscretize with prewarping does not invert
 discretize

---
 harold/_discrete_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 8b5fd32..b63e503 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -361,7 +361,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
                                  ' allowed is {1} Hz.'.format(dt, 1/(2*dt)))
             prew_rps = 2 * np.pi * prewarp_at
             sq2tan = np.sqrt(2*np.tan(prew_rps * dt / 2)/prew_rps)
-            q = np.array([[-2/sq2tan**2, 1/sq2tan], [1/sq2tan, -1]])
+            q = np.array([[-2/sq2tan**2, 2/sq2tan], [2/sq2tan, -1]])
 
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
-- 
2.43.0


From 997ae8cab5214cf795101053c9c053b699b53740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 48/90] fix: undiscretize ignores the prewarp frequency stored
 in the model

---
 harold/_discrete_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index b63e503..edb6cc5 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -255,6 +255,8 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             method = 'tustin'
         else:
             method = G.DiscretizedWith
+            if prewarp_at == 0. and G.PrewarpFrequency is not None:
+                prewarp_at = G.PrewarpFrequency
 
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
-- 
2.43.0


From 75545b8a7d344077b1d47c745d86a5e00d8884b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 49/90] fix: undiscretize with the lft method applies the map
 instead of its inverse

---
 harold/_discrete_funcs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index edb6cc5..1509a93 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -398,6 +398,15 @@ def _undiscretize(T, dt, method, prewarp_at, q):
         if q is None:
             raise ValueError('"lft" method requires a 2x2 interconnection '
                              'matrix "q" between s and z indeterminates.')
+        q = np.asarray(q, dtype=float)
+        if q.shape != (2, 2):
+            raise ValueError('q must be exactly a 2x2 array')
+        # Solve 1/s = F_u(1/z, q) for 1/z
+        delta = q[0, 1]*q[1, 0] - q[0, 0]*q[1, 1]
+        if delta == 0.:
+            raise ValueError('The map defined by the matrix "q" does not have'
+                             ' a proper inverse.')
+        q = q / delta * np.array([[-1, 1], [1, -1]])
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
     return Ac, Bc, Cc, Dc
-- 
2.43.0


From 545a7ec0ceca5a7d617f1144cc2fe27222bc3755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 50/90] fix: undiscretize raises ValueError for unknown methods

---
 harold/_discrete_funcs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 1509a93..222b34d 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -258,6 +258,10 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             if prewarp_at == 0. and G.PrewarpFrequency is not None:
                 prewarp_at = G.PrewarpFrequency
 
+    if method not in KDM:
+        raise ValueError('I don\'t know the discretization method "{0}". But '
+                         'I know:\n {1}'.format(method, ',\n'.join(KDM)))
+
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
             raise ValueError('"lft" method requires also the '
-- 
2.43.0


From c28063d8b9d7017eb42bb494cfaa14fc64a1a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 51/90] fix: reject prewarp frequencies outside [0, Nyquist)

---
 harold/_classes.py        | 4 ++--
 harold/_discrete_funcs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9a8e454..177ed2d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -333,7 +333,7 @@ class Transfer:
             raise ValueError('If the discretization method is not tustin (or '
                              'its aliases) then this property is not set.')
         else:
-            if value > 1/(2*self._dt):
+            if not 0. <= value < 1/(2*self._dt):
                 raise ValueError('Prewarping Frequency is beyond '
                                  'the Nyquist rate.\nIt has to '
                                  'satisfy 0 < w < 1/(2*dt) and dt '
@@ -1928,7 +1928,7 @@ class State:
                              'Tustin then you don\'t need to set '
                              'this property.')
         else:
-            if value > 1/(2*self._dt):
+            if not 0. <= value < 1/(2*self._dt):
                 raise ValueError('Prewarping Frequency is beyond '
                                  'the Nyquist rate.\nIt has to '
                                  'satisfy 0 < w < 1/(2*dt) and dt '
diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 222b34d..532ea5a 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -185,7 +185,7 @@ def _discretize(T, dt, method, prewarp_at, q):
         if prewarp_at == 0.:
             q = np.array([[1, np.sqrt(dt)], [np.sqrt(dt), dt/2]])
         else:
-            if 1/(2*dt) < prewarp_at:
+            if not 0. < prewarp_at < 1/(2*dt):
                 raise ValueError('Prewarping frequency is beyond the Nyquist'
                                  ' rate. It has to satisfy 0 < w < 1/(2*Δt)'
                                  ' and Δt being the sampling period in '
@@ -359,7 +359,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
         if prewarp_at == 0.:
             q = np.array([[-2/dt, 2/np.sqrt(dt)], [2/np.sqrt(dt), -1]])
         else:
-            if 1/(2*dt) <= prewarp_at:
+            if not 0. < prewarp_at < 1/(2*dt):
                 raise ValueError('Prewarping frequency is beyond the Nyquist'
                                  ' rate. It has to satisfy 0 < w < 1/(2*Δt)'
                                  ' and Δt being the sampling period in '
-- 
2.43.0


From 57ea3f3ff6286ae028b94e253a0931f3e3cd4d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 52/90] fix: reject non-finite sampling periods

---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 177ed2d..f263210 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -259,7 +259,7 @@ class Transfer:
     def SamplingPeriod(self, value):
         if value is not None:
             value = float(value)
-            if value <= 0.:
+            if not 0. < value < np.inf:
                 raise ValueError('SamplingPeriod must be a real positive '
                                  'scalar. But looks like a \"{0}\" is '
                                  'given.'.format(type(value).__name__))
@@ -1885,7 +1885,7 @@ class State:
     def SamplingPeriod(self, value):
         if value is not None:
             value = float(value)
-            if value <= 0.:
+            if not 0. < value < np.inf:
                 raise ValueError('SamplingPeriod must be a real positive '
                                  'scalar. But looks like a \"{0}\" is '
                                  'given.'.format(type(value).__name__))
-- 
2.43.0


From 596f7573b0e9238250269ed6b4913bc8a32f41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 53/90] fix: discretization attributes of State follow the
 sampling set

---
 harold/_classes.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f263210..5affb1c 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1773,7 +1773,10 @@ class State:
         possible to manually set this property such that ``undiscretize``
         uses the provided method.
         """
-        return self._DiscretizedWith
+        if self.SamplingSet == 'R' or self._DiscretizedWith is None:
+            return None
+        else:
+            return self._DiscretizedWith
 
     @property
     def DiscretizationMatrix(self):
@@ -1821,7 +1824,10 @@ class State:
             :doi:`10.1080/00207170802247728>`
 
         """
-        return self._DiscretizationMatrix
+        if self.SamplingSet == 'R' or not self.DiscretizedWith == 'lft':
+            return None
+        else:
+            return self._DiscretizationMatrix
 
     @property
     def PrewarpFrequency(self):
@@ -1915,7 +1921,11 @@ class State:
     @DiscretizationMatrix.setter
     def DiscretizationMatrix(self, value):
         if self._DiscretizedWith == 'lft':
-            self._DiscretizationMatrix = np.array(value, dtype='float')
+            value = np.atleast_2d(np.array(value, dtype=float))
+            if value.shape != (2, 2):
+                raise ValueError('The interconnection array needs to be a'
+                                 ' 2x2 real-valued array.')
+            self._DiscretizationMatrix = value
         else:
             raise ValueError('If the discretization method is not '
                              '\"lft\" then you don\'t need to set '
-- 
2.43.0


From 8c2e7798a87d2fe6e3b575ac6524dbc65cbbf1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:14 +0000
Subject: [PATCH 54/90] fix: forget the discretization attributes when a model
 is made continuous

---
 harold/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5affb1c..8bc19ef 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -271,6 +271,9 @@ class Transfer:
             self._rz = 'R'
             self._dt = None
             self._isdiscrete = False
+            self._DiscretizedWith = None
+            self._DiscretizationMatrix = None
+            self._PrewarpFrequency = 0.
 
     @num.setter
     def num(self, value):
@@ -1903,6 +1906,9 @@ class State:
             self._rz = 'R'
             self._dt = None
             self._isdiscrete = False
+            self._DiscretizedWith = None
+            self._DiscretizationMatrix = None
+            self._PrewarpFrequency = 0.
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
-- 
2.43.0


From 026f1484a8b6c608974a67641dee5edca337a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:47 +0000
Subject: [PATCH 55/90] fix: discretize and undiscretize of transfer models
 without dynamics

---
 harold/_discrete_funcs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 532ea5a..be61be0 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -107,10 +107,11 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
     else:
         T = G
 
-    if G._isgain:
+    if T._isgain:
         # Method doesn't matter
-        Gd = Transfer(*G.polynomials, dt=dt) if isinstance(G, Transfer) else \
-                                                    State(G.to_array(), dt=dt)
+        Gd = State(T.to_array(), dt=dt)
+        if isinstance(G, Transfer):
+            Gd = state_to_transfer(Gd)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
@@ -273,9 +274,9 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
                 q = G.DiscretizationMatrix
 
     if isinstance(G, Transfer):
-        if G._isgain:
-            return Transfer(*G.polynomials)
         T = transfer_to_state(G)
+        if T._isgain:
+            return state_to_transfer(State(T.to_array()))
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
-- 
2.43.0


From 6e230174ef2cbcd1c8b3950e58d29fa15b161fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:47 +0000
Subject: [PATCH 56/90] fix: discretize requires a sampling period

---
 harold/_discrete_funcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index be61be0..f23bb2c 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -102,6 +102,9 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
         raise ValueError('The argument is already modeled as a '
                          'discrete-time system.')
 
+    if dt is None:
+        raise ValueError('A positive scalar sampling period is needed.')
+
     if isinstance(G, Transfer):
         T = transfer_to_state(G)
     else:
@@ -408,7 +411,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
             raise ValueError('q must be exactly a 2x2 array')
         # Solve 1/s = F_u(1/z, q) for 1/z
         delta = q[0, 1]*q[1, 0] - q[0, 0]*q[1, 1]
-        if delta == 0.:
+        if abs(delta) <= 4*np.spacing(abs(q[0, 1]*q[1, 0])):
             raise ValueError('The map defined by the matrix "q" does not have'
                              ' a proper inverse.')
         q = q / delta * np.array([[-1, 1], [1, -1]])
-- 
2.43.0


From 17067b6a9a9ec0c5fb4d699178de036d72c1b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:40 +0000
Subject: [PATCH 57/90] fix: haroldlcm multipliers can have spurious leading
 terms

---
 harold/_polynomial_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 28f6238..cb2a6d5 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -163,7 +163,9 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
 
         lcmpoly[abs(lcmpoly) < cleanup_threshold] = 0.
         mults[abs(mults) < cleanup_threshold] = 0.
-        mults = [np.trim_zeros(z, 'f') for z in mults]
+        # The degrees are known, anything above is numerical noise
+        mults = [np.trim_zeros(z[-max(n_lcm - x.size + 2, 1):], 'f')
+                 for x, z in zip(args, mults)]
         return lcmpoly, mults
     else:
         return lcmpoly
-- 
2.43.0


From c1eb6631c391109392132b528c5896942b8fdb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:01 +0000
Subject: [PATCH 58/90] fix: state_to_transfer loses the gain of channels with
 very large zeros

---
 harold/_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8bc19ef..c334f1d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2920,11 +2920,13 @@ def state_to_transfer(state_or_abcd, output='system'):
 
             # Additional factor of 2 are just some tolerances
 
+            s0 = max(np.abs(pp).max(), .5)*2
             if zz.size != 0:
-                s0 = max(np.abs([*pp, *zz]).max(), .5)*2
+                # Not too far away as some of the zeros can be huge
+                s0 = s0*np.linspace(1, 2, zz.size+2)
+                s0 = s0[np.abs(s0[:, None] - zz).min(axis=1).argmax()]
                 zero_prod = np.real(np.prod(s0*np.ones_like(zz) - zz))
             else:
-                s0 = max(np.abs(pp).max(), .5)*2
                 zero_prod = 1.0  # Not zero!
 
             CAB = c @ np.linalg.lstsq((s0*np.eye(n)-A), b, rcond=-1)[0]
-- 
2.43.0


From 36de978a4b723362542ce7c1d19c307dcaf19c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:55 +0000
Subject: [PATCH 59/90] fix: keep a model unchanged when an assigned attribute
 is refused

---
 harold/_classes.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index c334f1d..5aebbc3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -287,8 +287,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._num = user_num
-            self._recalc()
+            self._update(_num=user_num)
 
     @den.setter
     def den(self, value):
@@ -302,8 +301,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._den = user_den
-            self._recalc()
+            self._update(_den=user_den)
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
@@ -347,6 +345,19 @@ class Transfer:
             else:
                 self._PrewarpFrequency = value
 
+    def _update(self, **attributes):
+        """
+        Set the given attributes and recalculate. If the new data turns out
+        to be unusable, go back to the previous data.
+        """
+        previous = self.__dict__.copy()
+        self.__dict__.update(attributes)
+        try:
+            self._recalc()
+        except Exception:
+            self.__dict__.update(previous)
+            raise
+
     def _recalc(self):
         """
         Internal bookkeeping routine to readjust the class properties
@@ -1854,8 +1865,7 @@ class State:
             np.zeros_like(self._c),
             np.zeros_like(self._d)
             )[0]
-        self._a = value
-        self._recalc()
+        self._update(_a=value)
 
     @b.setter
     def b(self, value):
@@ -1865,8 +1875,7 @@ class State:
             np.zeros_like(self._c),
             np.zeros_like(self._d)
             )[1]
-        self._b = value
-        self._recalc()
+        self._update(_b=value)
 
     @c.setter
     def c(self, value):
@@ -1876,8 +1885,7 @@ class State:
             value,
             np.zeros_like(self._d)
             )[2]
-        self._c = value
-        self._recalc()
+        self._update(_c=value)
 
     @d.setter
     def d(self, value):
@@ -1887,8 +1895,7 @@ class State:
             np.zeros_like(self._c),
             value
             )[3]
-        self._d = value
-        self._recalc()
+        self._update(_d=value)
 
     @SamplingPeriod.setter
     def SamplingPeriod(self, value):
@@ -1956,6 +1963,8 @@ class State:
             else:
                 self._PrewarpFrequency = value
 
+    _update = Transfer._update
+
     def _recalc(self):
         if self._isgain:
             self.poles = []
-- 
2.43.0


From b9a6677acd85614ad012a008d30aa33c930a6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:55 +0000
Subject: [PATCH 60/90] fix: track static gains when numerator or denominator
 is assigned

---
 harold/_classes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5aebbc3..cf0e6d3 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -278,7 +278,8 @@ class Transfer:
     @num.setter
     def num(self, value):
 
-        user_num, _, user_shape = self.validate_arguments(value, self._den)[:3]
+        user_num, _, user_shape, user_gain = self.validate_arguments(value,
+                                                                     self._den)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -287,12 +288,13 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._update(_num=user_num)
+            self._update(_num=user_num, _isgain=user_gain)
 
     @den.setter
     def den(self, value):
 
-        user_den, user_shape = self.validate_arguments(self._num, value)[1:3]
+        _, user_den, user_shape, user_gain = self.validate_arguments(self._num,
+                                                                     value)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -301,7 +303,7 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._update(_den=user_den)
+            self._update(_den=user_den, _isgain=user_gain)
 
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
-- 
2.43.0


From f91bd69aedb899732a3ee8ea71768a6e80017b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:55 +0000
Subject: [PATCH 61/90] fix: update stability when the sampling period is
 changed

---
 harold/_classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index cf0e6d3..201d593 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -275,6 +275,10 @@ class Transfer:
             self._DiscretizationMatrix = None
             self._PrewarpFrequency = 0.
 
+        # Not available yet during the instantiation
+        if hasattr(self, 'poles'):
+            self._set_stability()
+
     @num.setter
     def num(self, value):
 
@@ -1919,6 +1923,10 @@ class State:
             self._DiscretizationMatrix = None
             self._PrewarpFrequency = 0.
 
+        # Not available yet during the instantiation
+        if hasattr(self, 'poles'):
+            self._set_stability()
+
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
         if value in _KnownDiscretizationMethods:
-- 
2.43.0


From d1a5ddc7256a0910d896ec6c9340c53264f03911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:55 +0000
Subject: [PATCH 62/90] fix: allow assigning the feedthrough matrix of a static
 gain State

---
 harold/_classes.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 201d593..0c4866f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1895,12 +1895,20 @@ class State:
 
     @d.setter
     def d(self, value):
-        value = self.validate_arguments(
-            np.zeros_like(self._a),
-            np.zeros_like(self._b),
-            np.zeros_like(self._c),
-            value
-            )[3]
+        if self._isgain:
+            *_, value, shape, _ = self.validate_arguments(None, None, None,
+                                                          value)
+            if shape != self._shape:
+                raise ValueError('Once created, the shape of the model cannot '
+                                 'be changed. I need the shape {0} but got '
+                                 '{1}.'.format(self._shape, shape))
+        else:
+            value = self.validate_arguments(
+                np.zeros_like(self._a),
+                np.zeros_like(self._b),
+                np.zeros_like(self._c),
+                value
+                )[3]
         self._update(_d=value)
 
     @SamplingPeriod.setter
-- 
2.43.0


From d117744afdb0e2b29a85a9042ef219d5ac2e98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:56 +0000
Subject: [PATCH 63/90] fix: refuse State matrices with more than two
 dimensions

---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 0c4866f..26cb4b5 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2703,6 +2703,8 @@ class State:
                     returned_abcd_list[abcd_index] = np.atleast_2d(
                                                 np.array(abcd, dtype='float')
                                                 )
+                    if returned_abcd_list[abcd_index].ndim > 2:
+                        raise ValueError
                 except ValueError:
                     raise ValueError('The {0} matrix argument couldn\'t '
                                      'be converted to a 2D array of real'
-- 
2.43.0


From 1b63facfd281e563c92ee9192998071dbce45889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:37 +0000
Subject: [PATCH 64/90] fix: refuse complex State matrices instead of dropping
 the imaginary part

---
 harold/_classes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 26cb4b5..f282484 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2694,6 +2694,13 @@ class State:
                                            type(abcd).__qualname__))
 
             else:
+                # Complex dtype does not immediately mean complex numbers
+                if np.iscomplexobj(abcd):
+                    if np.any(np.imag(abcd)):
+                        raise ValueError('Complex valued representations are '
+                                         'not supported.')
+                    abcd = np.real(abcd)
+
                 # Row/column consistency is checked by numpy
                 try:
                     if verbose:
-- 
2.43.0


From f71aec634852dbd4ae8189dd7c0dcef6e554dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:42 +0000
Subject: [PATCH 65/90] fix: return copies of the feedthrough of static gain
 State models

---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f282484..22672dc 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2633,7 +2633,7 @@ class State:
         a regular 2D-ndarray.
         '''
         if self._isgain:
-            return self._d
+            return self._d.copy()
         else:
             raise ValueError('Only static gain models can be converted to '
                              'ndarrays.')
@@ -3618,6 +3618,6 @@ def concatenate_state_matrices(G):
                          'representations, but I found \"{0}\" object '
                          'instead.'.format(type(G).__name__))
     if G._isgain:
-        return G.d
+        return G.d.copy()
 
     return np.block([[G.a, G.b], [G.c, G.d]])
-- 
2.43.0


From 25e2494dfe0d861b3cb87b85e0ce8faabf4129c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:42 +0000
Subject: [PATCH 66/90] fix: copy the interconnection array given to a discrete
 Transfer

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 22672dc..63fb04a 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -325,7 +325,7 @@ class Transfer:
     @DiscretizationMatrix.setter
     def DiscretizationMatrix(self, value):
         if self._DiscretizedWith == 'lft':
-            value = np.atleast_2d(np.asarray(value, dtype=float))
+            value = np.atleast_2d(np.array(value, dtype=float))
             if value.ndim > 2 or value.shape != (2, 2):
                 raise ValueError('The interconnection array needs to be a'
                                  ' 2x2 real-valued array.')
-- 
2.43.0


From 37dabd3099fbe13605e7ab8a636c74f412ced025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:42 +0000
Subject: [PATCH 67/90] fix: do not share model data in the raw outputs of
 conversions

---
 harold/_classes.py    | 6 +++---
 harold/_kalman_ops.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 63fb04a..d9faa88 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2894,7 +2894,7 @@ def state_to_transfer(state_or_abcd, output='system'):
     output = output.lower()[0]
 
     if isinstance(state_or_abcd, Transfer):
-        return (state_or_abcd.polynomials if output == 'p'
+        return (deepcopy(state_or_abcd.polynomials) if output == 'p'
                 else state_or_abcd)
 
     # If a discrete time system is given this will be modified to the
@@ -2921,7 +2921,7 @@ def state_to_transfer(state_or_abcd, output='system'):
 
     if it_is_gain:
         if output == 'p':
-            return D, np.ones_like(D)
+            return D.copy(), np.ones_like(D)
         return Transfer(D.tolist(), np.ones_like(D).tolist(), dt=dt)
 
     n = A.shape[0]
@@ -3043,7 +3043,7 @@ def transfer_to_state(G, output='system'):
         num, den, (p, m), it_is_gain = Transfer.validate_arguments(num, den)
         dt = None
     elif isinstance(G, State):
-        return G.matrices if output == 'matrices' else G
+        return deepcopy(G.matrices) if output == 'matrices' else G
     elif isinstance(G, Transfer):
         G = deepcopy(G)
         num = G.num
diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index f04bb67..bf8ad09 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -185,7 +185,7 @@ def kalman_decomposition(G, compute_T=False, output='system',
     # If a static gain, then skip and return the argument
     if G._isgain:
         if output == 'matrices':
-            return G.matrices
+            return tuple(x.copy() for x in G.matrices)
 
         return G
 
-- 
2.43.0


From 6dfdc0020669992c8657dc6666cdde0b34b2a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:21 +0000
Subject: [PATCH 68/90] fix: return a copy as the dcgain of a static gain State

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index e54ebb4..e1a5922 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -544,7 +544,7 @@ def dcgain(self):
     Returns the low-frequency gain of the Transfer model.
     """
     if self._isgain:
-        return self.d
+        return self.d.copy()
 
     def gain_at_dc(b, c):
         # None if there is a pole at the DC point (up to rounding errors)
-- 
2.43.0


From 2f5ba365d2a08982663c52636ad380527cbbf10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:29 +0000
Subject: [PATCH 69/90] fix: name the right array when the output matrix does
 not fit

---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d9faa88..5a2f085 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3439,7 +3439,7 @@ def _state_or_abcd(arg, n=4):
                 if nc != a.shape[0]:
                     raise ValueError('c array should have same number of cols'
                                      'as a. a is {} but c is {}'
-                                     ''.format(a.shape, b.shape))
+                                     ''.format(a.shape, c.shape))
 
                 return system_or_not, (a, b, c)
             elif n == 4:
@@ -3451,7 +3451,7 @@ def _state_or_abcd(arg, n=4):
                 if nc != a.shape[0]:
                     raise ValueError('c array should have same number of cols'
                                      'as a. a is {} but c is {}'
-                                     ''.format(a.shape, b.shape))
+                                     ''.format(a.shape, c.shape))
                 return system_or_not, (a, c)
     else:
         raise ValueError('The argument is neither a tuple nor a State() '
-- 
2.43.0


From 19ec14f57ff781725912cae300b0755581c0b0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:07 +0000
Subject: [PATCH 70/90] fix: return the response of static gains at every
 frequency

---
 harold/_frequency_domain.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 3b623f0..a979f7b 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -55,18 +55,9 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
     w = _get_freq_grid(G, w, samples, w_unit, 'rad/s')
 
     if G._isgain:
+        fr_arr = zeros(G.shape + (len(w),)) + G.to_array()[:, :, None]
         if G._isSISO:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = array([1]*2)*G.num[0, 0]
-            else:
-                fr_arr = array([1]*2)*G.d[0, 0]
-        else:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = zeros((2,)+G.shape) + G.to_array()
-            else:
-                fr_arr = zeros((2,)+G.shape) + G.d
-
-            fr_arr = rollaxis(fr_arr, 0, 3)
+            fr_arr = fr_arr.ravel()
     else:
         p, m = G.shape
         fr_arr = empty((len(w), m, p), dtype='complex')
-- 
2.43.0


From 8eef3fed34454ab9b52da9b36074ba35ff72c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:07 +0000
Subject: [PATCH 71/90] fix: accept frequency units in any letter case
 consistently

---
 harold/_frequency_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index a979f7b..eb3c1d2 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -52,6 +52,9 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
             raise ValueError('Frequency unit must be "Hz" or "rad/s". "{0}"'
                              ' is not recognized.'.format(x))
 
+    w_unit = 'Hz' if w_unit.lower() == 'hz' else 'rad/s'
+    output_unit = 'Hz' if output_unit.lower() == 'hz' else 'rad/s'
+
     w = _get_freq_grid(G, w, samples, w_unit, 'rad/s')
 
     if G._isgain:
-- 
2.43.0


From c6341f6cbdf89cfc93116ea32406743e8f6b75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:07 +0000
Subject: [PATCH 72/90] fix: pivot when evaluating the response of State models

---
 harold/_frequency_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index eb3c1d2..f9622a0 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -146,6 +146,9 @@ def _State_freq_resp(mA, mb, sc, f, dt=None):
         U[:, :] = Ab  # Working copy
         U[imag_indices] += val*1j if dt is None else np.exp(dt*val*1j)
         for x in range(1, nn):
+            # Pivot with the only nonzero entry below the diagonal
+            if np.abs(U[x, x-1]) > np.abs(U[x-1, x-1]):
+                U[[x-1, x], x-1:] = U[[x, x-1], x-1:]
             U[x, x:] -= (U[x, x-1] / U[x-1, x-1]) * U[x-1, x:]
 
         r[ind, :] = U[-1, -m:] / U[-1, -1-m]
-- 
2.43.0


From 56793d05597105993ee1c634a06f1f01050b5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:07 +0000
Subject: [PATCH 73/90] fix: keep the Hessenberg form when modes are removed
 from a response

---
 harold/_frequency_domain.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index f9622a0..0122930 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -67,16 +67,17 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
 
         if type(G).__name__ == 'State':
             for row in range(p):
-                aa, bb, cc = hessenberg_realization((G.a, G.b, G.c[[row], :]),
-                                                    form='o', invert=True,
-                                                    output='matrices')
+                abc = G.a, G.b, G.c[[row], :]
                 if use_minreal:
-                    aaa, bbb, ccc = _minimal_realization_state(aa, bb, cc)
-                else:
-                    aaa, bbb, ccc = aa, bb, cc
+                    abc = _minimal_realization_state(*abc)
+                    # Nothing left from the dynamics of this channel
+                    if abc[0].size == 0:
+                        fr_arr[:, :, row] = 0.
+                        continue
+                aa, bb, cc = hessenberg_realization(abc, form='o', invert=True,
+                                                    output='matrices')
                 dt = G.SamplingPeriod if G.SamplingSet == 'Z' else None
-                fr_arr[:, :, row] = _State_freq_resp(aaa, bbb, ccc[0, -1],
-                                                     w, dt)
+                fr_arr[:, :, row] = _State_freq_resp(aa, bb, cc[0, -1], w, dt)
 
             if np.any(G.d):
                 fr_arr += G.d.T[None, :, :]
-- 
2.43.0


From 219fc726c0f511ec6dd77ba3f5653ce5a662d6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:20 +0000
Subject: [PATCH 74/90] fix: simulate models with one state and inputs with one
 sample

---
 harold/_time_domain.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7901fe6..7322350 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -70,7 +70,7 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
         if x0.ndim > 1:
             raise ValueError('Initial condition can only be a 1D array.')
         else:
-            x0 = x0[:, None]
+            x0 = x0.reshape(-1, 1)
 
         if sys.NumberOfStates != x0.size:
             raise ValueError('The initial condition size does not match the '
@@ -85,9 +85,12 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
     n, m = sys.NumberOfStates, sys.shape[1]
 
     is_discrete = sys.SamplingSet == 'Z'
-    u = np.asarray(u, dtype=float).squeeze()
-    if u.ndim == 1:
-        u = u[:, None]
+    u = np.asarray(u, dtype=float)
+    # Don't mix up a single sample of many inputs with a single input
+    if u.ndim != 2 or m == 1:
+        u = u.squeeze()
+    if u.ndim < 2:
+        u = u.reshape(-1, 1)
 
     t = _check_u_and_t_for_simulation(m, sys._dt, u, t, is_discrete)
     # input and time arrays are regular move on
-- 
2.43.0


From b858d47f77cbc7b6056efe58d6687ee0a91d4e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:45 +0000
Subject: [PATCH 75/90] fix: refuse input arrays with more than two dimensions
 in simulations

---
 harold/_time_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7322350..dde2987 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -461,6 +461,9 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
                              ' model sampling period {}.'.format(t_diff[0],
                                                                  dt))
 
+    if u.ndim > 2:
+        raise ValueError('The input array should be a 1D or a 2D array.')
+
     if u.size < 1:
         raise ValueError('The input array should at least have one point.')
 
-- 
2.43.0


From a1b096a920ca71e9dad12128f54fcc50aa7b7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:29 +0000
Subject: [PATCH 76/90] fix: choose the horizon of discrete responses for slow
 and alternating modes

---
 harold/_time_domain.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index dde2987..19f707e 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -330,21 +330,21 @@ def _compute_tfinal_and_dt(sys, is_step=True):
         m_u = (np.abs(p) >= 1 + sqrt_eps)
         p_u, p = p[m_u], p[~m_u]
         if p_u.size > 0:
-            m_u = (p_u.real < 0) & (np.abs(p_u.imag) < sqrt_eps)
-            t_emp = np.max(log_decay_percent / np.abs(np.log(p_u[~m_u])/dt))
+            t_emp = np.max(log_decay_percent / np.abs(np.log(p_u)/dt))
             tfinal = max(tfinal, t_emp)
 
         # zero - negligible effect on tfinal
         m_z = np.abs(p) < sqrt_eps
         p = p[~m_z]
         # Negative reals- treated as oscillary mode
-        m_nr = (p.real < 0) & (np.abs(p.imag) < sqrt_eps)
+        m_nr = (p.real < 0) & (np.abs(p.imag) < sqrt_eps) & \
+            (np.abs(p) < 1 - sqrt_eps)
         p_nr, p = p[m_nr], p[~m_nr]
         if p_nr.size > 0:
             t_emp = np.max(log_decay_percent / np.abs((np.log(p_nr)/dt).real))
             tfinal = max(tfinal, t_emp)
         # discrete integrators
-        m_int = (p.real - 1 < sqrt_eps) & (np.abs(p.imag) < sqrt_eps)
+        m_int = (np.abs(p.real - 1) < sqrt_eps) & (np.abs(p.imag) < sqrt_eps)
         p_int, p = p[m_int], p[~m_int]
         # pure oscillatory modes
         m_w = (np.abs(np.abs(p) - 1) < sqrt_eps)
@@ -361,7 +361,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
             tfinal = tfinal * 5
 
         # Make tfinal an integer multiple of dt
-        num_samples = tfinal // dt
+        num_samples = max(tfinal // dt, min_points_z)
         if num_samples > max_points_z:
             tfinal = dt * max_points_z
         else:
-- 
2.43.0


From 4d24984783aa8cb90dd07b8a5f440640f11ce6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:22 +0000
Subject: [PATCH 77/90] fix: interpret the weights and the weighting option of
 lqr consistently

---
 harold/_static_ctrl_design.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e88c030..2392a59 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -79,7 +79,8 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         raise ValueError('State feedback design requires dynamic system'
                          ' representations. The argument is a static gain.')
 
-    if weight_on.lower() not in ('state, output'):
+    weight_on = weight_on.lower()
+    if weight_on not in ('state', 'output'):
         raise ValueError('"weight_on" keyword can either be "state" or'
                          ' "output" but received "{}"'.format(weight_on))
 
@@ -90,16 +91,16 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
 
     n, m, p = T.NumberOfStates, T.NumberOfInputs, T.NumberOfOutputs
 
-    if R is None:
-        R = eye(m)
+    Q = array(Q, dtype=float, ndmin=2)
+    R = eye(m) if R is None else array(R, dtype=float, ndmin=2)
+    if S is not None:
+        S = array(S, dtype=float, ndmin=2)
 
     func = care if T.SamplingSet == 'R' else dare
     # Arrays, shape mismatches and sign definiteness are handled by
     # scipy riccati solver. So pass directly if not "output".
 
     if weight_on == 'output':
-        Q = array(Q, dtype=float, ndmin=2)
-        R = array(R, dtype=float, ndmin=2)
         for ind, (arg, rc, st) in enumerate(
                                 zip([Q, R], [p, m], ['input', 'output'])):
             if arg.shape[0] != rc or arg.shape[0] != arg.shape[1]:
@@ -107,12 +108,14 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
                                  ' {1} rows/cols as the number of {2}s for '
                                  '{2} weighting. The argument has the shape '
                                  '{3}.'.format('QR'[ind], rc, st, arg.shape))
+            if not np.allclose(arg, arg.T):
+                raise ValueError('{} array should be symmetric.'
+                                 ''.format('QR'[ind]))
 
         mat = block([[T.c, T.d], [zeros((m, n)), eye(m)]])
         if S is None:
             fact = block_diag(Q, R)
         else:
-            S = array(S, dtype=float, ndmin=2)
             if S.shape != (p, m):
                 raise ValueError('S array is expected to have the shape {}'
                                  ' but has {}'.format((p, m), S.shape))
-- 
2.43.0


From b23d26978e3c4ebadf71da6891b8b55f9934a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:22 +0000
Subject: [PATCH 78/90] fix: accept complex conjugate pole locations in
 ackermann

---
 harold/_static_ctrl_design.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index 2392a59..9d0c22c 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -169,9 +169,13 @@ def ackermann(G, loc):
         raise ValueError('Ackermann method is only applicable to single input'
                          ' systems.')
 
-    loc = array(loc, dtype=float)
+    loc = array(loc, dtype=complex)
     if loc.ndim > 1:
         raise ValueError('Pole location array must be 1D.')
+    if loc.size != n:
+        raise ValueError('The number of pole locations should be equal to the '
+                         'number of states, {}, but {} of them are given.'
+                         ''.format(n, loc.size))
 
     Cc, _, r = controllability_matrix((A, B), compress=False)
     # if not controllable
@@ -179,7 +183,11 @@ def ackermann(G, loc):
         raise ValueError('The system is numerically uncontrollable. Pole '
                          'placement is not possible.')
     # Desired characteristic polynomial
-    p = poly(loc).real[::-1]
+    p = poly(loc)[::-1]
+    if not np.allclose(p.imag, 0.):
+        raise ValueError('Complex pole locations should be given together '
+                         'with their conjugates.')
+    p = p.real
     # Get the state-matrix-to-be via matrix evaluation of the polynomial
     # TODO: Maybe implement Horner's scheme for evaluation?
     pmat = np.zeros((n, n), dtype=float)
-- 
2.43.0


From c00a1c9b30e033ee3e08ce02fbf9bd93021b1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:22 +0000
Subject: [PATCH 79/90] fix: compute norms of discrete, static and zero models

---
 harold/_system_props.py | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 28255fc..cfb73ab 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -5,6 +5,7 @@ from scipy.linalg import solve, norm, eigvals, qr
 
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
+from ._discrete_funcs import undiscretize
 from ._classes import Transfer, transfer_to_state
 from ._solvers import lyapunov_eq_solver
 from ._arg_utils import _check_for_state_or_transfer
@@ -71,9 +72,13 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
     # 2-norm
     if p == 2:
         # Handle trivial infinities
-        if not np.allclose(T.d, np.zeros_like(T.d)) or (not T._isstable):
+        if not T._isstable or (T.SamplingSet == 'R' and
+                               not np.allclose(T.d, np.zeros_like(T.d))):
             return np.Inf
 
+        if T._isgain:
+            return norm(d)
+
         if T.SamplingSet == 'R':
             x = lyapunov_eq_solver(a.T, b @ b.T)
             return np.sqrt(np.trace(c @ x @ c.T))
@@ -85,6 +90,14 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if not T._isstable:
             return np.Inf
 
+        if T._isgain:
+            return norm(d, ord=2)
+
+        # The bilinear map takes the unit circle to the imaginary axis
+        if T.SamplingSet == 'Z':
+            T = undiscretize(T, method='tustin')
+            a, b, c, d = T.matrices
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
@@ -100,16 +113,18 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         else:
             low_damp_fr = np.min(np.abs(T.poles))
 
-        f, w = frequency_response(T, w=[0, low_damp_fr], w_unit='rad/s',
-                                  output_unit='rad/s')
+        # Unless the model is zero, it can't vanish at all these frequencies
+        w = low_damp_fr * np.arange(T.NumberOfStates + 2)
+        f, w = frequency_response(T, w=w, w_unit='rad/s', output_unit='rad/s')
         if T._isSISO:
             lb = np.max(np.abs(f))
         else:
-            # Only evaluated at two frequencies, 0 and wb
             lb = np.max(norm(f, ord=2, axis=(0, 1)))
 
         # Finally
         gamma_lb = np.max([lb, norm(d, ord=2)])
+        if gamma_lb == 0.:
+            return 0.
 
         # Start a for loop with a definite end! Convergence is quartic!!
         for x in range(51):
@@ -128,24 +143,30 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             eigs_of_H = eigvals(mat)
 
             # (Step b3)
-            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol]
+            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <=
+                                eig_tol * max(1., norm(mat, ord=1))]
             # If none left break
             if im_eigs.size == 0:
-                gamma_ub = test_gamma
                 break
             else:
                 # Take the ones with positive imag part
                 w_i = np.sort(np.unique(np.abs(im_eigs.imag)))
-                # Evaluate the cubic interpolant
-                m_i = (w_i[1:] + w_i[:-1]) / 2
+                # Evaluate the cubic interpolant, also look beyond the both
+                # ends since the crossings close to infinity can be missed
+                m_i = np.r_[w_i[0] / 2, (w_i[1:] + w_i[:-1]) / 2,
+                            w_i[-1] * np.array([2, 10, 100])]
                 f, w = frequency_response(T, w=m_i, w_unit='rad/s',
                                           output_unit='rad/s')
                 if T._isSISO:
-                    gamma_lb = np.max(np.abs(f))
+                    lb = np.max(np.abs(f))
                 else:
-                    gamma_lb = np.max(norm(f, ord=2, axis=(0, 1)))
+                    lb = np.max(norm(f, ord=2, axis=(0, 1)))
+
+                if lb <= test_gamma:
+                    break
+                gamma_lb = lb
 
-        return (gamma_lb + gamma_ub)/2
+        return (gamma_lb + test_gamma)/2
 
 
 def controllability_indices(A, B, tol=None):
-- 
2.43.0


From cbe9806992b0ba2e841aa9bb2a7e65544228c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:36 +0000
Subject: [PATCH 80/90] fix: refuse malformed and complex entries inside lists
 of Transfer data

---
 harold/_classes.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5a2f085..2c394b7 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1203,9 +1203,18 @@ class Transfer:
                 shape = (1, 1)
             return shape
 
+        def to_array(x):
+            # Complex entries are kept here to be dealt with later
+            x = np.array(x, ndmin=2)
+            return x if np.iscomplexobj(x) else x.astype(float)
+
         # A list for storing the regularized entries for num and den
         returned_numden_list = [[], []]
 
+        if num is None and den is None:
+            raise ValueError('At least one of the numerator and the '
+                             'denominator arguments should be given.')
+
         # Text shortcut for the error messages
         entrytext = ('numerator', 'denominator')
 
@@ -1253,8 +1262,8 @@ class Transfer:
                                   'a single element\nStripped off '
                                   'the lists and converted '
                                   'to a numpy array.')
-                        returned_numden_list[numden_index] = np.atleast_2d(
-                                                numden[0]).astype(float)
+                        returned_numden_list[numden_index] = to_array(
+                                                                numden[0][0])
                         continue
 
                     # It is a list of lists so the context is MIMO
@@ -1271,9 +1280,7 @@ class Transfer:
                         # Try to numpy-array the elements inside each row
                         try:
                             returned_numden_list[numden_index] = [
-                                 [np.array(x, dtype='float', ndmin=2)
-                                     for x in y]
-                                 for y in numden]
+                                 [to_array(x) for x in y] for y in numden]
                         except TypeError:
                             raise ValueError(  # something was not float
                                              'Something is not a \"float\" '
@@ -1322,7 +1329,7 @@ class Transfer:
             elif isinstance(numden, np.ndarray):
                 if verbose:
                     print('I found a numpy array')
-                if numden.ndim > 1 and min(numden.shape) > 1:
+                if numden.ndim == 2 and min(numden.shape) > 1:
                     if verbose:
                         print('The array has multiple elements')
                     returned_numden_list[numden_index] = [
@@ -1362,6 +1369,10 @@ class Transfer:
             if np.iscomplexobj(x) and np.any(x.imag):
                 raise ValueError('Complex valued representations are not '
                                  'supported.')
+            if (x.size not in (0, max(x.shape, default=1))
+                    or np.any(np.isnan(x))):
+                raise ValueError('Polynomials should be given as 1D arrays '
+                                 'of numbers.')
             x = np.trim_zeros(np.array(x.real, dtype=float).ravel(), 'f')
             return np.atleast_2d(x) if x.size > 0 else np.array([[0.]])
 
-- 
2.43.0


From e7f54f02aeba12b8fb87fe524a8bed17bb1d1704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:21:16 +0000
Subject: [PATCH 81/90] fix: random_state_model draws unstable complex pairs
 and single poles as asked

The sign of an unstable pair was an array of one element, which numpy
refuses to put next to scalars.  One-state models ignored prob_dist and
stable and always had a pole in (-1, 0).
---
 harold/_classes.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2c394b7..644de8e 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3549,9 +3549,6 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
     # Static model
     if n == 0:
         return State(rand(p, m), dt=dt)
-    elif n == 1:
-        a, b, c, d = rand(1), rand(1, m), rand(p, 1), rand(p, m)
-        return State(-a, b, c, d, dt=dt)
 
     # Get random pole types
     choose_from = [0, 1] if stable else [0, 1, 2, 3]
@@ -3563,7 +3560,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
         p_type = choice(choose_from, 1, replace=True, p=pdist)
         if p_type == 0:
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             a[diag_i, diag_i] = pr
             diag_i += 1
@@ -3571,7 +3568,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
         elif p_type == 1:
             if diag_i >= n-1:
                 break
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             pi = exp(exp(rand()))
             a[[diag_i, diag_i, diag_i+1, diag_i+1],
@@ -3596,7 +3593,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
     # Complex didn't fit, fill the remaining
     if diag_i == n-1:
-        ps = choice([1, -1], 1)
+        ps = choice([1, -1])
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
 
-- 
2.43.0


From 35ddc9ca35f13ec5c92a9ee1b2499f134cab5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:55 +0000
Subject: [PATCH 82/90] fix: plot every model, also when there are more of them
 than styles

zip() stopped at the end of the style cycle and dropped the remaining
models without a word.
---
 harold/_frequency_domain_plots.py | 6 ++++--
 harold/_time_domain_plots.py      | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c20b795..91129fa 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -1,3 +1,5 @@
+from itertools import cycle
+
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -175,7 +177,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
             w = W[ind]
@@ -334,7 +336,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
             w = W[ind]
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index f057bc9..750b6eb 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -1,3 +1,5 @@
+from itertools import cycle
+
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -93,7 +95,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_step_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
-- 
2.43.0


From e60101f73275cfa0b3319c84b75b773b0a47cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:55 +0000
Subject: [PATCH 83/90] fix: respect the style argument in impulse and Nyquist
 plots

---
 harold/_frequency_domain_plots.py |  6 ++++--
 harold/_time_domain_plots.py      | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 91129fa..f93a1c1 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -364,8 +364,10 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
                     rdata = rr[row, col, :]
                     idata = ii[row, col, :]
 
-                axs[row, col].plot(rdata, idata, '-')
-                axs[row, col].plot(rdata, -idata, '-.')
+                axs[row, col].plot(rdata, idata,
+                                   **{'linestyle': '-', **sty})
+                axs[row, col].plot(rdata, -idata,
+                                   **{'linestyle': '-.', **sty})
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index 750b6eb..94eb9df 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -188,14 +188,14 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys in syslist:
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
             if sys._isdiscrete:
-                axs[0, 0].step(tout, yout, where='post')
+                axs[0, 0].step(tout, yout, where='post', **sty)
             else:
-                axs[0, 0].plot(tout, yout)
+                axs[0, 0].plot(tout, yout, **sty)
 
             axs[0, 0].grid(visible=True)
         else:
@@ -209,7 +209,9 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
                 for col in range(ncols):
                     getattr(axs[row, col], ptype)(tout, yout[:, row, col]
                                                   if yout.ndim == 3
-                                                  else yout[:, row], **w_dict)
+                                                  else yout[:, row],
+                                                  **w_dict,
+                                                  **sty)
                     axs[row, col].grid(visible=True)
     axs[0, 0].set_xlim(left=0, right=tmin)
     fig.text(0, .5, 'Amplitude', ha='center', va='center', rotation='vertical')
-- 
2.43.0


From 077e0dcd7665c8202b1c235035934a8f19b9432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:55 +0000
Subject: [PATCH 84/90] fix: hide the negative frequencies of a Nyquist plot
 when asked to

---
 harold/_frequency_domain_plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index f93a1c1..23d259f 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -366,8 +366,9 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
 
                 axs[row, col].plot(rdata, idata,
                                    **{'linestyle': '-', **sty})
-                axs[row, col].plot(rdata, -idata,
-                                   **{'linestyle': '-.', **sty})
+                if negative_freqs:
+                    axs[row, col].plot(rdata, -idata,
+                                       **{'linestyle': '-.', **sty})
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
-- 
2.43.0


From 9541f3445398fb9b1e0ba6cae1132692ca42a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:56 +0000
Subject: [PATCH 85/90] fix: unwrap the phase of each channel in Bode plots
 separately

If some response value is zero, the phases of all channels were unwrapped
as one sequence and the phases at the zeros were uninitialized memory.
---
 harold/_frequency_domain_plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 23d259f..4cc7f36 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -200,8 +200,10 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
         # Mask NaN values if any
         if np.isnan(fre).any():
-            pha = np.empty_like(fre, dtype=float)
-            pha[~np.isnan(fre)] = np.unwrap(np.angle(fre[~np.isnan(fre)]))
+            pha = np.full(fre.shape, np.nan)
+            for ind_ch in np.ndindex(fre.shape[:-1]):
+                mask = ~np.isnan(fre[ind_ch])
+                pha[ind_ch][mask] = np.unwrap(np.angle(fre[ind_ch][mask]))
         else:
             pha = np.unwrap(np.angle(fre))
         if use_degree:
-- 
2.43.0


From af13883c96ec29ed5110186494f98756e8f5aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:56 +0000
Subject: [PATCH 86/90] fix: use the own frequency grid of each model in Bode
 and Nyquist plots

The grid of the first model was taken for a user supplied one by the
models after it, and padding at high frequencies dropped the padding at
the low ones.
---
 harold/_frequency_domain_plots.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 4cc7f36..cd63b9b 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -89,7 +89,7 @@ def _get_common_freq_grid(syslist):
             lw1 = np.log10(w[-1])
             samples = (5 if syslist[ind]._isgain else
                        int(np.ceil((lmaxw - lw1) * ppd)))
-            W[ind] = np.hstack([w,
+            W[ind] = np.hstack([W[ind],
                                 np.logspace(start=lw1,
                                             stop=lmaxw,
                                             num=samples)])
@@ -179,18 +179,19 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
     for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
+        wg = w
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wg = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wg = wg / (2*np.pi)
 
         isDiscrete = True if G.SamplingSet == 'Z' else False
         if isDiscrete:
             dt = G.SamplingPeriod
             nyq = 1/(2*dt) if use_hz else np.pi/dt
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wg is not None:
+            fre, ww = frequency_response(G, wg, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
@@ -340,13 +341,14 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
 
     for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
+        wg = w
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wg = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wg = wg / (2*np.pi)
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wg is not None:
+            fre, ww = frequency_response(G, wg, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
-- 
2.43.0


From b846279e6f4e8eef057a3db27cb25c9ec84e9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:59 +0000
Subject: [PATCH 87/90] fix: decide invertibility of the feedthrough relative
 to its size

---
 harold/_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 644de8e..a4890f2 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2,7 +2,7 @@ import numpy as np
 import warnings
 from numpy import zeros_like, kron, ndarray, zeros, exp, convolve, spacing
 from numpy.random import rand, choice
-from scipy.linalg import (eigvals, svdvals, block_diag, qz, norm, solve, expm,
+from scipy.linalg import (eigvals, block_diag, qz, norm, solve, expm,
                           inv, LinAlgError)
 from scipy.linalg._decomp import _asarray_validated
 from scipy.signal import deconvolve
@@ -839,7 +839,7 @@ class Transfer:
         a, b, c, d = transfer_to_state((self._num, self._den),
                                        output='matrices')
 
-        if np.any(svdvals(d) < np.spacing(1.)):
+        if np.linalg.matrix_rank(d) < d.shape[0]:
             raise LinAlgError('The feedthrough term of the system is not'
                               ' invertible.')
         else:
@@ -2540,7 +2540,7 @@ class State:
 
         a, b, c, d = self._a, self._b, self._c, self._d
 
-        if np.any(svdvals(d) < np.spacing(1.)):
+        if np.linalg.matrix_rank(d) < d.shape[0]:
             raise LinAlgError('The feedthrough term of the system is not'
                               ' invertible.')
         else:
-- 
2.43.0


From 56b19bd76347082b55795c584bb72f38a2dbcb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:37:32 +0000
Subject: [PATCH 88/90] fix: find the complex pairs of generalized Lyapunov
 equations in any units

---
 harold/_solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index 38f2b69..076f188 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -193,7 +193,8 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = A.shape[0]
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = (np.abs(As[range(1, n), range(0, n-1)]) >
+                       tol*np.abs(As).max())
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
@@ -355,7 +356,8 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
     # Based on that we have the block sizes `bz` and starting positions `bs`.
 
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = (np.abs(As[range(1, n), range(0, n-1)]) >
+                       tol*np.abs(As).max())
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
-- 
2.43.0


From f5210482c72084b6bb728980698e793349abcbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:27 +0000
Subject: [PATCH 89/90] fix: make the polynomial GCD independent of the size of
 the coefficients

---
 harold/_polynomial_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index cb2a6d5..b004fd5 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -242,6 +242,9 @@ def haroldgcd(*args):
     if n > 0 and p == 0:
         return np.array([1])
 
+    # Constant factors don't matter but the thresholds below are absolute
+    arr_args = [x/np.abs(x).max() for x in arr_args]
+
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
     S = np.array([np.hstack((
-- 
2.43.0


From 4fe21549c9d94661eeba54eb3fa8340c4b1852e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:38:27 +0000
Subject: [PATCH 90/90] fix: tell integrators of discrete Transfers from small
 coefficients in dcgain

---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index a4890f2..faf05bf 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -187,7 +187,8 @@ class Transfer:
                         num = self.num[r][c].flatten()
                         den = self.den[r][c].flatten()
                     for el in range(len(num)):
-                        if (abs(num.sum()) < tol) and (abs(den.sum()) < tol):
+                        if (abs(num.sum()) <= tol*abs(num).sum() and
+                                abs(den.sum()) <= tol*abs(den).sum()):
                             num, _ = deconvolve(num, [1, -1])
                             den, _ = deconvolve(den, [1, -1])
                         else:
-- 
2.43.0

