From 5fdf174d6854ecd44d48491b6f258c1b2dbc0662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:07 +0000
Subject: [PATCH 01/93] fix: one-site expectation values use the operator, not
 its transpose

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 084d638..bcb2f21 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -922,7 +922,7 @@ class fMPS(object):
         if (not self.canonical and not self.orthogonal) or (hasattr(self, 'oc') and self.oc != site):
             self.mixed_orthogonalise(site)
         M = self[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]], [3, 4, 1, 2]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]], [3, 4, 1, 2]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def E_(self, op, site):
@@ -932,7 +932,7 @@ class fMPS(object):
         :param site: site
         """
         M = self.mixed_canonicalise(site, sweep_back=True)[site]
-        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [1, 2]]))
+        return re(ncon([M, c(M), op], [[1, 3, 4], [2, 3, 4], [2, 1]]))
         #return re(tensordot(op, trace(dot(cT(M),  M), axis1=1, axis2=3), [[0, 1], [0, 1]]))
 
     def Es(self, ops, site):
-- 
2.43.0


From 4ed8d79f437ab2a69cd37d0e4abf2038b3621a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 02/93] fix: mixed_canonicalise records the centre it was asked
 for

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index bcb2f21..e02e07e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -621,8 +621,8 @@ class fMPS(object):
         :param testing: test canonicalness
         """
         self.ok = True
-        self.oc = oc
         self.right_canonicalise(D, minD=False, sweep_back=sweep_back)
+        self.oc = oc # right_canonicalise moves the recorded centre
 
         def split(M):
             """split: Do SVD and reshape A matrix
-- 
2.43.0


From f5db4be294ce51a6319cd8b7e3c30a6395b5d1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 03/93] fix: states whose tensors were replaced no longer
 promise a gauge

---
 xmps/fMPS.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e02e07e..46904d5 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -188,6 +188,7 @@ class fMPS(object):
         """__setitem__
         """
         self.data[key] = value
+        self.canonical = self.orthogonal = False # whatever gauge there was may be gone
 
     def __eq__(self, other):
         """__eq__
@@ -660,8 +661,9 @@ class fMPS(object):
                 self.data[m-1] = self.data[m-1]@R
             else:
                 self.norm_ = R
-        if fr == 0 and to == self.L:
-            self.orthogonal = True
+        self.canonical = False
+        self.orthogonal = fr == 0 and to == self.L
+        if self.orthogonal:
             self.oc = 0
         return self
 
@@ -678,8 +680,9 @@ class fMPS(object):
                 self.data[m+1] = R@self.data[m+1]
             else:
                 self.norm_ = R
-        if fr == 0 and to == self.L:
-            self.orthogonal = True
+        self.canonical = False
+        self.orthogonal = fr == 0 and to == self.L
+        if self.orthogonal:
             self.oc = self.L
         return self
 
@@ -860,6 +863,8 @@ class fMPS(object):
         else:
             self.data[site+1] = self.data[site][which, :, :]@self.data[site+1]
         del self.data[site]
+        self.L = len(self.data)
+        self.canonical = self.orthogonal = False # the remaining state is in no gauge
         return self
 
     def apply_two_site(self, opsites, which='l', D=None, truncate_swaps=False):
@@ -976,7 +981,7 @@ class fMPS(object):
         if self.bond_dimension == 1 and single_string:
             return [ncon([np.squeeze(self[i])]+[np.squeeze(self[i].conj())], [[-1], [-2]]) for i in sites]
         else:
-            if not hasattr(self, 'oc') or self.oc not in sites:
+            if not hasattr(self, 'oc') or (not self.canonical and not self.orthogonal) or self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
             links = [([-i, i, i+1] if i!= len(sites) else [-i, i, 2*len(sites)+1]) for i in range(1, len(sites)+1)]+\
                     [([-i, i, i+1] if i != len(sites)+1 else [-i, 1, i+1]) for i in range(len(sites)+1, 2*len(sites)+1)]
@@ -1153,6 +1158,7 @@ class fMPS(object):
             dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
 
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
+            self.canonical = self.orthogonal = False
 
         self.D = max([max(shape) for shape in self.structure()])
 
-- 
2.43.0


From 917c6fa70bc0c95097532f07afe69cb7a3dd9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 04/93] fix: every state carries the gauge flags its methods
 read

---
 xmps/fMPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 46904d5..5a2f5f2 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -144,6 +144,8 @@ def separate_tensor_rq(tensor):
 class fMPS(object):
     """finite MPS:
     lists of numpy arrays (1d) of numpy arrays (2d). Finite"""
+    canonical = False
+    orthogonal = False
 
     def __init__(self, data=None, d=None, D=None):
         """__init__
-- 
2.43.0


From 4e93b98063a53ab57e82e68f5a832d976e15e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 05/93] fix: random product states have the requested local
 dimension

---
 xmps/fMPS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 5a2f5f2..d8a0fbc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -411,8 +411,9 @@ class fMPS(object):
         """
         self.L = L
         self.d = d
-        if D == 1:
+        if D == 1 and d == 2:
             self.D = 1
+            self.canonical = self.orthogonal = False
             # random product states
             V = randn(L, 3)
             V = V/ed(norm(V, axis=-1), -1)
-- 
2.43.0


From a9d41cfc7be5e36aab765e5fa5e271d2788a0691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 06/93] fix: the sum of one-site states is their sum

---
 xmps/fMPS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d8a0fbc..f983487 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -222,6 +222,8 @@ class fMPS(object):
     def add(self, other):
         """add: proper mps addition here
         """
+        if self.L == 1:
+            return fMPS([self[0]+other[0]])
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
             if i == 0:
@@ -2080,6 +2082,8 @@ class fTFD(fMPS):
     def add(self, other):
         """add: proper mps addition here
         """
+        if self.L == 1:
+            return fTFD([self[0]+other[0]])
         new_data = [1j*np.zeros((self[i].shape[0], self[i].shape[1]+other[i].shape[1], self[i].shape[2]+other[i].shape[2])) for i in range(self.L)]
         for i in range(self.L):
             if i == 0:
-- 
2.43.0


From f95ca9448e73d54712db1dba01b5e7eb684f31c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 07/93] fix: doubled states stay doubled under mul, append,
 extend, apply and copy

---
 xmps/fMPS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f983487..e7990af 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -236,10 +236,10 @@ class fMPS(object):
         return fMPS(new_data)
 
     def append(self, tensor):
-        return fMPS(self.data+[tensor])
+        return type(self)(self.data+[tensor])
 
     def extend(self, other):
-        return fMPS(self.data+other.data)
+        return type(self)(self.data+other.data)
 
     def __sub__(self, other):
         """__sub: This is not how to subtract two MPS: it's itemwise addition.
@@ -261,7 +261,7 @@ class fMPS(object):
     def mul(self, other):
         """ proper mps multiplication (by scalar) here"""
         site = 0
-        return fMPS([x if i!=site else other*x for i, x in enumerate(self.data)])
+        return type(self)([x if i!=site else other*x for i, x in enumerate(self.data)])
 
     def __rmul__(self, other):
         """__rmul__: right scalar multiplication
@@ -859,7 +859,7 @@ class fMPS(object):
         op, site = opsite
         new_data = [x for x in self.data]
         new_data[site] = td(op, new_data[site], [1, 0])
-        return fMPS(new_data)
+        return type(self)(new_data)
 
     def post_select(self, site, which=0):
         '''post select on which (0 or 1) on site i'''
@@ -921,7 +921,7 @@ class fMPS(object):
         return self
 
     def copy(self):
-        return fMPS(self.data.copy())
+        return type(self)(self.data.copy())
 
     def E(self, op, site):
         """E: one site expectation value
-- 
2.43.0


From 093ded2d8e9a0e57f5e8aa1c27c64c1afb2f775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 08/93] fix: calling a state indexes its tensors from one

---
 xmps/fMPS.py | 2 +-
 xmps/iMPS.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e7990af..c2c136e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -177,7 +177,7 @@ class fMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5d87640..8fc7cc7 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -177,7 +177,7 @@ class iMPS(object):
 
         :param k: item to get
         """
-        return self.data[k+1]
+        return self.data[k-1]
 
     def __getitem__(self, k):
         """__getitem__: 0-based indexing
-- 
2.43.0


From 7d9b588e8af8ba8d91f6ae46d447633405dd6025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 09/93] fix: two-site gates act in the order of the named
 sites, for every local dimension

---
 xmps/fMPS.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c2c136e..d7dbda0 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -882,16 +882,18 @@ class fMPS(object):
         swap_D = None if not truncate_swaps else D
         op, sites = opsites
         assert op.shape[0]==op.shape[1]
-        if op.shape[0] == 2:
+        d = self[sites[0]].shape[0]
+        if op.shape[0] == d:
             if len(sites) == 1:
                 self = self.apply((op, sites[0]))
                 return self
             else:
-                self = self.apply((op, [i, j][{'l':0, 'r':1}[which]]))
+                self = self.apply((op, sites[{'l':0, 'r':1}[which]]))
                 return self
         else:
             i, j = sites
-            i, j = (i, j) if (j > i) else (j, i)
+            SWAP = eye(d**2).reshape(d, d, d**2).transpose([1, 0, 2]).reshape(d**2, d**2)
+            i, j, op = (i, j, op) if (j > i) else (j, i, SWAP@op@SWAP)
             i_ = j-1
             while i_ >= i+1:
                 self[i_], self[i_+1] = apply_unitary([self[i_], self[i_+1]], SWAP, which, swap_D)
-- 
2.43.0


From 1aedc547a575e913a07836fbb225fec5a1318836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 10/93] fix: infinite and doubled states use the operator, not
 its transpose

---
 xmps/fMPS.py |  4 ++--
 xmps/iMPS.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d7dbda0..85500f8 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2190,12 +2190,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op))) if lr == 0 else kron(eye(len(op)), op)
         M = self.mixed_canonicalise(site)[site]
-        return np.real(trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0)))
+        return np.real(trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0)))
 
     def Es(self, ops, site, lr=0):
         ops = [kron(op, eye(len(op))) for op in ops] if lr == 0 else [kron(eye(len(op)), op) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return np.array([trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return np.array([trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops])
 
 class vfMPS(object):
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 8fc7cc7..e9e01be 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -420,15 +420,15 @@ class iMPS(object):
         if c == 'm':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0])))
+            return real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0])))
         if c == 'r':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0])))
+            return real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0])))
         if c == 'l':
             L = self.L
             A = self.data[0]
-            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0])))
+            return real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0])))
 
         if c is None:
             G, L = self.canonicalise(to_vidal=True).data[0]
@@ -453,19 +453,19 @@ class iMPS(object):
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [1, 0]))))
+                ret.append(real_if_close(sum(L @ A * tensordot(op, C(A) @ L, [0, 0]))))
             return ret
         if c == 'r':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A * tensordot(op, L**2 @ C(A), [0, 0]))))
             return ret
         if c == 'l':
             L = self.L
             A = self.data[0]
             for op in ops:
-                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [1, 0]))))
+                ret.append(real_if_close(sum(A @ L**2 * tensordot(op, C(A), [0, 0]))))
             return ret
 
         if c is None:
@@ -813,4 +813,4 @@ class ivMPS(object):
         # |    circle   |,      op
         # |      |1     |       |1
         #  - L - G - L -
-        return real_if_close(tensordot(circle, op, [[0, 1], [0, 1]]))
+        return real_if_close(tensordot(circle, op, [[0, 1], [1, 0]]))
-- 
2.43.0


From 15523e0bd1aaa1292593b60906ed0ed9fcb02f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 11/93] fix: the hand of an infinite canonical form is compared
 by value and its mixed form is normalised

---
 xmps/iMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index e9e01be..50c3b81 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -374,12 +374,12 @@ class iMPS(object):
 
         self.L = L_  # store singular value
 
-        if hand is 'r':
+        if hand == 'r':
             self.data[0] = G_ @ L_
-        elif hand is 'l':
+        elif hand == 'l':
             self.data[0] = L_ @ G_
-        elif hand is 'm':
-            sqrtL_ = diag(sqrt(L))
+        elif hand == 'm':
+            sqrtL_ = sqrt(L_)
             self.data[0] = sqrtL_ @ G_ @ sqrtL_
 
         if to_vidal:
-- 
2.43.0


From b8c6c8f2439c20812e071c755384b9751f7321ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 12/93] fix: the adjoint of a transfer matrix is its conjugate
 transpose

---
 xmps/iMPS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 50c3b81..38faeeb 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -127,7 +127,7 @@ class TransferMatrix(object):
         """
         A = self.A
         l = l.reshape(A.shape[1:])
-        return sum(T(A) @ l @ C(A), axis=0).reshape(prod(A.shape[1:]))
+        return sum(cT(A) @ l @ A, axis=0).reshape(prod(A.shape[1:]))
 
     def aslinearoperator(self):
         """return linear operator representation - for arnoldi etc."""
@@ -141,11 +141,12 @@ class TransferMatrix(object):
     def eigs(self, l0=None, r0=None):
         A = self.A
         if l0 is not None:
-            l0 = l0.reshape(self.shape[1])
+            l0 = c(l0.reshape(self.shape[1]))
         if r0 is not None:
             r0 = r0.reshape(self.shape[1])
         _,   r = arnoldi(self.aslinearoperator(), k=1, v0=r0)
         eta, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0)
+        eta, l = c(eta), c(l)
 
         r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
                 rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
-- 
2.43.0


From 03f3d8f015db920228c97662300c0381d7f5cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 13/93] fix: iMPS.get_envs and right_null_projector read names
 that exist

---
 xmps/iMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 38faeeb..956a288 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -402,7 +402,7 @@ class iMPS(object):
         """eigs: dominant eigenvectors and values of the transfer matrix."""
         return self.transfer_matrix().eigs(l0, r0)
 
-    def get_envs():
+    def get_envs(self):
         _, self.l, self.r = self.eigs()
         return self.l, self.r
 
@@ -654,7 +654,7 @@ class iMPS(object):
         vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
         pr = ncon([inv(ch(r)), vR, c(vR), inv(ch(r))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
         self.vR = vR
-        if get_vR:
+        if get_vL:
             return pr, vR
         return pr
 
-- 
2.43.0


From 952f1f37764bb0be935357dcfbc9b7325960a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 14/93] fix: mixed canonicalisation leaves the caller's
 starting matrix alone

---
 xmps/iMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 956a288..949e8cb 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -292,7 +292,7 @@ class iMPS(object):
             L = L0
         else:
             L = randn(D, D)
-        L /= norm(L)
+        L = L/norm(L)
 
         L_ = copy(L)
         AL, L = uqr((L@A).reshape(d*D, D))
@@ -323,7 +323,7 @@ class iMPS(object):
         else:
             R = randn(D, D)
 
-        R /= norm(R)
+        R = R/norm(R)
 
         R_ = copy(R)
         R, AR = urq((A@R).transpose([1, 0, 2]).reshape(D, d*D))
-- 
2.43.0


From 8fb85ff80227a07bbe218cfc2109a6c116bd0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 15/93] fix: right_transfer keeps the order of the bra and ket
 indices from site to site

---
 xmps/fMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 85500f8..b412c7c 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -831,14 +831,14 @@ class fMPS(object):
         return (lambda n: Ls[n-j]) if ret_all else Ls[0]
 
     def right_transfer(self, op, i, j, ret_all=True):
-        """transfer an operator (..., u, d) on aux indices at i to site(s) j
+        """transfer an operator (..., d, u) on aux indices at i to site(s) j
         Returns a function such that R(j) == op at j. No bounds checking.
         """
         Rs = [op]
-        oplinks = list(range(-1, -len(op.shape)+1, -1))+[2, 3]
+        oplinks = list(range(-1, -len(op.shape)+1, -1))+[3, 2]
         for m in range(i+1, j+1):
             Rs.append(ncon([self[m].conj(), self[m], Rs[-1]], [[1, 3, -len(op.shape)+1], [1, 2, -len(op.shape)], oplinks]))
-        return (lambda n: Rs[n-i-1]) if ret_all else Rs[0]
+        return (lambda n: Rs[n-i-1]) if ret_all else Rs[-1]
 
     def links(self, k=None, op=True):
         """links: op True: return the links for ncon for full contraction of this
-- 
2.43.0


From 8f04731c8b2fba143cb436c45e73a9cedff70948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 16/93] fix: F1 contracts bra legs with the bra and ket legs
 with the ket

---
 xmps/fMPS.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index b412c7c..6bddd44 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1438,7 +1438,7 @@ class fMPS(object):
                 if str(j) not in self.F1_j_mem_:
                     # compute j properties, and store in cache
                     Ru_ = ncon([inv_ch_l(j-1)@vL(j), c(A[j])@ch_r(j)], [[1, -1, -3], [1, -2, -4]])
-                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -1, -3], [1, -2, -4]])
+                    Rb_ = ncon([inv_ch_l(j-1)@c(vL(j)), inv_ch_l(j-1)@vL(j)], [[1, -2, -3], [1, -1, -4]])
                     Rus_ = self.left_transfer(Ru_, 0, j)
                     Rbs_ = self.left_transfer(Rb_, 0, j)
 
@@ -1463,18 +1463,18 @@ class fMPS(object):
                         if j==i:
                             # BAHBA
                             G_ += ncon([vL(m), inv_ch_r(m)@Am_1@r(m+1)]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[5, 1, -3], [6, -4, 2], [5, 6, 3, 4], [3, 1, -1], [4, -2, 2]])
+                                        [[5, 1, -3], [6, -4, 2], [3, 4, 5, 6], [3, 1, -1], [4, -2, 2]])
 
                         elif j==i+1:
                             # ABHBA
                             G_ += ncon([Am, inv_ch_l(m)@vL(m+1)]+[h]+[ch_l(m-1)@c(vL(m)), inv_ch_r(m)@c(Am_1)@ch_r(m+1)],
-                                        [[5, 1, 2], [6, 2, -3], [5, 6, 3, 4], [3, 1, -1], [4, -2, -4]])
+                                        [[5, 1, 2], [6, 2, -3], [3, 4, 5, 6], [3, 1, -1], [4, -2, -4]])
                         else:
                             # AAHBA
                             O_ = ncon([ch_l(m-1)@Am, Am_1]+[h]+[c(vL(m)), inv_ch_r(m)@c(Am_1)],
-                                        [[3, 1, 2], [4, 2, -3], [3, 4, 5, 6], [5, 1, -1], [6, -2, -4]])
+                                        [[3, 1, 2], [4, 2, -3], [5, 6, 3, 4], [5, 1, -1], [6, -2, -4]])
 
-                            G_+= tensordot(O_, Rus_(m+2), [[-1, -2], [0, 1]])
+                            G_+= tensordot(O_, Rus_(m+2), [[-2, -1], [0, 1]])
                     elif m==i-1:
                         if j==i:
                             # ABHAB
@@ -1484,7 +1484,7 @@ class fMPS(object):
                         else:
                             # AAHAB
                             Q_ = ncon([l(m-1)@Am, Am_1]+[h]+[c(Am), inv_ch_l(m)@c(vL(m+1))],
-                                        [[4, 1, 2], [5, 2, -2], [4, 5, 6, 7], [6, 1, 3], [7, 3, -1]])
+                                        [[4, 1, 2], [5, 2, -2], [6, 7, 4, 5], [6, 1, 3], [7, 3, -1]])
 
                             G_ += tensordot(Q_, ncon([inv_ch_r(m+1), Rus_(m+2)], [[-2, 1], [-1, 1, -3, -4]]), [-1, 0])
                     elif m<i:
@@ -1506,7 +1506,7 @@ class fMPS(object):
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
                 Ru = ncon([pr(j), c(A[j])], [[1, -1, -3, -4], [1, -2, -5]])
-                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -1], [1, -2, -6, -7], [-5, -8]])
+                Rb = ncon([pr(j), pr(j), inv(r(j))], [[-3, -4, 1, -2], [1, -1, -6, -7], [-5, -8]])
 
                 Lbs = self.right_transfer(Lb, i, L-1)
                 Rds = self.left_transfer(Rd, 0, i)
@@ -1531,18 +1531,18 @@ class fMPS(object):
                             if j==i:
                                 # BAHBA
                                 G += ncon([l(m-1)]+[pr(m), inv(r(m))@Am_1@r(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [1, 2, 3, 4], [-1, -2, 3, 6], [4, -3, 7]],
+                                            [[5, 6], [1, 5, -4, -5], [2, -6, 7], [3, 4, 1, 2], [-1, -2, 3, 6], [4, -3, 7]],
                                             [5, 6, 7, 1, 2, 3, 4])
                             elif j==i+1:
                                 # ABHBA
                                 G += ncon([l(m-1)]+[Am, pr(m+1)]+[h]+[pr(m), inv(r(m))@c(Am_1)],
-                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [1, 2, 3, 4], [-1, -2, 3, 5], [4, -3, -6]],
+                                            [[5, 6], [1, 6, 7], [2, 7, -4, -5], [3, 4, 1, 2], [-1, -2, 3, 5], [4, -3, -6]],
                                             [5, 6, 1, 3, 7, 2, 4])
                             else:
                                 # AAHBA
                                 O = ncon([l(m-1)@Am, Am_1]+[h]+[pr(m), inv(r(m))@c(Am_1)],
                                             [[3, 6, 5], [4, 5, -4], [1, 2, 3, 4], [-1, -2, 1, 6], [2, -3, -5]]) #(A)ud
-                                G += tensordot(O, Rus(m+2), [[-1, -2], [0, 1]])
+                                G += tensordot(O, Rus(m+2), [[-2, -1], [0, 1]])
 
                         elif m==i-1:
                             if j==i:
-- 
2.43.0


From 8ed1685c4641311ce0ea88c3db718e4a09833377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 17/93] fix: the memo keys of F1, F2 and christoffel
 distinguish (1, 11) from (11, 1)

---
 xmps/fMPS.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 6bddd44..23bb380 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1390,12 +1390,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F1_tot_ij_mem:
-                return self.F1_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F1_tot_ij_mem:
+                return self.F1_tot_ij_mem[(i_, j_)]
 
             ## have we cached its conjugate?
-            if str(j_)+str(i_) in self.F1_tot_ij_mem:
-                return c(tra(self.F1_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F1_tot_ij_mem:
+                return c(tra(self.F1_tot_ij_mem[(j_, i_)],
                                 [2, 3, 0, 1]))
 
         L, d, A = self.L, self.d, self.data
@@ -1637,7 +1637,7 @@ class fMPS(object):
             return G
 
         G_ = c(tra(G_, [2, 3, 0, 1])) if j_<i_ else G_
-        self.F1_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F1_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def F2(self, i_, j_, H, envs=None, inv_envs=None, prs_vLs=None, fullH=False, testing=False, id=None):
@@ -1654,12 +1654,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i_)+str(j_) in self.F2_tot_ij_mem:
-                return self.F2_tot_ij_mem[str(i_)+str(j_)]
+            if (i_, j_) in self.F2_tot_ij_mem:
+                return self.F2_tot_ij_mem[(i_, j_)]
 
             # have we cached its transpose?
-            if str(j_)+str(i_) in self.F2_tot_ij_mem:
-                return tra(self.F2_tot_ij_mem[str(j_)+str(i_)],
+            if (j_, i_) in self.F2_tot_ij_mem:
+                return tra(self.F2_tot_ij_mem[(j_, i_)],
                            [2, 3, 0, 1])
 
         L, d, A = self.L, self.d, self.data
@@ -1697,13 +1697,13 @@ class fMPS(object):
 
             d, Din_1, Di = self[i].shape
             if not d*Din_1==Di:
-                if str(i)+str(j) not in self.F2_ij_mem:
+                if (i, j) not in self.F2_ij_mem:
                     # new stuff
                     Rj_ = ncon([inv_ch_l(j-1)@c(vL(j)), A[j]@ch_r(j)], [[1, -2, -3], [1, -1, -4]])
                     Rjs_ = self.left_transfer(Rj_, i, j)
-                    self.F2_ij_mem_[str(i)+str(j)] = Rjs_
+                    self.F2_ij_mem_[(i, j)] = Rjs_
                 else:
-                    Rjs_ = self.F2_ij_mem_[str(i)+str(j)]
+                    Rjs_ = self.F2_ij_mem_[(i, j)]
 
                 if str(i) not in self.F2_i_mem:
                     # new stuff
@@ -1801,7 +1801,7 @@ class fMPS(object):
             return G
 
         G_ = tra(G_, [2, 3, 0, 1]) if j_<i_ else G_
-        self.F2_tot_ij_mem[str(i_)+str(j_)] = G_
+        self.F2_tot_ij_mem[(i_, j_)] = G_
         return G_
 
     def christoffel(self, i, j, k, envs=None, prs_vLs=None, id=None, testing=True, closed=(None, None, None)):
@@ -1818,12 +1818,12 @@ class fMPS(object):
         else:
             # read from cache:
             # have we cached this tensor?
-            if str(i)+str(j)+str(k) in self.christ_tot_ij_mem:
-                return self.christ_tot_ij_mem[str(i)+str(j)+str(k)]
+            if (i, j, k) in self.christ_tot_ij_mem:
+                return self.christ_tot_ij_mem[(i, j, k)]
 
             ## have we cached its conjugate?
-            if str(j)+str(i)+str(k) in self.christ_tot_ij_mem:
-                return tra(self.christ_tot_ij_mem[str(j)+str(i)+str(k)],
+            if (j, i, k) in self.christ_tot_ij_mem:
+                return tra(self.christ_tot_ij_mem[(j, i, k)],
                            [3, 4, 5, 0, 1, 2])
 
         L, d, A = self.L, self.d, self.data
@@ -1866,15 +1866,15 @@ class fMPS(object):
                     G = 1j*zeros((*A[i].shape, *A[j].shape, *A[k].shape))
             else:
                 if contracted:
-                    if str(i)+str(j) not in self.christ_ij_mem:
+                    if (i, j) not in self.christ_ij_mem:
                         if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
                             Rs = self.left_transfer(R, i, j)
-                            self.christ_ij_mem[str(i)+str(j)] = Rs
+                            self.christ_ij_mem[(i, j)] = Rs
                     else:
-                        Rs = self.christ_ij_mem[str(i)+str(j)]
+                        Rs = self.christ_ij_mem[(i, j)]
 
                     G = ncon([pr(i), closed[-1]@inv(r(i)), Rs(i+1), inv(r(i))], [[-1, -2, 1, 2], [1, 2, 3], [3, 4, -4, -5, -6], [4, -3]],
                              [1, 2, 3, 4])
@@ -1902,7 +1902,7 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[str(i)+str(j)+str(k)] = Γ_c
+        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From fabecb16b0cdd77f6d8f7cbea7d09ddc1d1df190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 18/93] fix: the left eigenmatrix comes with its own
 eigenvalue, not the conjugate

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 2212f12..0618dd1 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -294,7 +294,7 @@ def l_eigenmatrix(M):
     e, v = arnoldi(M.conj().T, k=1, which='LM')
     e_max, v_max = squeeze(e), rotate_to_hermitian(v.reshape(K, K))/sign(v[0])
 
-    return e_max, v_max.conj()
+    return e_max.conj(), v_max.conj()
 
 def rank(M_diag):
     """rank: return number of non zero elements on diagonal of diagonal matrix
-- 
2.43.0


From 2bcb454d871ca54fb365f134bfbb8003b1787e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 19/93] fix: the derivative of a doubled state evolves both
 copies of the same two sites

---
 xmps/fMPS.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 23bb380..ae1feeb 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2178,9 +2178,14 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
-        return dA_dt
+        d = int(sqrt(self.d))
+        def double(h, n):
+            # h on both copies of n sites, physical indices ordered site by site
+            h = (kron(eye(len(h)), h)+kron(h, eye(len(h)))).reshape([d]*(4*n))
+            order = [i for m in range(n) for i in (m, n+m)]
+            return h.transpose(order+[2*n+i for i in order]).reshape(d**(2*n), d**(2*n))
+        H_ = double(H, self.L) if fullH else [double(h, 2) for h in H]
+        return super().dA_dt(H_, fullH=fullH)
 
     def E(self, op, site, lr=0):
         """E: one site expectation value
-- 
2.43.0


From 28315b47e90d726c735c64eaed7f9eed2393b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:46 +0000
Subject: [PATCH 20/93] fix: the project copy of the doubled state uses the
 operator, not its transpose, and evolves both copies

---
 xmps/projects/fTFD.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index d45c0c2..5cb5e3e 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -124,9 +124,14 @@ class fTFD(fMPS):
         return pr
 
     def dA_dt(self, H, fullH=False):
-        H_ = [(kron(eye(len(h)), h)+kron(h, eye(len(h)))) for h in H]
-        dA_dt = super().dA_dt(H_, fullH)
-        return dA_dt
+        d = int(sqrt(self.d))
+        def double(h, n):
+            # h on both copies of n sites, physical indices ordered site by site
+            h = (kron(eye(len(h)), h)+kron(h, eye(len(h)))).reshape([d]*(4*n))
+            order = [i for m in range(n) for i in (m, n+m)]
+            return h.transpose(order+[2*n+i for i in order]).reshape(d**(2*n), d**(2*n))
+        H_ = double(H, self.L) if fullH else [double(h, 2) for h in H]
+        return super().dA_dt(H_, fullH=fullH)
 
     def E(self, op, site):
         """E: one site expectation value
@@ -136,12 +141,12 @@ class fTFD(fMPS):
         """
         op = kron(op, eye(len(op)))
         M = self.mixed_canonicalise(site)[site]
-        return trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
 
     def Es(self, ops, site):
         ops = [kron(op, eye(len(op))) for op in ops]
         M = self.mixed_canonicalise(site)[site]
-        return [trace(sum(cT(M)@tensordot(op, M, [0, 0]), axis=0))
+        return [trace(sum(cT(M)@tensordot(op, M, [1, 0]), axis=0))
                 for op in ops]
 
 class testfTFD(unittest.TestCase):
-- 
2.43.0


From 7f5089445716502596558c1a2ec6d12e42437190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 21/93] fix: the local overlap of a doubled state checks the
 class of its argument, not a string

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ae1feeb..e74c555 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2125,7 +2125,7 @@ class fTFD(fMPS):
         partition should be contiguous
         should be local overlap with fMPS (NOT fTFD)
         """
-        if not isinstance(other, 'fMPS'):
+        if not isinstance(other, fMPS):
             raise NotImplementedError('other should be an fMPS, set double to get the overlap with the embedded fTFD')
         if not other.bond_dimension == 1:
             raise NotImplementedError('Only implemented local overlaps for <ψψ|data>')
-- 
2.43.0


From 288d55cd7ed2057cf8d1c2b8648d5b540bd5229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 22/93] fix: tangent vectors and the Jacobian skip the sites
 without tangent directions wherever they are

---
 xmps/fMPS.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e74c555..81f4c6a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1334,8 +1334,8 @@ class fMPS(object):
         def F2(i, k): return -1j*self.F2(i, k, H, envs=(l, r), inv_envs=inv_envs, prs_vLs=prs_vLs, id=id)
 
         sh = self.tangent_space_dims(l, vLs=vLs)
-        nulls = len([1 for (a, b) in sh if a==0 or b==0])
-        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and a!=0]))
+        sites = [n for n, (a, b) in enumerate(sh) if a!=0 and b!=0]
+        shapes = list(cs([prod([a, b]) for (a, b) in sh if a!=0 and b!=0]))
         DD = shapes[-1]
         def ind(i):
             slices = [slice(a[0], a[1], 1)
@@ -1347,7 +1347,7 @@ class fMPS(object):
         Γ2_ = -1j*zeros((DD, DD))
         for i_ in range(len(shapes)):
             for j_ in range(len(shapes)):
-                i, j = i_+nulls, j_+nulls
+                i, j = sites[i_], sites[j_]
 
                 J1_ij = F1(i,j)
                 J2_ij = F2(i, j)
@@ -2014,14 +2014,11 @@ class fMPS(object):
     def import_tangent_vector(self, v, xs=False):
         l, r = self.get_envs()
         vLs, shapes = self.tangent_space_dims(l, get_vLs=True)
-        vLs = [vL for vL in vLs if prod(vL.shape)!=0]
-        S = [shape for shape in shapes if prod(shape)!=0]
-        nulls = len([shape for shape in shapes if prod(shape)==0])
-        vs = chop(v, cs([prod(s) for s in S]))
-        xs = [x.reshape(*shape) for x, shape in zip(vs, S)]
-        l_, r_ = lambda n: l(n+nulls), lambda n: r(n+nulls)
-        Bs = [zl(A) for A in self.data[:nulls]] + \
-             [inv(ch(l_(n-1)))@vL@x@inv(ch(r_(n))) for n, (vL, x) in enumerate(zip(vLs, xs))]
+        Bs = [zl(A) for A in self.data]
+        sites = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
+        vs = chop(v, cs([prod(shapes[n]) for n in sites]))
+        for n, x in zip(sites, vs):
+            Bs[n] = inv(ch(l(n-1)))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
-- 
2.43.0


From ba0b4bfb812f444a106e4426f6fc84d1b0221e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 23/93] fix: ddA_dt closes the derivative tensors with the
 environments of the tangent vector

---
 xmps/fMPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 81f4c6a..ee3243f 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1257,6 +1257,7 @@ class fMPS(object):
         # down are the tensors acting on c(Aj), up act on Aj
         up, down = self.jac(H, False)
 
+        dA = [l(j-1)@dA[j]@r(j) for j in range(L)]
         ddA = [sum([td(down(i, j), c(dA[j]), [[3, 4, 5], [0, 1, 2]]) +
                     td(up(i, j),     dA[j],  [[3, 4, 5], [0, 1, 2]]) for j in range(L)], axis=0)
                for i in range(L)]
-- 
2.43.0


From 44eb77d87091adb31707850f73590c9b6ee96d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 24/93] fix: tangent_state builds the null space it was not
 given

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ee3243f..68dcc93 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1942,7 +1942,7 @@ class fMPS(object):
 
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
-        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else 1, vL
+        _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else (1, vL)
         return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
-- 
2.43.0


From 806eefa5da898489bd2dd28e7bb44525eae3b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 25/93] fix: F1 reshapes the Hamiltonian with the local
 dimension of the state

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 68dcc93..ccbf879 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1424,7 +1424,7 @@ class fMPS(object):
             d, Din_1, Di = self[i].shape
 
             if not d*Din_1==Di:
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
                 if str(i) not in self.F1_i_mem_:
                     # compute i properties, and store in cache
                     Rd_ = ncon([inv_ch_l(i-1)@c(vL(i)), A[i]], [[1, -2, -3], [1, -1, -4]])
@@ -1502,7 +1502,7 @@ class fMPS(object):
             if testing:
                 G = 1j*zeros((*A[i].shape, *A[j].shape))
                 d, Din_1, Di = self[i].shape
-                H = [h.reshape(2, 2, 2, 2) for h in H]
+                H = [h.reshape(*[self.d]*4) for h in H]
 
                 Rd = ncon([pr(i), A[i]], [[-3, -4, 1, -2], [1, -1, -5]])
                 Lb = ncon([l(i-1)]+[pr(i), pr(i), inv(r(i)), inv(r(i))], [[2, 3], [-1, -2, 1, 2], [1, 3, -4, -5], [-3, -7], [-6, -8]])
-- 
2.43.0


From 9dab8f8c8efa1200a98ed4733968032262307d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 26/93] fix: closed Christoffel tensors are not read from or
 written to the memo of open ones

---
 xmps/fMPS.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index ccbf879..f5bdc9b 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1810,13 +1810,14 @@ class fMPS(object):
            Close indices i, j, k, with elements of closed tuple: i.e. (B_i, B_j, B_k).
            Will leave any indices marked none open :-<d_id_jψ|d_kψ>"""
         id = id if id is not None else uuid.uuid4().hex
+        is_open = all([B is None for B in closed]) # the closing tensors are not part of the key
         if self.id__ != id:
             self.id__ = id
             # initialize the memories
             # we only don't try the cache on the first call from jac
             self.christ_ij_mem = {}
             self.christ_tot_ij_mem = {}
-        else:
+        elif is_open:
             # read from cache:
             # have we cached this tensor?
             if (i, j, k) in self.christ_tot_ij_mem:
@@ -1825,7 +1826,7 @@ class fMPS(object):
             ## have we cached its conjugate?
             if (j, i, k) in self.christ_tot_ij_mem:
                 return tra(self.christ_tot_ij_mem[(j, i, k)],
-                           [3, 4, 5, 0, 1, 2])
+                           [3, 4, 5, 0, 1, 2, 6, 7, 8])
 
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs() if envs is None else envs
@@ -1903,7 +1904,8 @@ class fMPS(object):
         else:
             Γ_c = Γ(i, j, k)
 
-        self.christ_tot_ij_mem[(i, j, k)] = Γ_c
+        if is_open:
+            self.christ_tot_ij_mem[(i, j, k)] = Γ_c
         if contracted:
             return ungauge(Γ_c, i, j, (True, True))
         else:
-- 
2.43.0


From e6e51cffdb573fd6756ae002a809de05703e3205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 27/93] fix: christoffel uses the transfers cached by dA_dt
 only for the tensors they were computed for

---
 xmps/fMPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f5bdc9b..a7eae2e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1187,7 +1187,7 @@ class fMPS(object):
         :param self: matrix product state @ current time
         :param H: Hamiltonian
         """
-        self.dA_cache = {}
+        self.dA_cache = {'A': list(self.data)} # the cache is good for these tensors
         L, d, A = self.L, self.d, self.data
         l, r = self.get_envs(True)
         prs_vLs = [self.left_null_projector(n, l, get_vL=True) for n in range(self.L)] if prs_vLs is None else prs_vLs
@@ -1869,7 +1869,7 @@ class fMPS(object):
             else:
                 if contracted:
                     if (i, j) not in self.christ_ij_mem:
-                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache:
+                        if hasattr(self, 'dA_cache') and str(j) in self.dA_cache and all([a is b for a, b in zip(A, self.dA_cache['A'])]):
                             Rs = self.dA_cache[str(j)]
                         else:
                             R = ncon([pr(j), A[j]], [[-3, -4, 1, -2], [1, -1, -5]])
-- 
2.43.0


From 22f5d982ca9e6e9dcb6fd9b33020f855ba335da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:14 +0000
Subject: [PATCH 28/93] fix: third Runge-Kutta stage of infinite trajectories
 was multiplied by dt twice

---
 xmps/iTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index faf1957..53bff60 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -69,7 +69,7 @@ class Trajectory(object):
             self.Ds.append(mps.D)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
-        k3 = (mps+k2/2*dt).dA_dt(H)*dt
+        k3 = (mps+k2/2*dt).dA_dt(H)
         k4 = (mps+k3*dt).dA_dt(H)
 
         return (mps+(k1+2*k2+2*k3+k4)*dt/6).left_canonicalise()
-- 
2.43.0


From c26e95107fdd653fc47be275348b64c05abe377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 29/93] fix: every recorded state of a finite trajectory gets
 its own bond dimension (histories made from ed_history, after clear, lyapunov
 or a changed mps decoded with stale ones)

---
 xmps/fTDVP.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c804f38..7d4b711 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -66,18 +66,23 @@ class Trajectory(object):
         self.run_name = run_name
         self.continuous = continuous
 
+    def record(self, mps):
+        """record: add mps to the history, with the bond dimension to decode it
+        """
+        self.mps_history.append(mps.serialize(real=True))
+        # Ds[k] belongs to mps_history[k], the last one to the state still to come
+        self.Ds[len(self.mps_history)-1:] = [mps.D, mps.D]
+
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         return (mps + mps.dA_dt(H, fullH=self.fullH)*dt).left_canonicalise(mps.D)
 
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         k1 = mps.dA_dt(H, fullH=self.fullH)*dt
         k2 = (mps+k1/2).dA_dt(H, fullH=self.fullH)*dt
         k3 = (mps+k2/2).dA_dt(H, fullH=self.fullH)*dt
@@ -88,8 +93,7 @@ class Trajectory(object):
     def invfree(self, mps, dt, W=None, store=True):
         W = W if W is not None else self.W
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         A = tdvp(mps.data, W, 1j*dt/2)
@@ -99,8 +103,7 @@ class Trajectory(object):
         """invfree4 fourth order symmetric composition
         """
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         if self.continuous:
             A_old = mps.copy()
         a1, a2, a3 = b5, b4, b3 = (146+5*sqrt(19)) / \
@@ -489,7 +492,7 @@ class Trajectory(object):
             for x in tqdm(self.ed_history):
                 mps = fMPS().left_from_state(
                     x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+                self.record(mps)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
@@ -499,7 +502,7 @@ class Trajectory(object):
             for x in self.ed_history:
                 mps = fMPS().left_from_state(
                     x.reshape([self.mps.d]*self.mps.L)).left_canonicalise()
-                self.mps_history.append(mps.serialize(real=True))
+                self.record(mps)
         assert self.mps_history
         L, d, D = self.mps.L, self.mps.d, self.mps.D
         return array([mps.Es(ops, site)
-- 
2.43.0


From ea15e88ae34523e5fad26804e6451c46840e50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 30/93] fix: odeint uses an undefined name, and recorded no
 bond dimensions for its history

---
 xmps/fTDVP.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 7d4b711..f85e321 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -33,6 +33,7 @@ import numpy as np
 
 from scipy.linalg import sqrtm, expm, norm, null_space as null, cholesky as ch
 from scipy.sparse.linalg import expm_multiply, expm
+from scipy.integrate import solve_ivp
 
 from matplotlib import pyplot as plt
 from functools import reduce
@@ -224,7 +225,8 @@ class Trajectory(object):
         traj = Q.y.T
         bar.close()
 
-        self.mps_history = traj
+        self.mps_history = list(traj)
+        self.Ds = [D]*(len(traj)+1)
         self.mps = fMPS().deserialize(traj[-1], L, d, D, real=True)
         return self
 
-- 
2.43.0


From ef1ae6b6eb1c1b05aad198539dbb330ffffe020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 31/93] fix: deserialize and loschmidt decode every state of a
 trajectory with its own bond dimension

---
 xmps/fTDVP.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index f85e321..c21a975 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -524,8 +524,8 @@ class Trajectory(object):
         return self.ed_evs([H])
 
     def deserialize(self):
-        L, d, D = self.mps.L, self.mps.d, self.mps.D
-        return list(map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history))
+        L, d = self.mps.L, self.mps.d
+        return [fMPS().deserialize(x, L, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)]
 
     def schmidts(self):
         if hasattr(self, 'ed_history'):
@@ -556,10 +556,10 @@ class Trajectory(object):
             return sch
         else:
             assert self.mps_history
-            L, d, D = self.mps.L, self.mps.d, self.mps.D
-            psi_0 = fMPS().deserialize(self.mps_history[0], L, d, D, real=True)
+            mpss = self.deserialize()
+            psi_0 = mpss[0]
             lss = []
-            for psi in map(lambda x: fMPS().deserialize(x, L, d, D, real=True), self.mps_history):
+            for psi in mpss:
                 lss.append(np.abs(psi_0.overlap(psi)))
             return lss
 
-- 
2.43.0


From 83f9f978070defdd834f72ecbc7975912cba0301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 32/93] fix: loschmidt of an exact trajectory returned Schmidt
 values

---
 xmps/fTDVP.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index c21a975..0b2e8cc 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -547,13 +547,8 @@ class Trajectory(object):
 
     def loschmidt(self):
         if hasattr(self, 'ed_history'):
-            sch = []
-            mpss = []
-            print('calculating mps from ed...')
-            for x in tqdm(self.ed_history):
-                mps = fMPS().left_from_state(x.reshape([self.mps.d]*self.mps.L))
-                sch.append([diag(x) for x in mps.left_canonicalise().Ls])
-            return sch
+            psi_0 = self.ed_history[0]
+            return [np.abs(psi_0.conj()@psi) for psi in self.ed_history]
         else:
             assert self.mps_history
             mpss = self.deserialize()
-- 
2.43.0


From c2e5bf7ce87c7cf6ef61f1613971db7e52fcce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 33/93] fix: Trajectory.dynamical_expand ignored the
 Hamiltonian it was given

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 0b2e8cc..976524a 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -178,7 +178,7 @@ class Trajectory(object):
         assert self.H is not None or H is not None
         H = self.H if H is None and self.H is not None else H
 
-        self.mps.dynamical_expand(self.H, dt, D, None)
+        self.mps.dynamical_expand(H, dt, D, None)
         self.Ds[-1] = D
         return self
 
-- 
2.43.0


From 2306b5e98b59edc53a533a840f795a9447d6f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 34/93] fix: clearing a trajectory kept the bond dimensions of
 the cleared history

---
 xmps/fTDVP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 976524a..a80aeae 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -575,6 +575,7 @@ class Trajectory(object):
     def clear(self):
         self.mps_history = []
         self.mps = self.mps_0.copy()
+        self.Ds = [self.mps.D]
         if hasattr(self, 'lys'):
             delattr(self, 'lys')
 
-- 
2.43.0


From 5fc63e6fb047d2416eacb3caa9e4ed879bfbaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 35/93] fix: a copied trajectory shared its history with the
 original

---
 xmps/fTDVP.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index a80aeae..ebe5496 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -646,4 +646,8 @@ class Trajectory(object):
             glob.glob(os.path.join(self.run_dir, '*state*')))
 
     def copy(self):
-        return copy(self)
+        new = copy(self)
+        # the copy records its own history
+        new.mps_history, new.Ds = list(self.mps_history), list(self.Ds)
+        new.mps = self.mps.copy() if self.mps is not None else None
+        return new
-- 
2.43.0


From 9488430c5eb259d049e4bdebd37b3c6d2865445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 36/93] fix: stop failed for trajectories that never ran
 lyapunov

---
 xmps/fTDVP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index ebe5496..e1fa816 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -66,6 +66,7 @@ class Trajectory(object):
         self.mps_history = []
         self.run_name = run_name
         self.continuous = continuous
+        self.has_run_lyapunov = False
 
     def record(self, mps):
         """record: add mps to the history, with the bond dimension to decode it
-- 
2.43.0


From 5d96ecfdbe51bd9a31aadb040f358aab7a101617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 37/93] fix: save wrote the final state of a top-vector run to
 a path starting with 'loc'

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index e1fa816..280c398 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -590,7 +590,7 @@ class Trajectory(object):
         if exps:
             if hasattr(self, 'q'):
                 save(loc+'bases/'+self.id+'_basis', self.q)
-                self.mps.store('loc'+'bases/'+self.id+'_state')
+                self.mps.store(loc+'bases/'+self.id+'_state')
             elif hasattr(self, 'Q'):
                 save(loc+'bases/'+self.id+'_basis', self.Q)
                 self.mps.store(loc+'bases/'+self.id+'_state')
-- 
2.43.0


From 42f63d2c2edd79bc5c2cca19e21c604ec2007e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 38/93] fix: diagonalise orders eigenvalues and returns
 orthonormal eigenvectors (canonical forms of rank-deficient states could
 become zero, of states with degenerate Schmidt values lost their gauge)

---
 xmps/tensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 0618dd1..31fa820 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -236,10 +236,10 @@ def tr_svd(A, D):
     return U[:, :D], diag(s[:D]), V[:D, :]
 
 def diagonalise(M):
-    """diagonalise: wrap eig better
-       :param M: matrix to diagonalise """
-    S, V = neig(M)
-    return (V, diag(S))
+    """diagonalise: wrap eigh better, largest eigenvalue first
+       :param M: hermitian matrix to diagonalise """
+    S, V = np.linalg.eigh(M)
+    return (V[:, ::-1], diag(S[::-1]))
 
 def rotate_to_hermitian(r, testing=False, ret_phase=False):
     """rotate_to_hermitian: arnoldi returns matrices that are hermitian up
-- 
2.43.0


From 1320f061944dcbff1640144797c527575d603371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 39/93] fix: canonicalising leaves the recorded bond dimension
 that of the tensors

---
 xmps/fMPS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index a7eae2e..f2f47fc 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -535,6 +535,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
+        self.D = self.bond_dimension
         self.canonical = True
         self.orthogonal = True
         self.oc = 0
@@ -613,6 +614,7 @@ class fMPS(object):
                 and self.is_full_rank\
                 and self.has_trace_1
 
+        self.D = self.bond_dimension
         self.canonical=True
         self.orthogonal=True
         self.oc = self.L
@@ -649,6 +651,7 @@ class fMPS(object):
             self.ok = self.ok and is_left_canonical(self.data[:oc])\
                               and is_right_canonical(self.data[oc+1:])
 
+        self.D = self.bond_dimension
         self.canonical = True
         self.orthogonal = True
         return self
-- 
2.43.0


From fb06ad7ef55f47addda91dcbbb28c92931c43c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 40/93] fix: Hamiltonian leaves the caller's dictionary of
 terms alone

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 28a145f..11086d6 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -18,7 +18,7 @@ class Hamiltonian(object):
 
     def __init__(self, strings=None, matrices=None, d=2):
         if strings is not None:
-            self.strings = strings
+            self.strings = dict(strings)
             for key, val in {key:val for key, val in self.strings.items()}.items():
                 if len(key)==1:
                     self.strings['I'+key] = val
-- 
2.43.0


From 8ca1a07e99d00c3c60216b51ba60c69aa5d45df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 41/93] fix: the fields of a two-site chain are not halved

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 11086d6..ab14098 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -115,7 +115,7 @@ class Hamiltonian(object):
         H_L = Hamiltonian(h_L_strings)._squeeze()
         H_i = Hamiltonian(h_i_strings)._squeeze()
         if L==2:
-            return [H_i.to_matrix()]
+            return [self.to_matrix()]
         elif L==3:
             return [H_0.to_matrix()] + [H_L.to_matrix()]
         else:
-- 
2.43.0


From 8c3e5a63f2e41feaeaf943b5a7fa97d8ab6d0076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 42/93] fix: from_matrix multiplied strings instead of Pauli
 matrices and lacked the normalisation

---
 xmps/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index ab14098..ebfe8f7 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -124,7 +124,7 @@ class Hamiltonian(object):
     def from_matrix(self, mat):
         xyz = list(S.keys())
         strings = list(product(xyz, xyz))
-        self.strings = {a+b:trace(kron(a, b)@mat) for a, b in strings}
+        self.strings = {a+b:trace(kron(S[a], S[b])@mat)/4 for a, b in strings}
         del self.strings['II']
         return self
 
-- 
2.43.0


From c04c94013ce45daa440a77ae6d2572bfa4189061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 43/93] fix: to_full works for Hamiltonians given as strings
 and for every local dimension

---
 xmps/Hamiltonians.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index ebfe8f7..0ee2425 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -24,8 +24,8 @@ class Hamiltonian(object):
                     self.strings['I'+key] = val
                     self.strings[key+'I'] = val
                     self.strings.pop(key)
+        self.d = d # local hilbert space dimension
         if matrices is not None:
-            self.d = d # local hilbert space dimension
             self.matrices = matrices
 
     @property
@@ -136,7 +136,8 @@ class Hamiltonian(object):
             else:
                 raise Exception('No strings or matrices')
         if self.has_matrices:
-            total = np.zeros((2**self.L, 2**self.L))*1j
+            I = np.eye(self.d)
+            total = np.zeros((self.d**self.L, self.d**self.L))*1j
             for i, matrix in enumerate(self.matrices):
                 total += reduce(np.kron, [I]*i+[matrix]+[I]*(self.L-self.k-i))
             return total
-- 
2.43.0


From 5fc9dfe0031b4d3ce0be5fbd88171c6a4f030083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 44/93] fix: to_full of a second length returned the matrix of
 the first

---
 xmps/Hamiltonians.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index 0ee2425..d73c77f 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -129,12 +129,11 @@ class Hamiltonian(object):
         return self
 
     def to_full(self, L=None):
-        if not self.has_matrices:
-            if self.has_strings:
-                assert L is not None
-                self.matrices = self.to_matrices(L)
-            else:
-                raise Exception('No strings or matrices')
+        if self.has_strings and (L is not None or not self.has_matrices):
+            assert L is not None
+            self.matrices = self.to_matrices(L)
+        elif not self.has_matrices:
+            raise Exception('No strings or matrices')
         if self.has_matrices:
             I = np.eye(self.d)
             total = np.zeros((self.d**self.L, self.d**self.L))*1j
-- 
2.43.0


From da9fad1547bc9f722c236e237d927974f991ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 45/93] fix: the number of sites of a Hamiltonian matrix is
 rounded, not cut off (log(243, 3) < 5)

---
 xmps/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/Hamiltonians.py b/xmps/Hamiltonians.py
index d73c77f..f41c413 100644
--- a/xmps/Hamiltonians.py
+++ b/xmps/Hamiltonians.py
@@ -41,8 +41,8 @@ class Hamiltonian(object):
         if self.has_matrices:
             dk = self.matrices[0].shape[0]
             k = math.log(dk, self.d)
-            assert np.allclose(k, int(k))
-            return int(k)
+            assert np.allclose(k, round(k))
+            return round(k)
     @property
     def L(self):
         if not self.has_matrices:
-- 
2.43.0


From b043fdf20084f5e0e2035fff23cfda61edac69dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 46/93] fix: swap_antisymmetrise returned the symmetric part

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index 2629c62..b2d4472 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -66,13 +66,13 @@ def partial_trace(rho, keep, dims, optimize=False):
     return rho_a.reshape(Nkeep, Nkeep)
 
 def is_swap_symmetric(U):
-    return allclose(U-swap_antisymmetrise(U), 0)
+    return allclose(swap_antisymmetrise(U), 0)
 
 def swap_symmetrise(U):
     return (U+swap()@U@swap())/2
 
 def swap_antisymmetrise(U):
-    return (U+swap()@U@swap())/2
+    return (U-swap()@U@swap())/2
 
 def swap():
     return array([[1, 0, 0, 0],
-- 
2.43.0


From c743de4f00f1e52ec6247941122a9655bef166ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 47/93] fix: U1 and U2 indexed the function that makes the
 local generators

---
 xmps/spin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/spin.py b/xmps/spin.py
index b2d4472..5efe3e3 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -509,12 +509,12 @@ def locals():
 def U1(v):
     """U1 local unitary
     """
-    return expm(-1j*tensordot(v, locals[:3], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[:3], [0, 0]))
 
 def U2(v):
     """U2 local unitary
     """
-    return expm(-1j*tensordot(v, locals[3:], [0, 0]))
+    return expm(-1j*tensordot(v, locals()[3:], [0, 0]))
 
 def U4(v):
     """U4 two site unitary
-- 
2.43.0


From 8014fcc674b2e325156f13b28929a854901cc69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 48/93] fix: loc_3 and split_up_3 exchanged the second and
 third factor and assumed local dimension two

---
 xmps/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 31fa820..f0acfc6 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -408,7 +408,7 @@ def loc_3(rs, tu, vw, d):
     v, w = vw
     t, u  = tu
 
-    index = (d**2*r + d*v+t, d**2*s + d*w + u)
+    index = (d**2*r + d*t + v, d**2*s + d*u + w)
     return index
 
 def split_up_3(H, d):
@@ -419,7 +419,7 @@ def split_up_3(H, d):
                 for l in range(d):
                     for m in range(d):
                         for n in range(d):
-                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), 2)]
+                            h[i, j, k, l, m, n] = H[loc_3((i, j), (k, l), (m, n), d)]
     return h
 
 def split_up(H, d=None, p=None, q=None):
-- 
2.43.0


From a0d0ae45d5dc6203bc7d0b68796895f406d6b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 49/93] fix: split_up failed when the second factor is given by
 p and q

---
 xmps/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index f0acfc6..0ddb1e5 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -434,6 +434,7 @@ def split_up(H, d=None, p=None, q=None):
     if d is None:
         if p is None and q is None:
             raise Exception
+        d = H.shape[0]//p
 
     h = zeros((d, d, p, q)) + 1j*zeros((d, d, p, q))
     for i in range(d):
-- 
2.43.0


From 3d5f7b8a85e5150b267832c4cf253cfc82cf7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 50/93] fix: direct_sum failed for matrices that are not square

---
 xmps/tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 0ddb1e5..0fd0195 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -77,8 +77,7 @@ def eye_like(A):
 
 def direct_sum(A, B):
     (a1, a2), (b1, b2) = A.shape, B.shape
-    O = zeros((a2, b1))
-    return block([[A, O], [O.T, B]])
+    return block([[A, zeros((a1, b2))], [zeros((b1, a2)), B]])
     
 def haar_unitary(n):
     return qr(randn(n, n)+1j*randn(n, n))[0]
-- 
2.43.0


From 31dbd85ccea9333e9c0cbd07dbe51852d049eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 51/93] fix: lanczos_expm without expokitpy failed

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 0fd0195..237ccfd 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -31,7 +31,7 @@ try:
         return output_vec
 except:
     def lanczos_expm(A, v, t):
-        return expm_multiply(A, v, t)
+        return expm_multiply(t*A, v)
 
 def embed(v):
     '''put matrix in form
-- 
2.43.0


From 678a7145a2954231d3c7a1941472e085d514db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 52/93] fix: fPEPS made from data exchanged the recorded width
 and height

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index c629764..0decf9a 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -256,8 +256,8 @@ class fPEPS(object):
 
     def __init__(self, data=None, d=None, X=None):
         if data is not None:
-            self.Lx = len(data)
-            self.Ly = len(data[0])
+            self.Ly = len(data)
+            self.Lx = len(data[0])
             if d is not None:
                 self.d = d
             else:
-- 
2.43.0


From 37b4c61d94611600f97457cdc4b081eaa6a8c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 53/93] fix: truncate_below and truncate_left exchanged width
 and height

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 0decf9a..394a478 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -421,7 +421,7 @@ class fPEPS(object):
 
     def truncate_below(self, row, D):
         '''truncate bonds below row to size D'''
-        if row == self.Lx-1:
+        if row == self.Ly-1:
             raise Exception('nothing below row L-1')
         self.data[row] = [x[:, :, :, :D, :] for x in self.data[row]]
         self.data[row+1] = [x[:, :D, :, :, :] for x in self.data[row+1]]
@@ -430,7 +430,7 @@ class fPEPS(object):
     def truncate_left(self, col, D):
         if col == 0:
             raise Exception('nothing to the left of col 0')
-        for row in range(self.Lx):
+        for row in range(self.Ly):
             self.data[row][col] = self.data[row][col][:, :, :, :, :D]
             self.data[row][col-1] = self.data[row][col-1][:, :, :D, :, :]
         return self
-- 
2.43.0


From 6e6b22e20616394b4749be39dbd9a265b386a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 54/93] fix: fPEPS.normalise divided the caller's array in
 place (also that of transposed networks)

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 394a478..888f502 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -635,7 +635,7 @@ class fPEPS(object):
         if self.bond_dimension==1:
             self.data = [[x/norm(x) for x in row] for row in self.data]
         else:
-            self.data[0][0] /= self.norm()
+            self.data[0][0] = self.data[0][0]/self.norm()
         return self
 
     def norm(self):
-- 
2.43.0


From 2c233696503e8a9bbe9468b303cc19290b7bbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 55/93] fix: recombine in snake order contracted reversed rows
 with the wrong bonds

---
 xmps/fPEPS.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 888f502..47028fd 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -649,15 +649,10 @@ class fPEPS(object):
             res = reduce(col_contract, cols)
             return np.squeeze(res)
         elif qubit_ordering == 'row_snake':
-            cols = []
-            for i, row in enumerate(self.data):
-                if i % 2 == 0:
-                    cols.append(reduce(row_contract, row))
-                else:
-                    cols.append(
-                        reduce(row_contract, [x.transpose([0, 1, 4, 3, 2]) for x in row[::-1]]))
-            res = reduce(col_contract, cols)
-            return np.squeeze(res)
+            sites = np.arange(self.Lx*self.Ly).reshape(self.Ly, self.Lx)
+            order = flatten([list(row[::(-1)**j]) for j, row in enumerate(sites)])
+            shape = [x.shape[0] for x in flatten(self.data)]
+            return self.recombine().reshape(shape).transpose(order).reshape(-1)
 
     def environment(self, site):
         # this is a mess.
-- 
2.43.0


From c479265cb98df6633d7c350f3eef048ee7b8065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 56/93] fix: col_mpos ignored the other network

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 47028fd..453a49f 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -364,7 +364,7 @@ class fPEPS(object):
             for row, other_row in zip(self.data, other.data)]
 
     def col_mpos(self, other=None):
-        return self.T.row_mpos(None)
+        return self.T.row_mpos(other.T if other is not None else None)
 
     @property
     def T(self):
-- 
2.43.0


From 9ae3e43f6787ae5187761655e1a635c5acc9e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 57/93] fix: tm called a function that does not exist

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 453a49f..698298e 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -704,7 +704,7 @@ class fPEPS(object):
     def tm(self, site):
         i, j = site
         A = B = self.data[i][j]
-        return transfer_matrix(A)
+        return transfer_tensor(A)
 
     def apply(self, op, site):
         # indices go (across, down) from top left
-- 
2.43.0


From 9a6fbd533d60336e9d418ee4ceb51bdf27e64f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 58/93] fix: fPEPS.copy ignored the data it was given

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 698298e..38c62a7 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -908,7 +908,7 @@ class fPEPS(object):
     def copy(self, data=None):
         # copy self (or data) into new fPEPS with all of the stuff this fPEPS has (oc, X, d, etc.)
         data = self.data if data is None else data
-        ret = fPEPS([[x.copy() for x in row] for row in self.data])
+        ret = fPEPS([[x.copy() for x in row] for row in data])
         if hasattr(self, 'oc'):
             ret.oc = self.oc
         if hasattr(self, 'X'):
-- 
2.43.0


From b3727e051cb47856304dd0bc435186e3024212ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 59/93] fix: fMPO of one site could not be recombined or made
 trivial, trivial recorded no length

---
 xmps/fPEPS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 38c62a7..a74a458 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -214,6 +214,8 @@ class fMPO(object):
             2
 
         """
+        if L == 1:
+            return [(d, 1, d, 1)]
         return [(d, X, d, 1)]+[(d, X, d, X) for _ in range(L-2)] + [(d, 1, d, X)]
 
     def structure(self):
@@ -231,6 +233,7 @@ class fMPO(object):
     def trivial(self, L):
         self.data = [np.ones(shape)
                      for shape in self.create_structure(L, 1, 1)]
+        self.L = L
         self.d = 1
         self.X = 1
         return self
@@ -243,7 +246,7 @@ class fMPO(object):
         return self
 
     def recombine(self):
-        ncon_indices = [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
+        ncon_indices = [[-1, 1, -2, 1]] if self.L == 1 else [[-1, 1, -self.L-1, self.L+1]]+[[-n-2, n+2, -self.L-2-n, n+1]
                                                        for n in range(self.L-2)] + [[-self.L, self.L+1, -2*self.L, self.L-1]]
         M = ncon(self.data, ncon_indices)
         M = M.reshape(np.prod(M.shape[:self.L]), np.prod(M.shape[self.L:]))
-- 
2.43.0


From 2e3831126cd8359d1ae8d4333de534a2d45dc3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 60/93] fix: from_mps into a single column put the horizontal
 bonds of the chain on the wrong legs

---
 xmps/fPEPS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index a74a458..f3e21a6 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -581,7 +581,7 @@ class fPEPS(object):
             Ly = Lx = int(Lx)
         else:
             Ly = mps.L/Lx
-            assert np.allclose(int(Lx), Lx)
+            assert np.allclose(int(Ly), Ly)
             Ly = int(Ly)
             Lx = int(Lx)
 
@@ -595,7 +595,9 @@ class fPEPS(object):
         for i in range(Lx):
             for j in range(Ly):
                 d, X1, X2 = reshaped[j][i].shape
-                if j % 2 == 0:
+                if Lx == 1:
+                    reshaped[j][i] = reshaped[j][i].reshape(d, X1, 1, X2, 1)
+                elif j % 2 == 0:
                     # going right
                     if i == Lx-1:
                         reshaped[j][i] = T(reshaped[j][i]).reshape(
-- 
2.43.0


From fcb78472472097b143f5061e809c80969fbabb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 61/93] fix: the matrix-product operator made from a state
 encoded its conjugate

---
 xmps/fPEPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index f3e21a6..d5d4371 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -239,7 +239,7 @@ class fMPO(object):
         return self
 
     def from_mps(self, mps):
-        self.data = [np.expand_dims(x.transpose([2, 0, 1]), 0) for x in mps]
+        self.data = [np.expand_dims(x.conj().transpose([2, 0, 1]), 0) for x in mps]
         self.L = mps.L
         self.X = mps.D
         self.d = mps.d
-- 
2.43.0


From 841eb3d120a312fec0c09cfb0a51d585ae99a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 62/93] fix: create_structure failed for one site and ignored
 the local dimension given

---
 xmps/fMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index f2f47fc..9b853d9 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -459,10 +459,10 @@ class fMPS(object):
         if L % 2 == 0:
             structure = left + transpose(left[::-1])
         else:
-            structure = left + [(left[-1][-1], transpose(left[::-1])[0][0])] +\
-                        transpose(left[::-1])
+            mid = left[-1][-1] if left else 1
+            structure = left + [(mid, mid)] + transpose(left[::-1])
         if phys:
-            return [(self.d, *st) for st in structure]
+            return [(d, *st) for st in structure]
         else:
             return structure
 
-- 
2.43.0


From 71e5e522a4ed965270e06af083d031cac3f077d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 63/93] fix: rho_proj conjugated both states on the traced
 sites

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9b853d9..734edf6 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1006,7 +1006,7 @@ class fMPS(object):
         '''
         if self.bond_dimension == 1 and single_string:
             not_sites = [site for site in range(self.L) if site not in sites]
-            partial_overlap = [np.squeeze(self[i]).conj().T@np.squeeze(other[i].conj()) for i in not_sites]
+            partial_overlap = [np.squeeze(self[i])@np.squeeze(other[i].conj()) for i in not_sites]
             return np.prod(partial_overlap)*reduce(np.kron, [ncon([np.squeeze(self[i])]+[np.squeeze(other[i].conj()).T], [[-1], [-2]]) for i in sites])
 
 
-- 
2.43.0


From 732ba301c662641490fe4f792094ee55bd52ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 64/93] fix: rho contracted the tensors of distant or unordered
 sites as if they were neighbours

---
 xmps/fMPS.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 734edf6..9aef65a 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -993,10 +993,12 @@ class fMPS(object):
         else:
             if not hasattr(self, 'oc') or (not self.canonical and not self.orthogonal) or self.oc not in sites:
                 self.mixed_orthogonalise(sites[0])
-            links = [([-i, i, i+1] if i!= len(sites) else [-i, i, 2*len(sites)+1]) for i in range(1, len(sites)+1)]+\
-                    [([-i, i, i+1] if i != len(sites)+1 else [-i, 1, i+1]) for i in range(len(sites)+1, 2*len(sites)+1)]
+            sites, L = list(sites), self.L
+            block = range(min(sites), max(sites)+1) # sites in the block that are not in sites are traced out
+            bond = lambda x, bra: L+1+x if x in [block[0], block[-1]+1] else L+1+x+bra*(L+1)
+            links = [[-1-bra*len(sites)-sites.index(x) if x in sites else x+1, bond(x, bra), bond(x+1, bra)] for bra in [0, 1] for x in block]
 
-            return ncon([self[i] for i in sites]+[self[i].conj() for i in sites], links).reshape(self.d**len(sites), -1)
+            return ncon([self[i] for i in block]+[self[i].conj() for i in block], links).reshape(self.d**len(sites), -1)
 
     def rho_proj(self, other, sites, single_string=True):
         '''reduced density matrix on sites: partial trace of |self><other| on sites.
-- 
2.43.0


From 8cc344a5f2da7bb040c4c2d543269a2014f2c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 65/93] =?UTF-8?q?fix:=20=CF=81A=20took=20an=20array=20of?=
 =?UTF-8?q?=20kept=20factors=20that=20is=20[0]=20for=20an=20empty=20one?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 xmps/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index 237ccfd..bc18520 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -126,7 +126,7 @@ def ρA(u, keep, dims, optimize=False):
     ρ_a : 2D array
         Traced matrix
     """
-    if not keep:
+    if len(keep) == 0:
         return np.outer(u, u.conj())
     keep = np.asarray(keep)
     dims = np.asarray(dims)
-- 
2.43.0


From dbf8f7567e327f30447530e9e677bcb8e6d2ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 66/93] fix: ncon added trivial labels to the order list of the
 caller

---
 xmps/ncon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/ncon.py b/xmps/ncon.py
index 3508f1c..4659f53 100644
--- a/xmps/ncon.py
+++ b/xmps/ncon.py
@@ -40,6 +40,8 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
 
     if order == None:
         order = create_order(v)
+    else:
+        order = list(order)
     if forder == None:
         forder = create_forder(v)
 
-- 
2.43.0


From b5be15e7d5f489e31d98651451839b0651a8c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 67/93] fix: loc_3 without a dimension raised
 UnboundLocalError, not its own exception

---
 xmps/tensor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xmps/tensor.py b/xmps/tensor.py
index bc18520..708a687 100644
--- a/xmps/tensor.py
+++ b/xmps/tensor.py
@@ -397,11 +397,8 @@ def loc_3(rs, tu, vw, d):
     :param uv:
     :param wx:
     """
-    if d is not None:
-        p = q = d
     if d is None:
-        if p is None and q is None:
-            raise Exception
+        raise Exception
     rs, tu, vw = array(rs), array(tu), array(vw)
     r, s = rs
     v, w = vw
-- 
2.43.0


From ff4c18e703e031582b33d0f0bc33ba037aa2e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 68/93] fix: SU of an unknown representation failed on an
 unassigned local

---
 xmps/spin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/spin.py b/xmps/spin.py
index 5efe3e3..fa0a1c8 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -591,6 +591,8 @@ def SU(v, N, rep='adj'):
         Q = -1j*tensordot(v, su(N), [0, 0])
     elif rep=='2N':
         Q = -1j*tensordot(insu2N(v), su(2*N), [0, 0])
+    else:
+        raise ValueError("unknown representation: " + str(rep))
     return expm(Q)
 
 
-- 
2.43.0


From 407700bb08c1f1b9bec2d9aa96c27c69ffacf087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:46 +0000
Subject: [PATCH 69/93] fix: fMPO product with something that is no MPO failed
 on an unassigned local

---
 xmps/fPEPS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index d5d4371..574e547 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -181,6 +181,8 @@ class fMPO(object):
                 ncon_indices = [[1, -3, -4, -6], [-1, -2, 1, -5]]
                 new_data.append(ncon([W, W_], ncon_indices).reshape(
                     W_.shape[0], W.shape[1]*W_.shape[1], W.shape[2], W_.shape[-1]*W.shape[-1]))
+        else:
+            return NotImplemented
 
         return fMPO(new_data, d=d, X=self.X*other.X)
 
-- 
2.43.0


From 7dfc796429b5f6ae1b403f7bd8b7d2cf51af3f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 70/93] fix: fMPS and fTFD with a bond dimension to truncate to
 could not be constructed

---
 xmps/fMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9aef65a..9c2aa93 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -164,13 +164,13 @@ class fMPS(object):
                 self.d = d
             else:
                 self.d = data[0].shape[0]
-            if D is not None:
-                self.right_canonicalise(D)
-            else:
-                self.D = max([max(x.shape[1:]) for x in data])
+            self.D = max([max(x.shape[1:]) for x in data])
             self.data = data
             self.canonical = False
             self.orthogonal = False
+            if D is not None:
+                self.data = list(data)
+                self.right_canonicalise(D)
 
     def __call__(self, k):
         """__call__: 1-based indexing
-- 
2.43.0


From 2dea165a99b61736345748f30edb21c91a084df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 71/93] fix: AKLT gave a state with spin-2 pairs of neighbours

---
 xmps/mps_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index 2ecc274..c39f41b 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -136,7 +136,7 @@ def AKLT():
     sp, sm = ladders(0.5)
     
     Ap = sqrt(2/3)*sp
-    A0 = -sqrt(1/2)*sz
+    A0 = -sqrt(4/3)*sz
     Am= -sqrt(2/3)*sm
     return iMPS([stack([Ap, A0, Am], 0)])
 
-- 
2.43.0


From 4b2da9a5fa2b703e03b82173011b5d2765bf792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 72/93] fix: comp_x documented its second and third states the
 wrong way round

---
 xmps/mps_examples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/mps_examples.py b/xmps/mps_examples.py
index c39f41b..ef37231 100644
--- a/xmps/mps_examples.py
+++ b/xmps/mps_examples.py
@@ -70,8 +70,8 @@ def comp_x(i):
     """comp_x
     
     i=1: (+, +)
-    i=2: (-, +)
-    i=3: (+, -)
+    i=2: (+, -)
+    i=3: (-, +)
     i=4: (-, -)
     """
     matrices = [zeros((2, 1, 1))+1j*zeros((2, 1, 1)), 
-- 
2.43.0


From 8ec3d73de82dcc50e17e6663c25977ae9c9f75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 73/93] fix: vfMPS kept neither the tensors it was given nor
 their bond dimension

---
 xmps/fMPS.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 9c2aa93..29c4084 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -2210,17 +2210,18 @@ class fTFD(fMPS):
 
 class vfMPS(object):
     """vidal finite MPS
-    lists of tuples (Gamma, Lambda) of numpy arrays"""
+    lists of tuples (Lambda, Gamma) of numpy arrays"""
     def __init__(self,  data=None, d=None):
         """__init__
 
-        :param data: matrices in form [(Gamma, Lambda)]
+        :param data: matrices in form [(Lambda, Gamma)]
         :param d: local state space dimension
         """
         if data is not None and d is not None:
             self.L = len(data)
             self.d = d
-            self.D = max([datum[0][0].shape for datum in data])
+            self.D = max([max(x.shape[-2:]) for datum in data for x in datum])
+            self.data = data
 
     def from_fMPS(self, fMPS):
         """from_fMPS: convert a normal form fMPS to vidal form
@@ -2229,6 +2230,7 @@ class vfMPS(object):
         """
         self.d = fMPS.d
         fMPS.right_canonicalise()
+        self.L, self.D = fMPS.L, fMPS.D
         data = []
         for L, A in zip(fMPS.Ls, fMPS.data):
             G = swapaxes(dot(inv(L), A), 0, 1)
-- 
2.43.0


From 4bfef92b4717fc7e372f3677dfb57209daccee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 74/93] fix: dynamical_expand expanded along the transposed
 two-site term

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 29c4084..d1b8862 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1150,7 +1150,7 @@ class fMPS(object):
         H = [h.reshape(*[self.d]*4) for h in H]
         def G(m):
             return ncon([l(m-1)@A[m], A[m+1]@r(m+1), H[m], c(vL(m)), c(vR(m+1))],
-                        [[2, 1, 4], [6, 4, 8], [3, 6, 2, 7], [3, 1, -1], [7, -2, 8]])
+                        [[2, 1, 4], [6, 4, 8], [3, 7, 2, 6], [3, 1, -1], [7, -2, 8]])
 
         if threshold is not None:
             if self.projection_error(H, dt) < threshold:
-- 
2.43.0


From 67be2f3ef2b4442879ba7ecd4e8d61c988724ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 75/93] fix: entropies of a trajectory could not be computed
 when bond dimensions differ along the chain

---
 xmps/fTDVP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 280c398..b19cadd 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -560,12 +560,12 @@ class Trajectory(object):
             return lss
 
     def von_neumann(self, i=None):
-        sch = array(self.schmidts())
+        sch = self.schmidts()
         S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-        sch = array(self.schmidts())
+        sch = self.schmidts()
         R = array([max([1/(1-α)*log(sum(s**α)) for s in S]) for S in sch])
         return R
 
-- 
2.43.0


From a32ba8c05ff50375d1908fbee4af1aaa953b1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 76/93] fix: von Neumann entropies of a trajectory through
 product states were not a number

---
 xmps/fTDVP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index b19cadd..2b9923b 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -561,7 +561,7 @@ class Trajectory(object):
 
     def von_neumann(self, i=None):
         sch = self.schmidts()
-        S_max = array([max([-re(s@log(s)) for s in S]) for S in sch])
+        S_max = array([max([-re(s[s>0]@log(s[s>0])) for s in S]) for S in sch])
         return S_max
 
     def renyi(self, α=2):
-- 
2.43.0


From a71a86ba9bd44f6a80b66ce71f53ae788977d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 77/93] fix: energy of nearest-neighbour terms was divided by
 the length of the chain

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d1b8862..e2e4436 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1024,7 +1024,7 @@ class fMPS(object):
                 h = h.reshape(*[self.d]*4)
                 C = ncon([h]+self.data[m:m+2], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]])
                 e.append(ncon([c(l(m-1))@self.data[m].conj(), self.data[m+1].conj()@c(r(m+1))]+[C], [[1, 3, 4], [2, 4, 5], [1, 2, 3, 5]]))
-            return re(sum(e))/self.L
+            return re(sum(e))
         else:
             return self.E_L(H)
 
-- 
2.43.0


From 384ea4eacd6d7f96783dff2adebd407220ed9b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 78/93] fix: right null projector only belonged to the tensor
 where the right environment was the identity

---
 xmps/fMPS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index e2e4436..c3f4353 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1939,7 +1939,7 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@r(n), 0, 1)
+            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
         pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
-- 
2.43.0


From 50adca7fbf9d35170448d24ebefa818f6a7301b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 79/93] fix: projection error and expanded directions were only
 the missing components where the environments are the identity

---
 xmps/fMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index c3f4353..05bb16e 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1099,7 +1099,7 @@ class fMPS(object):
 
         H = [h.reshape(*[self.d]*4) for h in H]
         def G(m):
-            C = ncon([H[m]]+[l(m-1)@A[m], A[m+1]@r(m+1)], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
+            C = ncon([H[m]]+[ch(l(m-1))@A[m], A[m+1]@ch(r(m+1))], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
             return ncon([c(vL(m)), c(vR(m+1)), C], [[1, 3, -1], [2, -2, 4], [1, 2, 3, 4]])
 
         ε = 0
@@ -1111,7 +1111,7 @@ class fMPS(object):
             U, s, V = tr_svd(G(m), d*D-D)
 
             x, y = U@sqrt(s), sqrt(s)@V
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
+            dA01, dA10 = sqrt(dt)*inv(ch(l(m-1)))@vL(m)@x, sqrt(dt)*y@vR(m+1)@inv(ch(r(m+1)))
 
             ε += re(tr(sum(cT(dA01)@l(m-1)@dA01, 0)@sum(dA10@r(m+1)@cT(dA10), 0)))
 
@@ -1149,7 +1149,7 @@ class fMPS(object):
 
         H = [h.reshape(*[self.d]*4) for h in H]
         def G(m):
-            return ncon([l(m-1)@A[m], A[m+1]@r(m+1), H[m], c(vL(m)), c(vR(m+1))],
+            return ncon([ch(l(m-1))@A[m], A[m+1]@ch(r(m+1)), H[m], c(vL(m)), c(vR(m+1))],
                         [[2, 1, 4], [6, 4, 8], [3, 7, 2, 6], [3, 1, -1], [7, -2, 8]])
 
         if threshold is not None:
@@ -1167,7 +1167,7 @@ class fMPS(object):
             U, s, V = tr_svd(G(m), D_-D)
             x, y = U@sqrt(s), sqrt(s)@V
             self.xy = x, y
-            dA01, dA10 = sqrt(dt)*l(m-1)@vL(m)@x, sqrt(dt)*y@vR(m+1)@r(m+1)
+            dA01, dA10 = sqrt(dt)*inv(ch(l(m-1)))@vL(m)@x, sqrt(dt)*y@vR(m+1)@inv(ch(r(m+1)))
 
             A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
             self.canonical = self.orthogonal = False
-- 
2.43.0


From d7011b7439bae3ce3595b8e64bfdca6eca8b048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:53 +0000
Subject: [PATCH 80/93] fix: dynamical_expand evolved sites twice, or not at
 all, and the new directions in imaginary time

---
 xmps/fMPS.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 05bb16e..499beef 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -1156,21 +1156,30 @@ class fMPS(object):
             if self.projection_error(H, dt) < threshold:
                 return self
 
+        dA_dt = self.dA_dt(H, True)
+        l, r = self.l, self.r
+        def vL(n): return self.left_null_projector(n, l, True)[1]
+        dA01, dA10 = {}, {}
         for m, (Dm, Dm_1) in list(enumerate(self.structure()))[:-1]:
             _, Dm_2 = self.structure()[m+1]
             if d*Dm==Dm_1 or Dm_1==d*Dm_2:
                 continue
-            def vL(n): return self.left_null_projector(n, l, True)[1]
-            dA_dt = self.dA_dt(H)
-            l, r = self.l, self.r
 
-            U, s, V = tr_svd(G(m), D_-D)
+            U, s, V = tr_svd(-1j*G(m), D_-D)
             x, y = U@sqrt(s), sqrt(s)@V
             self.xy = x, y
-            dA01, dA10 = sqrt(dt)*inv(ch(l(m-1)))@vL(m)@x, sqrt(dt)*y@vR(m+1)@inv(ch(r(m+1)))
-
-            A[m], A[m+1] = ct([A[m]+dt*dA_dt[m], dA01], 2), ct([A[m+1]+dt*dA_dt[m+1], dA10], 1)
-            self.canonical = self.orthogonal = False
+            dA01[m], dA10[m+1] = sqrt(dt)*inv(ch(l(m-1)))@vL(m)@x, sqrt(dt)*y@vR(m+1)@inv(ch(r(m+1)))
+
+        for m in range(L):
+            # all sites make one step, [[A + dt dA_dt, dA01], [dA10, 0]]
+            A[m] = A[m]+dt*dA_dt[m]
+            if m in dA01:
+                A[m] = ct([A[m], dA01[m]], 2)
+            if m in dA10:
+                new = 1j*zeros((d, dA10[m].shape[1], A[m].shape[2]))
+                new[:, :, :dA10[m].shape[2]] = dA10[m]
+                A[m] = ct([A[m], new], 1)
+        self.canonical = self.orthogonal = False
 
         self.D = max([max(shape) for shape in self.structure()])
 
@@ -1182,7 +1191,8 @@ class fMPS(object):
         if D_ is None:
             return self
         while self.D<min(D_, (self.d**(self.L//2))):
-            self.dynamical_expand(H, dt, min(self.d*self.D, D_), None)
+            # the next expansion needs canonical environments
+            self.dynamical_expand(H, dt, min(self.d*self.D, D_), None).left_canonicalise(minD=False)
         return self
 
     def dA_dt(self, H, store_energy=False, fullH=False, prs_vLs=None):
-- 
2.43.0


From 167d6500ee8f36f96fd9a03ef7a80c823a88c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 81/93] fix: the left fixed point of iMPS.eigs was conjugated,
 and normalised against the right one with the wrong legs

---
 xmps/iMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 949e8cb..0791050 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -141,12 +141,12 @@ class TransferMatrix(object):
     def eigs(self, l0=None, r0=None):
         A = self.A
         if l0 is not None:
-            l0 = c(l0.reshape(self.shape[1]))
+            l0 = l0.reshape(self.shape[1])
         if r0 is not None:
             r0 = r0.reshape(self.shape[1])
         _,   r = arnoldi(self.aslinearoperator(), k=1, v0=r0)
         eta, l = arnoldi(self.aslinearoperator().H, k=1, v0=l0)
-        eta, l = c(eta), c(l)
+        eta = c(eta)
 
         r, l = (rotate_to_hermitian(r.reshape(A.shape[1:]))/sign(r[0]),
                 rotate_to_hermitian(l.reshape(A.shape[1:]))/sign(l[0]))
@@ -360,7 +360,7 @@ class iMPS(object):
         self.l, self.r = v_l, v_r
 
         X = cholesky_s(v_r, lower=True, check_finite=False, overwrite_a=True)
-        Y = cholesky_s(v_l, lower=True, check_finite=False, overwrite_a=True)
+        Y = cholesky_s(c(v_l), lower=True, check_finite=False, overwrite_a=True)
 
         U, L, V = svd_s(Y.T.dot(X), full_matrices=False,
                                     overwrite_a=True,
@@ -491,7 +491,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
         return real(self.e)
 
-- 
2.43.0


From 3e74434aa355cd835b0984c1cc585471b334ef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 82/93] fix: iMPS.Lh and iMPS.Rh mixed up bra and ket legs, and
 Rh applied the right fixed point twice

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 0791050..5a22b05 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -550,7 +550,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+            K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
             K -= l*tr(K@r)
             return K
 
@@ -596,7 +596,7 @@ class iMPS(object):
 
         def RHS():
             C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-            K = ncon([A.conj(), A.conj()@r]+[C@r], [[1, -1, 4], [2, 4, 3], [1, 2, -2, 3]]) #AAHAA
+            K = ncon([A.conj(), A.conj()]+[C@r], [[1, -2, 4], [2, 4, 3], [1, 2, -1, 3]]) #AAHAA
             K -= r*tr(l@K)
             return K
 
@@ -613,7 +613,7 @@ class iMPS(object):
             K = reshape(K[:D**2]+1j*K[D**2:], (D, D))
 
             def LHS(K):
-                return K-sum(c(A)@K@T(A), axis=0) + r*tr(l@K)
+                return K-sum(A@K@cT(A), axis=0) + r*tr(l@K)
 
             O_n = reshape(LHS(K) - RHS , (D**2,))
             O_n = concatenate([real(O_n), imag(O_n)])
-- 
2.43.0


From 5f49fee6952234f2f4590f32b48b0d08f3850b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 83/93] fix: null projectors of an infinite MPS only belonged
 to its tensor where the environment was the identity or diagonal

---
 xmps/iMPS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 5a22b05..bfe015a 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -641,7 +641,7 @@ class iMPS(object):
         L = L_.reshape(-1, self.d*L_.shape[-1])
         vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
 
-        pr = ncon([inv(ch(l))@vL, inv(ch(l))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        pr = ncon([inv(cT(ch(l)))@vL, inv(T(ch(l)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
         self.vL = vL
         if get_vL:
             return pr, vL
@@ -649,10 +649,10 @@ class iMPS(object):
 
     def right_null_projector(self, get_vL=False):
         _, _, r = self.eigs()
-        R_ = sw(c(self[0])@r, 0, 1)
+        R_ = sw(c(self[0]@ch(r)), 0, 1)
         R = R_.reshape(-1, self.d*R_.shape[-1])
         vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r)), vR, c(vR), inv(ch(r))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        pr = ncon([inv(T(ch(r))), vR, c(vR), inv(cT(ch(r)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
         self.vR = vR
         if get_vL:
             return pr, vR
-- 
2.43.0


From 5b0fc1e4ad123767dd3c73ec5633d4167a9336ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 84/93] fix: tangent vector of an infinite MPS mixed up bra and
 ket legs of the environments

---
 xmps/iMPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index bfe015a..76c7ab2 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -666,7 +666,7 @@ class iMPS(object):
 
         C = ncon([h]+[A, A], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
 
-        K = ncon([l@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+        K = ncon([T(l)@A.conj(), A.conj()]+[C], [[1, 3, 4], [2, 4, -1], [1, 2, 3, -2]]) #AAHAA
         self.e = tr(K@r)
 
         pr = self.left_null_projector()
@@ -675,9 +675,9 @@ class iMPS(object):
         K = self.Lh(H)
 
         B = -1j*zl(A)
-        B += -1j*ncon([l@C@r, pr, inv(r)@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
-        B += -1j*ncon([l@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
-        B += -1j *ncon([K, R], [[1, 2], [1, 2, -1, -2, -3]])
+        B += -1j*ncon([l@C@r, pr, inv(T(r))@A.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+        B += -1j*ncon([T(l)@A.conj(), pr]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+        B += -1j *ncon([K, R], [[2, 1], [1, 2, -1, -2, -3]])
         B = iMPS([B])
         B.l, B.r, B.vL = l, r, self.vL
         return B
-- 
2.43.0


From ea6d6b055bbe577747cc81ffcb4451a338d370f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 85/93] fix: networks of different size compared equal when one
 was a prefix of the other or shapes broadcast

---
 xmps/fMPS.py  | 4 ++--
 xmps/fPEPS.py | 3 +++
 xmps/iMPS.py  | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index 499beef..d064493 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -197,8 +197,8 @@ class fMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self.data) == len(other.data) and array(
+            [a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)]).all()
 
     def __ne__(self, other):
         """__ne__
diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 574e547..1b40f5a 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -296,6 +296,9 @@ class fPEPS(object):
         elif hasattr(other, 'd'):
             return False
 
+        if [len(row) for row in self.data] != [len(row) for row in other.data]:
+            return False
+
         for row, row_ in zip(self.data, other.data):
             for A, A_ in zip(row, row_):
                 if not np.allclose(A.shape, A_.shape):
diff --git a/xmps/iMPS.py b/xmps/iMPS.py
index 76c7ab2..03eb417 100644
--- a/xmps/iMPS.py
+++ b/xmps/iMPS.py
@@ -197,8 +197,8 @@ class iMPS(object):
 
         :param other:
         """
-        return array(
-            [allclose(a, b) for a, b in zip(self.data, other.data)]).all()
+        return len(self.data) == len(other.data) and array(
+            [a.shape == b.shape and allclose(a, b) for a, b in zip(self.data, other.data)]).all()
 
     def __ne__(self, other):
         """__ne__
-- 
2.43.0


From 7219bff0bd61233b2a9336dcc6349dd25c863137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 86/93] fix: centre moves of a PEPS had no disentangler and
 always raised

---
 xmps/peps_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xmps/peps_tools.py b/xmps/peps_tools.py
index 5c09efa..6fa5737 100644
--- a/xmps/peps_tools.py
+++ b/xmps/peps_tools.py
@@ -74,8 +74,10 @@ def renyi(U, θ):
     d1, d2, Xl, Xr = θ.shape
     return -np.real(np.log(np.trace(ncon([U, E2(U, θ)], [[-1, -2, 1, 2], [1, 2, -3, -4]]).reshape(d1*d2, d1*d2))))
 
-def U2(*args, **kwargs):
-    pass
+def U2(psi, **kwargs):
+    """entropy and unitary of the renyi 2 disentangler"""
+    U, Ss = renyi_2_disentangler(psi, **kwargs)
+    return Ss[-1], U
 
 #U_ = np.linalg.qr(np.random.randn(4, 4)+1j*np.random.randn(4, 4))[0]
 #U = U_.reshape(2, 2, 2, 2)
-- 
2.43.0


From f6242826a1a75d3f513af16ba7946bd5663f63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 87/93] fix: splitting a tensor in a centre move lost its norm

---
 xmps/fPEPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 1b40f5a..3bcac20 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -992,6 +992,7 @@ def split_tensor(tens, chi):
     a = a.reshape(d, p, q, BlX, BrX).transpose([0, 3, 4, 1, 2])
     # (BlX, AX, chi), (BrX, chi, r*t), clockwise
     b, c = separate_tensor(ABlBrC.reshape(BlX*BrX, AX, CX), chi) # truncate to chi here
+    c = c*norm(ABlBrC) # separate_tensor normalises
 
     b = b.transpose([1, 2, 0])
     c = c.transpose([1, 2, 0]).reshape(b.shape[1], r, t, -1)
-- 
2.43.0


From 6d78b277aa43165c9bd855304633d253f9ba901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 88/93] fix: a centre move contracted and grouped the wrong
 legs at the top of the column

---
 xmps/fPEPS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmps/fPEPS.py b/xmps/fPEPS.py
index 3bcac20..89bad0f 100644
--- a/xmps/fPEPS.py
+++ b/xmps/fPEPS.py
@@ -852,9 +852,9 @@ class fPEPS(object):
 
         assert b.shape[0] == 1
 
-        middle_col[0] = ncon([middle_col[0], b[0, :, :]], [[1, -2, -3, -4], [-1, 1]])
+        middle_col[0] = ncon([middle_col[0], b[0, :, :]], [[1, -2, -3, -4], [1, -1]])
         # add dummy index, swap into the right place, rotate tensor
-        middle_col[0] = np.expand_dims(group_legs(middle_col[0], [[3, 0], [1], [2]])[
+        middle_col[0] = np.expand_dims(group_legs(middle_col[0], [[0, 3], [1], [2]])[
                                        0], 0).transpose([1, 0, 2, 3]).transpose([1, 2, 3, 0])
 
 
-- 
2.43.0


From eea2748c2ca87879f2103ad8d2966272585d06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 89/93] fix: the disentangler restarted for ever when it did
 not converge, and contracted the whole state at each step

---
 xmps/peps_tools.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/xmps/peps_tools.py b/xmps/peps_tools.py
index 6fa5737..394b0b2 100644
--- a/xmps/peps_tools.py
+++ b/xmps/peps_tools.py
@@ -67,7 +67,7 @@ def ungroup_legs(T, pipe):
 def E2(U, θ):
     '''U has shape (d1, d2, d1, d2), θ has shape (d1, d2, Xl, Xr)'''
     Uθ = np.tensordot(U, θ , [[2, 3], [0, 1]])
-    UE2 = ncon([U.conj(), Uθ, Uθ.conj(), Uθ, Uθ.conj()], [[7, 8, -1, -2], [7, 8, 1, 2], [3, -4, 4, 2], [3, 5, 4, 6], [-3, 5, 1, 6]])
+    UE2 = ncon([U.conj(), Uθ, Uθ.conj(), Uθ, Uθ.conj()], [[7, 8, -1, -2], [7, 8, 5, 6], [3, -4, 4, 6], [3, 1, 4, 2], [-3, 1, 5, 2]])
     return UE2
 
 def renyi(U, θ):
@@ -94,7 +94,7 @@ def U2(psi, **kwargs):
 #raise Exception
 from scipy.linalg import polar
 
-def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
+def renyi_2_disentangler(psi, eps=1e-6, max_iter=100):
     Ss = []
     d1, d2, Xl, Xr = psi.shape
     U = np.eye(d1 * d2, dtype = psi.dtype)
@@ -103,27 +103,17 @@ def renyi_2_disentangler(psi, eps=1e-6, max_iter=1000):
     #U = np.linalg.qr(H)[0]
     m = 0
     go = True
-    stop=False
-    while not stop:
-        while m < max_iter and go:
-            Unew, _ = polar(E2(U.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2))
-            Unew, _ = polar(E2(Unew.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2)) # with only one iteration S oscillates. v. weird
+    while m < max_iter and go:
+        Unew, _ = polar(E2(U.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2))
+        Unew, _ = polar(E2(Unew.reshape(d1, d2, d1, d2), psi).reshape(d1*d2, d1*d2)) # with only one iteration S oscillates. v. weird
 
-            S = renyi(Unew.reshape(d1, d2, d1, d2), psi)
-            Ss.append(S)
-            U = Unew
+        S = renyi(Unew.reshape(d1, d2, d1, d2), psi)
+        Ss.append(S)
+        U = Unew
 
-            if m > 1:
-                print(np.abs(Ss[-2]-Ss[-1]))
-                go = np.abs(Ss[-2] - Ss[-1]) > eps
-            m += 1
-        if go:
-            H = np.random.randn(d1*d2, d1*d2)+1j*np.random.randn(d1*d2, d1*d2)
-            H = H+H.conj().T
-            U = np.linalg.qr(H)[0]
-            m = 0
-        else:
-            stop=True
+        if m > 1:
+            go = np.abs(Ss[-2] - Ss[-1]) > eps
+        m += 1
 
     return U, Ss
 
-- 
2.43.0


From 2c0e8f39cf9a3ed9430257890bbbe5ff4d2edda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:35 +0000
Subject: [PATCH 90/93] fix: derivatives and tangent vectors of states that are
 not canonical used only the diagonal of their environments

---
 xmps/fMPS.py          | 38 ++++++++++++++++++++++++--------------
 xmps/projects/fTFD.py |  6 ++++--
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/xmps/fMPS.py b/xmps/fMPS.py
index d064493..3fca2e1 100644
--- a/xmps/fMPS.py
+++ b/xmps/fMPS.py
@@ -800,17 +800,24 @@ class fMPS(object):
 
     def get_envs(self, store_envs=False):
         """get_envs: return all envs (slow). indexing is a bit weird: l(-1) is |=
-           returns: fns tuple of functions l, r"""
+           returns: fns tuple of functions l, r
+           legs of l are (bra, ket), legs of r (ket, bra).
+           both are real & diagonal for left & right canonical states"""
+        diagonal = self.canonical and self.oc in (0, self.L)
+
+        def env(x):
+            return diag(diag(re(x))) if diagonal else x
+
         def get_l(mps):
             ls = [array([[1]])]
             for n in range(len(mps)):
-                ls.append(diag(diag(sum(re(cT(mps[n]) @ ls[-1] @ mps[n]), axis=0))))
+                ls.append(env(sum(cT(mps[n]) @ ls[-1] @ mps[n], axis=0)))
             return lambda n: ls[n+1]
 
         def get_r(mps):
             rs = [array([[1]])]
             for n in range(len(mps))[::-1]:
-                rs.append(diag(diag(sum(re(mps[n] @ rs[-1] @ cT(mps[n])), axis=0))))
+                rs.append(env(sum(mps[n] @ rs[-1] @ cT(mps[n]), axis=0)))
             return lambda n: rs[::-1][n+1]
 
         if store_envs:
@@ -1231,15 +1238,15 @@ class fMPS(object):
 
                     Am, Am_1 = self.data[m:m+2]
                     C = ncon([h]+[Am, Am_1], [[-1, -2, 1, 2], [1, -3, 3], [2, 3, -4]]) # HAA
-                    K = ncon([l(m-1)@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
-                    e.append(trace(K@r(m+1)))
+                    K = ncon([c(l(m-1))@Am.conj(), Am_1.conj()]+[C], [[1, 3, 4], [2, 4, -2], [1, 2, 3, -1]]) #AAHAA
+                    e.append(trace(K@c(r(m+1))))
                     #C -= trace(K@r(m+1))
                     #K -= trace(K@r(m+1))
 
                     if m==i:
-                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), inv(r(m))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
+                        B += -1j *ncon([l(m-1)@C@r(m+1), pr(m), c(inv(r(m)))@Am_1.conj()], [[3, 4, 1, 2], [-1, -2, 3, 1], [4, -3, 2]])
                     if m==i-1:
-                        B += -1j *ncon([l(m-1)@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
+                        B += -1j *ncon([c(l(m-1))@Am.conj(), pr(m+1)]+[C], [[1, 3, 4], [-1, -2, 2, 4], [1, 2, 3, -3]])
                     if m < i-1:
                         B += -1j *ncon([K, Rs(m+2)], [[1, 2], [1, 2, -1, -2, -3]])
                 self.e = e
@@ -1940,7 +1947,8 @@ class fMPS(object):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        v = cT(inv(ch(l(n-1))))@vL
+        pr = ncon([v, c(v)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
@@ -1949,10 +1957,11 @@ class fMPS(object):
         if r is None:
             _, r = self.get_envs(store_envs)
         if vR is None:
-            R_ = sw(c(self[n])@ch(r(n)), 0, 1)
+            R_ = sw(c(self[n]@ch(r(n))), 0, 1)
             R = R_.reshape(-1, self.d*R_.shape[-1])
             vR = sw(null(R).reshape(self.d, R_.shape[-1], -1), 1, 2)
-        pr = ncon([inv(ch(r(n))), vR, c(vR), inv(ch(r(n)))], [[-2, 2], [-1, 1, 2], [-3, 1, 4], [-4, 4]])
+        v = vR@inv(ch(r(n)))
+        pr = ncon([v, c(v)], [[-1, 1, -2], [-3, 1, -4]])
         if get_vR:
             return pr, vR
         return pr
@@ -1960,7 +1969,7 @@ class fMPS(object):
     def tangent_state(self, x, n, envs=None, vL=None):
         l , r = self.get_envs() if envs is None else envs
         _, vL = self.left_null_projector(n, l, get_vL=True) if vL is None else (1, vL)
-        return fMPS([inv(ch(l(n-1)))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
+        return fMPS([cT(inv(ch(l(n-1))))@vL@x if m==n else inv(ch(r(n)))@A if m==n+1 else A for m, A in enumerate(self.data)])
 
     def tangent_space_dims(self, l=None, get_vLs=False, vLs=None):
         l, _ = self.get_envs() if l is None else (l, None)
@@ -2025,7 +2034,7 @@ class fMPS(object):
                 continue
             _, vL = self.left_null_projector(n, get_vL=True, store_envs=True)
             l, r = self.l, self.r
-            x = ncon([c(vL), ch(l(n-1))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
+            x = ncon([c(vL), cT(ch(l(n-1)))@dA[n]@ch(r(n))], [[1, 2, -1], [1, 2, -2]])
             xs.append(x.reshape(-1))
         return ct(xs)
 
@@ -2036,7 +2045,7 @@ class fMPS(object):
         sites = [n for n, shape in enumerate(shapes) if prod(shape)!=0]
         vs = chop(v, cs([prod(shapes[n]) for n in sites]))
         for n, x in zip(sites, vs):
-            Bs[n] = inv(ch(l(n-1)))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
+            Bs[n] = cT(inv(ch(l(n-1))))@vLs[n]@x.reshape(*shapes[n])@inv(ch(r(n)))
         return fMPS(Bs)
 
 def fs(X):
@@ -2187,7 +2196,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        v = cT(inv(ch(l(n-1))))@vL
+        pr = ncon([v, c(v)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
diff --git a/xmps/projects/fTFD.py b/xmps/projects/fTFD.py
index 5cb5e3e..82ee9dc 100644
--- a/xmps/projects/fTFD.py
+++ b/xmps/projects/fTFD.py
@@ -6,7 +6,8 @@ from numpy.random import randint, randn
 from numpy import kron, swapaxes as sw, eye, transpose as tra, sqrt
 from numpy import allclose, linspace, load, real as re, sum
 from numpy import tensordot, trace, dot
-from scipy.linalg import norm, null_space as null, inv, cholesky as ch
+from scipy.linalg import norm, null_space as null, inv
+from numpy.linalg import cholesky as ch
 from scipy.linalg import block_diag as bd
 from xmps.tensor import H as cT, C as c
 from xmps.spin import N_body_spins, spins
@@ -118,7 +119,8 @@ class fTFD(fMPS):
             L_ = sw(cT(self[n])@ch(l(n-1)), 0, 1)
             L = L_.reshape(-1, self.d*L_.shape[-1])
             vL = null(L).reshape((self.d, L.shape[1]//self.d, -1))
-        pr = ncon([inv(ch(l(n-1)))@vL, inv(ch(l(n-1)))@c(vL)], [[-1, -2, 1], [-3, -4, 1]])
+        v = cT(inv(ch(l(n-1))))@vL
+        pr = ncon([v, c(v)], [[-1, -2, 1], [-3, -4, 1]])
         if get_vL:
             return pr, vL
         return pr
-- 
2.43.0


From a89fe1764c9b6d94d24b81330224c26368ae1380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:49 +0000
Subject: [PATCH 91/93] fix: odeint gave the solver a right hand side in
 another gauge at its fourth call and no admissible step

---
 xmps/fTDVP.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/xmps/fTDVP.py b/xmps/fTDVP.py
index 2b9923b..5095217 100644
--- a/xmps/fTDVP.py
+++ b/xmps/fTDVP.py
@@ -199,7 +199,6 @@ class Trajectory(object):
         mps, H = self.mps.left_canonicalise(), self.H
         L, d, D = mps.L, mps.d, mps.D
         bar = tqdm()
-        m = 0
 
         def f(t, v):
             """f_odeint: f acting on real vector
@@ -208,21 +207,13 @@ class Trajectory(object):
             :param t: Time
             """
             bar.update()
-            nonlocal m
-            m += 1
-            if m == 4:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .left_canonicalise()\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
-            else:
-                return fMPS().deserialize(v, L, d, D, real=True)\
-                    .dA_dt(H, fullH=self.fullH)\
-                    .serialize(real=True)
+            return fMPS().deserialize(v, L, d, D, real=True)\
+                .dA_dt(H, fullH=self.fullH)\
+                .serialize(real=True)
 
         v = mps.serialize(real=True)
         Q = solve_ivp(f, (T[0], T[-1]), v, method='LSODA', t_eval=T,
-                      max_step=T[1]-T[0], min_step=T[1]-T[0])
+                      max_step=T[1]-T[0])
         traj = Q.y.T
         bar.close()
 
-- 
2.43.0


From 838328821f3fe84f3752f50ec6ba38039901bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:22 +0000
Subject: [PATCH 92/93] fix: ladders of spins above 3/2 are the ladder
 operators, not None

---
 xmps/spin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xmps/spin.py b/xmps/spin.py
index fa0a1c8..7490e25 100644
--- a/xmps/spin.py
+++ b/xmps/spin.py
@@ -247,6 +247,8 @@ def ladders(S):
                               [sqrt(3) , 0 , 0       , 0],
                               [0       , 2 , 0       , 0],
                               [0       , 0 , sqrt(3) , 0]])
+        Sx, Sy, _ = spins(S)
+        return (Sx+pm*1j*Sy).real
     return [ladder(S, pm) for pm in [-1, 1]]
 
 def paulis(S):
-- 
2.43.0


From 3a72d2f4fb373d0b1ac0891278f6154d309b7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:34 +0000
Subject: [PATCH 93/93] fix: histories of infinite chains whose bond dimension
 changes were decoded with that of another state

---
 xmps/iTDVP.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xmps/iTDVP.py b/xmps/iTDVP.py
index 53bff60..1cb727d 100644
--- a/xmps/iTDVP.py
+++ b/xmps/iTDVP.py
@@ -55,18 +55,23 @@ class Trajectory(object):
         self.mps_history = []
         self.run_name = run_name
 
+    def record(self, mps):
+        """record: add mps to the history, with the bond dimension to decode it
+        """
+        self.mps_history.append(mps.serialize(real=True))
+        # Ds[k] belongs to mps_history[k], the last one to the state still to come
+        self.Ds[len(self.mps_history)-1:] = [mps.D, mps.D]
+
     def euler(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         return (mps + mps.dA_dt(H)*dt).left_canonicalise()
 
     def rk4(self, mps, dt, H=None, store=True):
         H = self.H if H is None else H
         if store:
-            self.mps_history.append(mps.serialize(real=True))
-            self.Ds.append(mps.D)
+            self.record(mps)
         k1 = mps.dA_dt(H)
         k2 = (mps+k1/2*dt).dA_dt(H)
         k3 = (mps+k2/2*dt).dA_dt(H)
@@ -102,8 +107,8 @@ class Trajectory(object):
 
     def loschmidts(self):
         assert self.mps_history
-        d, D = self.mps.d, self.mps.D
-        mps_0 = iMPS().deserialize(self.mps_history[0], d, D, real=True)
+        d = self.mps.d
+        mps_0 = iMPS().deserialize(self.mps_history[0], d, self.Ds[0], real=True)
         les = []
         for mps in (iMPS().deserialize(x, d, D, real=True) for D, x in zip(self.Ds, self.mps_history)):
             les.append(-np.log(np.abs(mps.overlap(mps_0))))
-- 
2.43.0

