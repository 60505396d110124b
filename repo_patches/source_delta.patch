From 81e081e2d4980e333598fa48ded810784c2208c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:51 +0000
Subject: [PATCH 01/17] fix: CollocationIntegrator could not be built for a DAE
 with parameters and a quadrature

The quadrature outputs still depended on the parameter symbol of the
collocation scheme, which is not an input of the integrator function.
Substitute the DAE parameters for it, as is done for the other variables.
---
 casadi_extras/collocation/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..64b6462 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -540,7 +540,7 @@ class CollocationIntegrator(cs.Function):
         sol_K = sol['K']
         sol_Z = sol['Z']
         [sol_q, sol_Q, sol_X] = cs.substitute([scheme.q, scheme.Q, scheme.X], 
-            [scheme.x, scheme.K, scheme.Z], [sol_x, sol_K, sol_Z])
+            [scheme.x, scheme.K, scheme.Z, scheme.p], [sol_x, sol_K, sol_Z, dae.p])
 
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
-- 
2.43.0


From 3ee5a3857c23644a7a3dcd33dfc6f9d60490c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:51 +0000
Subject: [PATCH 02/17] fix: PiecewisePoly.poly() raised for polynomials of
 degree lower than the basis order

numpy.poly1d drops zero leading coefficients, so the number of coefficients
depends on the polynomial. In-place division also failed for integer
coefficients.
---
 casadi_extras/collocation/piecewise_poly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..04e9c15 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -123,9 +123,9 @@ class PiecewisePoly(object):
         @return list of polynomials p such that
         p[i](t) = self(interval[n] + t)[i, :]
         '''
+        h = self.intervals[n + 1] - self.intervals[n]
         p = self._basis.compose(self._coefficients[n])
-        for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
 
-        return p
+        # The degree of a polynomial can be lower than the order of the basis
+        return [np.poly1d(p_i.coef / h ** np.flip(np.arange(p_i.order + 1))) for p_i in p]
 
-- 
2.43.0


From f027beab964a9277e7eb1aabe42a9e7dd932b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:51 +0000
Subject: [PATCH 03/17] fix: Pdq.interpolator('left') read the wrong columns

With left continuity there is no column for the first collocation point, so
column indices have to be shifted by one; without the shift the last interval
raised IndexError. An interval boundary now takes the value from its left
interval, as documented.
---
 casadi_extras/collocation/collocation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index 64b6462..55fab80 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -227,6 +227,11 @@ class _PdqInterpolator(object):
         continuity = self._continuity
         groups = self._groups
 
+        # Continuity from the left means that the first collocation point is not used,
+        # and that an interval boundary belongs to the interval on its left.
+        side = 'left' if continuity == 'left' else 'right'
+        first_col = 1 if continuity == 'left' else 0
+
         expected_x_cols = pdq._collocationPoints.size if continuity == 'both' else pdq._collocationPoints.size - 1
         if x.shape[1] != expected_x_cols:
             raise ValueError('Invalid number of columns in interpolation point matrix')
@@ -234,8 +239,8 @@ class _PdqInterpolator(object):
         l = []
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
-            l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            l.append(np.dot(x[:, groups[i] - first_col], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
 
-- 
2.43.0


From 42d51a695e458ce996328e5bc0c1336088a2ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:21 +0000
Subject: [PATCH 04/17] fix: reading a struct_MX_mutable entry returned the
 value from before the last write

Reads were served from the pieces into which the vector was split at
construction time. Drop them after a write.
---
 casadi_extras/structure3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..6f22153 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1091,6 +1091,12 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    ret = MatrixStruct.__setitem__(self,powerIndex,value)
+    # The pre-split objects do not reflect the new value
+    self.priority_object_map.clear()
+    return ret
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 2cc86926b1fa33c5930530189f39d7c3f2ef5ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:21 +0000
Subject: [PATCH 05/17] fix: repeated() and squared_repeated() failed for MX
 arguments

The data matrix has to be split as one column, in the order of flat indices.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 6f22153..1765505 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -968,7 +968,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = casadi.vec(parent.a)
 
     ks  = []
     its = []
-- 
2.43.0


From 57bd4840c2a2af86351d43cc9c478e3f4663955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:21 +0000
Subject: [PATCH 06/17] fix: save() and struct_load() used the Python 2 file()
 function

---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 1765505..b92adcb 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1493,4 +1495,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From 06d6303a30d509a0f89c9825090dbbd228c43e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:21 +0000
Subject: [PATCH 07/17] fix: pickling or deep-copying several structs of the
 same structure mixed up their data

__getstate__() wrote into the state dict of the shared structure. All structs
in one pickle then shared that dict, and all were restored with the data of
the first one.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index b92adcb..fb05502 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -908,7 +908,7 @@ class CasadiStructured(Structured,CasadiStructureDerivable):
     self.__init__(cs,order=state["order"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["order"] = self.order
     return d
 
@@ -1070,7 +1070,7 @@ class DMStruct(MatrixStruct):
     self.__init__(cs,data=state["master"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["master"] = self.master
     return d
 
-- 
2.43.0


From b61f236a5e91912fe6ca4bd11e9ffd8447545b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:22 +0000
Subject: [PATCH 08/17] fix: a symmetric matrix entry could not be assigned
 after unpickling

The sparsity pattern which the assignment is checked against was not pickled.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index fb05502..3977a82 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1332,7 +1332,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","originalsparsity","type","repeat","shapestruct","dims"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From 92fd75d08c5f7d221ab33cb39dc7db690ebd69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:22 +0000
Subject: [PATCH 09/17] fix: getCanonicalIndex(i,2) returned the column before
 the row

The result could not be used to index the entry.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3977a82..bd8bac8 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -812,7 +812,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.row(),sp.get_col()))]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From 955399a23cc7a56652202bef08b3eb0136a704e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:52 +0000
Subject: [PATCH 10/17] fix: indexing into a symmetric matrix entry returned
 zeros below the diagonal

The index was applied to the stored upper triangle instead of the symmetric
matrix. Selecting a row or a column raised an exception for the same reason.
---
 casadi_extras/structure3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index bd8bac8..4e3d8e6 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -594,13 +594,13 @@ class GetterDispatcher(Dispatcher):
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
-      i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
-
       try:
         if type is None:
+          i = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return triu2symm(self.master[i])
+          # Only the upper triangle is stored, but the extra index refers to the full matrix
+          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From e27255cf113d5da46edc74184d2d2e0e0da9f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:09 +0000
Subject: [PATCH 11/17] fix: inequality.vertcat() raised for inequalities
 without nominal values

The nominal value is optional, and None by default. The concatenation has a
nominal value if all its parts have one.
---
 casadi_extras/inequality.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..d9a384c 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -71,11 +71,11 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        nominal = None if any(v.nominal is None for v in ineq.values()) else expr(dict((k, v.nominal) for k, v in ineq.items()))
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        nominal = None if any(a.nominal is None for a in ineq) else cs.vertcat(*[a.nominal for a in ineq])
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From 6692f87bb41532caac0c7db40607034af99365d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:09 +0000
Subject: [PATCH 12/17] fix: parallel() lost the equations of the connected DAE
 models

---
 casadi_extras/dae_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..cdf3e84 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -290,4 +290,4 @@ def parallel(models):
     for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From 37e67045671fce5066f1bea93adaed6a6047bfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:14 +0000
Subject: [PATCH 13/17] fix: a semi-explicit DAE with algebraic states but no
 algebraic equations was accepted

---
 casadi_extras/dae_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index cdf3e84..65aec99 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -206,12 +206,12 @@ class SemiExplicitDae(Dae):
 
             if not alg.is_column():
                 raise ValueError('alg must be a column vector')
-
-            if self.z.numel() != alg.numel():
-                raise ValueError('z and alg must have the same number of elements')
         else:
             alg = cs.MX.sym('alg', 0)
 
+        if self.z.numel() != alg.numel():
+            raise ValueError('z and alg must have the same number of elements')
+
         self._ode = ode
         self._alg = alg
 
-- 
2.43.0


From 044c793370c5ed40729e55a98cdc21293217bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:06 +0000
Subject: [PATCH 14/17] fix: nested structures may contain row vector entries

The flat indices of a nested structure were concatenated without turning the
indices of row vectors into columns, so such a structure could not be defined
or read as a matrix instead of a vector.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 4e3d8e6..7148c06 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -820,7 +820,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0


From d275a61060f709eb977237c4f81ee6d3757aa7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:41 +0000
Subject: [PATCH 15/17] fix: assignments to symmetric entries through a linear
 index reach the lower triangle

A linear index into the lower triangle of a symmetric entry was silently
ignored because only pairs of indices were mirrored.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 7148c06..d64e3a4 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -618,7 +618,7 @@ class SetterDispatcher(Dispatcher):
         if type is None:
           self.master[i] = payload_
         elif type=="symm":
-          iflip = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry,flip=True)
+          iflip = performExtraIndex(self.struct.map[canonicalIndex].T,extraIndex=extraIndex,entry=entry)
           if payload_.is_scalar():
             self.master[i] = payload_
             self.master[iflip] = payload_
@@ -626,7 +626,7 @@ class SetterDispatcher(Dispatcher):
             oi = performExtraIndex(DM.ones(entry.originalsparsity),extraIndex=extraIndex,entry=entry)
             if oi.sparsity()!=payload_.sparsity():
               raise Exception("Payload sparsity " + payload_.dim() +  " does not match lhs sparisty " + oi.dim() + "." )
-            self.master[iflip] = payload_.T[iflip.sparsity()]
+            self.master[iflip] = payload_[iflip.sparsity()]
             self.master[i] = payload_[i.sparsity()]
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
-- 
2.43.0


From 329805840ea03588eeb986e9710a93065f44f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:37 +0000
Subject: [PATCH 16/17] fix: an order that names an entry twice is refused

The elements of such an entry were counted twice in the vector.
---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index d64e3a4..5656690 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -289,6 +289,8 @@ class Structure(object):
         for ee in e:
           if ee not in self.dict:
             raise Exception("Order '%s' is invalid." % ee)
+    if len(self.keyslist)!=len(set(self.keyslist)):
+      raise Exception("Order %s is invalid: it contains duplicates." % str(self.order))
 
   def keys(self):
     return self.keyslist
-- 
2.43.0


From 4aa56922221c37c5ff9c795b46bcca56373400b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:04 +0000
Subject: [PATCH 17/17] fix: struct_MX keeps its concatenated vector until an
 entry changes

The vector was rebuilt on every access and the previous one released.
CasADi keeps a pointer to the converted operand, so an operation that
takes the same structure twice, such as dot(s, s), read freed memory.
---
 casadi_extras/structure3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 5656690..442d3fc 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1167,6 +1167,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
 
     if self.dirty:
       self.master_cached = vertcat(*[casadi.vec(i if i.is_dense() else i.nz[:]) for i in self.storage])
+      self.dirty = False
 
     return self.master_cached
 
-- 
2.43.0

