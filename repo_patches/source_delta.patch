From 2cefcb6f1a27787069f2f0eaa2b84de678a00d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:41 +0000
Subject: [PATCH 01/49] fix: PiecewisePoly.poly() failed for polynomials of
 degree below the basis order

np.poly1d drops zero leading coefficients, so constant or zero components had
fewer coefficients than the scaling vector and the in-place division raised.
Scale each polynomial by its own degree instead.
---
 casadi_extras/collocation/piecewise_poly.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index 59aa1d6..f019518 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -123,9 +123,8 @@ class PiecewisePoly(object):
         @return list of polynomials p such that
         p[i](t) = self(interval[n] + t)[i, :]
         '''
-        p = self._basis.compose(self._coefficients[n])
-        for p_i in p:
-            p_i.coef /= (self.intervals[n + 1] - self.intervals[n]) ** np.flip(np.arange(self._basis.order + 1))
+        h = float(self.intervals[n + 1] - self.intervals[n])
 
-        return p
+        # The degree of each polynomial can be lower than the basis order, because zero leading coefficients are dropped.
+        return [np.poly1d(p_i.coef / h ** np.flip(np.arange(p_i.order + 1))) for p_i in self._basis.compose(self._coefficients[n])]
 
-- 
2.43.0


From a0cfea1d42a371700b1cf1012bb459d4a6ce3b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:41 +0000
Subject: [PATCH 02/49] fix: Pdq.interpolator(continuity='left') did not work

The column indices were off by one, so every call that reached the last
interval raised IndexError and the others read the wrong columns. At an
interval boundary the right interval was used instead of the left one.
---
 casadi_extras/collocation/collocation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index ed83c5c..e86459f 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -219,7 +219,9 @@ class _PdqInterpolator(object):
         self._basis = [PolynomialBasis(pdq._collocationPoints[g]) for g in groups]
         self._pdq = pdq
         self._continuity = continuity
-        self._groups = groups
+
+        # Columns of the data matrix. With the 'left' option there is no data for the leftmost point.
+        self._groups = [g - 1 for g in groups] if continuity == 'left' else groups
         
 
     def __call__(self, x, t):
@@ -232,9 +234,10 @@ class _PdqInterpolator(object):
             raise ValueError('Invalid number of columns in interpolation point matrix')
 
         l = []
+        side = 'left' if continuity == 'left' else 'right'
         
         for ti in np.atleast_1d(t):
-            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, 'right') - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
+            i = np.clip(np.searchsorted(pdq._intervalBounds, ti, side) - 1, 0, len(pdq._intervalBounds) - 2)  # interval index
             l.append(np.dot(x[:, groups[i]], self._basis[i].interpolationMatrix(ti).T))
 
         return np.hstack(l)
-- 
2.43.0


From 129b7b55464b725d489fc860e6e9122bcf12c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:41 +0000
Subject: [PATCH 03/49] fix: inequality.vertcat() failed for inequalities
 without a nominal value

The nominal value is optional and defaults to None, which can not be
concatenated. Return None if no nominal value is given, and fill the missing
ones with NaN if only some are given.
---
 casadi_extras/inequality.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index d246ca0..61fb1cd 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -63,6 +63,14 @@ class BoundedVariable(Inequality):
         return super().__new__(cls, cs.MX.sym(name, nominal.shape), lb, ub, nominal)
 
 
+def _nominal(ineq):
+    return cs.DM.nan(ineq.expr.shape) if ineq.nominal is None else ineq.nominal
+
+
+def _hasNominal(ineq):
+    return len(ineq) == 0 or any(a.nominal is not None for a in ineq)
+
+
 def vertcat(ineq):
     '''Vertical concatenation of inequalities.
     '''
@@ -71,11 +79,11 @@ def vertcat(ineq):
         expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
-        nominal = expr(dict((k, v.nominal) for k, v in ineq.items()))
+        nominal = expr(dict((k, _nominal(v)) for k, v in ineq.items())) if _hasNominal(ineq.values()) else None
     else:
         expr=cs.vertcat(*[a.expr for a in ineq])
         lb=cs.vertcat(*[a.lb for a in ineq])
         ub=cs.vertcat(*[a.ub for a in ineq])
-        nominal=cs.vertcat(*[a.nominal for a in ineq])
+        nominal=cs.vertcat(*[_nominal(a) for a in ineq]) if _hasNominal(ineq) else None
 
     return Inequality(expr=expr, lb=lb, ub=ub, nominal=nominal)
\ No newline at end of file
-- 
2.43.0


From fed22f4a51a7dafeb2412afff3bd42c68ac95e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 04/49] fix: dae_model.parallel() dropped the equations of the
 connected models

The result was a bare Dae, which ignores 'ode' and 'alg', so the connected
model had no dynamics. The time-dependent parameters were dropped, too.
Return a SemiExplicitDae and connect 'tdp'.
---
 casadi_extras/dae_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 2f73175..7d53121 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -287,7 +287,7 @@ def parallel(models):
     '''
     
     d = {}
-    for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad']: # TODO: what do we do with t?
+    for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad', 'tdp']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
-    return Dae(**d)
\ No newline at end of file
+    return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From c5339fefc57e48b00f1ccca69d20f354d9e1d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 05/49] fix: reading a modified mutable MX struct returned the
 old value

MXStruct serves reads from a map which is built in the constructor. After an
assignment the map still had the expressions from before it. Rebuild the map.
---
 casadi_extras/structure3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 90eb856..6ed87c2 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1091,6 +1091,12 @@ class MXStruct(MatrixStruct,VertsplitStructure):
 
     self.buildMap()
 
+  def __setitem__(self,powerIndex,value):
+    MatrixStruct.__setitem__(self,powerIndex,value)
+
+    # Reads are served from the map, which must follow the modified data
+    self.buildMap()
+
   def __MX__(self):
     return self.cat
 
-- 
2.43.0


From 490e552e49cf30de9a1ae7ecffe9ec5f4fb82ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 06/49] fix: repeated() and squared_repeated() failed for MX
 arguments

The matrix was split vertically at offsets of the stacked columns, which made
CasADi fail. Split the stacked columns instead.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 6ed87c2..301a438 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -968,7 +968,7 @@ class VertsplitStructure:
     if parent is None:  parent = self.master
 
     if isinstance(parent,DataReference):
-      parent = parent.a
+      parent = parent.v
 
     ks  = []
     its = []
-- 
2.43.0


From e1b1d7455e02c57d16c605f9700d56ab1b75d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 07/49] fix: structs pickled together got each other's data

All structs of the same structure put their state in one shared dict. Within
one pickle, or one deepcopy, all of them got the state of the first.
---
 casadi_extras/structure3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 301a438..fb273fd 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -907,7 +907,7 @@ class CasadiStructured(Structured,CasadiStructureDerivable):
     self.__init__(cs,order=state["order"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["order"] = self.order
     return d
 
@@ -1068,7 +1068,7 @@ class DMStruct(MatrixStruct):
     self.__init__(cs,data=state["master"])
 
   def __getstate__(self):
-    d = self.struct.__getstate__()
+    d = dict(self.struct.__getstate__())
     d["master"] = self.master
     return d
 
-- 
2.43.0


From db8464212df5ecf142096df811bad355a04689aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 08/49] fix: symmetric entries of an unpickled struct could not
 be assigned

The original sparsity pattern of the entry was not part of its state.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index fb273fd..0135bef 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1330,7 +1330,7 @@ class CasadiStructEntry(StructEntry):
       return "symm(" +  self.sparsity.dim() + ")"
 
   def __getstate__(self):
-    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims"])
+    return dict((k,getattr(self,k)) for k in ["name", "struct", "sparsity","type","repeat","shapestruct","dims","originalsparsity"] if hasattr(self,k))
 
 
 def entry(*args,**kwargs):
-- 
2.43.0


From 0540e368e7edeac44ea76e6c979d76a3525a67aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 09/49] fix: save() and struct_load() failed with NameError

They used file(), which does not exist in Python 3.
---
 casadi_extras/structure3.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 0135bef..a18b777 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -769,7 +769,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   class FlatIndexDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
@@ -1060,7 +1061,8 @@ class DMStruct(MatrixStruct):
 
   def save(self,filename):
     import pickle
-    pickle.dump(self,file(filename,"wb"),2)
+    with open(filename,"wb") as f:
+      pickle.dump(self,f,2)
 
   def __setstate__(self,state):
     cs = CasadiStructure.__new__(CasadiStructure)
@@ -1493,4 +1495,5 @@ class DataReferenceSquaredRepeated(DataReference):
 
 def struct_load(filename):
     import pickle
-    return pickle.load(file(filename,"rb"))
+    with open(filename,"rb") as f:
+      return pickle.load(f)
-- 
2.43.0


From 950f25b9ca6cd465fc7e3876dd1fdafaa4f3f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 10/49] fix: elements below the diagonal of a symmetric entry
 were read as 0

Only the upper triangle is stored, and it was indexed before it was completed
to a symmetric matrix. Reading a single row or column failed.
---
 casadi_extras/structure3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index a18b777..f7d46e1 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -600,7 +600,8 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
-          return triu2symm(self.master[i])
+          # The lower triangle is not stored, so the matrix must be completed before it is indexed
+          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
-- 
2.43.0


From 9a707ad26ab5e8d59ab4223b35a586e12c345b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 11/49] fix: list of names in a power index ignored the type of
 the entries

The selected entries were bypassed: symmetric entries were read and written
as upper triangular matrices, repeated entries were not found, and the rest of
the index was looked up in the wrong struct.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index f7d46e1..14dcf1c 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -408,7 +408,7 @@ class Structure(object):
                    ])
         elif isinstance(p,list):
           return [
-                     self.traverseByPowerIndex(
+                     self.dict[s].traverseByPowerIndex(
                        powerIndex[1:],
                        canonicalIndex=canonicalIndex+(s,),
                        dispatcher=dispatcher,
-- 
2.43.0


From fdb2a85e41ba94ba87f69d36f7f57ad40831e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:14 +0000
Subject: [PATCH 12/49] fix: getCanonicalIndex() returned a wrong extra index

With extraMode=2 the row and the column were swapped. With extraMode=1 the
number of the nonzero was returned, which is not the index of the element if
the entry is sparse.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 14dcf1c..3ae487a 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -813,7 +813,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       k += sp.nnz()
       it = tuple(i)
       self.map[it] = m
-      self.lookuptable+=[(it,kk,p) for kk,p in enumerate(zip(sp.get_col(),sp.row()))]
+      self.lookuptable+=[(it,r+c*sp.size1(),(r,c)) for r,c in zip(sp.row(),sp.get_col())]
       for a in canonicalIndexAncestors(it)[1:]:
         if a in hmap:
           hmap[a].append(m)
-- 
2.43.0


From 8daf9b34852a00def3acc7c3bee491c6b6fe9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:50 +0000
Subject: [PATCH 13/49] fix: element of a symmetric entry assigned by one index
 was lost below the diagonal

---
 casadi_extras/structure3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3ae487a..3df6536 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -619,7 +619,8 @@ class SetterDispatcher(Dispatcher):
         if type is None:
           self.master[i] = payload_
         elif type=="symm":
-          iflip = performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry,flip=True)
+          # Elements below the diagonal are stored in their mirror images
+          iflip = performExtraIndex(self.struct.map[canonicalIndex].T,extraIndex=extraIndex,entry=entry)
           if payload_.is_scalar():
             self.master[i] = payload_
             self.master[iflip] = payload_
@@ -627,7 +628,7 @@ class SetterDispatcher(Dispatcher):
             oi = performExtraIndex(DM.ones(entry.originalsparsity),extraIndex=extraIndex,entry=entry)
             if oi.sparsity()!=payload_.sparsity():
               raise Exception("Payload sparsity " + payload_.dim() +  " does not match lhs sparisty " + oi.dim() + "." )
-            self.master[iflip] = payload_.T[iflip.sparsity()]
+            self.master[iflip] = payload_[iflip.sparsity()]
             self.master[i] = payload_[i.sparsity()]
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
-- 
2.43.0


From b02bf4aacc0b7c26b6098fd1e135827b8b76df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:08 +0000
Subject: [PATCH 14/49] fix: nested struct with a row vector entry failed or
 had elements in a wrong order

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3df6536..1042373 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -822,7 +822,7 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
           hmap[a] = [m]
     self.size = k
     for k,v in hmap.items():
-      hmap[k] = vertcat(*[i.nz[:] for i in v])
+      hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
     class StructureGetter:
-- 
2.43.0


From 49d8a786312df0b5815ae2609849aca1d15fdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:52 +0000
Subject: [PATCH 15/49] fix: reads of a mutable MX struct disagreed with its
 data after a failed assignment

---
 casadi_extras/structure3.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 1042373..88d589b 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1096,10 +1096,12 @@ class MXStruct(MatrixStruct,VertsplitStructure):
     self.buildMap()
 
   def __setitem__(self,powerIndex,value):
-    MatrixStruct.__setitem__(self,powerIndex,value)
-
-    # Reads are served from the map, which must follow the modified data
-    self.buildMap()
+    try:
+      MatrixStruct.__setitem__(self,powerIndex,value)
+    finally:
+      # Reads are served from the map, which must follow the modified data,
+      # also if the assignment failed after a part of it was made.
+      self.buildMap()
 
   def __MX__(self):
     return self.cat
-- 
2.43.0


From 1795bb53d56fd919fb42eabd01e7cdec6463049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:55 +0000
Subject: [PATCH 16/49] fix: infinite diagonal elements of a symmetric struct
 entry read as NaN

---
 casadi_extras/structure3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 88d589b..65a4a19 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -590,7 +590,7 @@ class GetterDispatcher(Dispatcher):
         if type is None:
           return r
         elif type=="symm":
-          return triu2symm(r)
+          return upperToSymm(r)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
 
@@ -601,7 +601,7 @@ class GetterDispatcher(Dispatcher):
           return correct_vector_indexing(self.master, i)
         elif type=="symm":
           # The lower triangle is not stored, so the matrix must be completed before it is indexed
-          return performExtraIndex(triu2symm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
+          return performExtraIndex(upperToSymm(self.master[self.struct.map[canonicalIndex]]),extraIndex=extraIndex,entry=entry)
         else:
           raise Exception("Cannot handle type '%s'." % entry.type)
       except Exception as e:
@@ -672,6 +672,10 @@ def delegation(extraIndex,entry,i):
   else:
     return extraIndex
 
+def upperToSymm(a):
+  # The diagonal must not take part in arithmetics as triu2symm() does: Inf - Inf is NaN
+  return a + tril(a.T,False)
+
 def performExtraIndex(i,extraIndex=None,entry=None,flip=False):
   if extraIndex is None or len(extraIndex)==0:
     return i
-- 
2.43.0


From 00492dc23ffc51f5f1da0edd12d5b457011cdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:27 +0000
Subject: [PATCH 17/49] fix: interpolation next to a node gave NaN

---
 casadi_extras/collocation/polynomial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 4ce2325..6c21cea 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -115,8 +115,10 @@ class PolynomialBasis(object):
                 assert np.sum(ind) == 1
                 y = ind.astype(float)
             else:
-                # Between nodes
-                y = (self._lam / (xi - self.tau)) / np.sum(self._lam / (xi - self.tau))
+                # Between nodes. The distances are related to the smallest one, otherwise their reciprocals overflow next to a node.
+                d = xi - self.tau
+                w = self._lam * (d[np.argmin(np.abs(d))] / d)
+                y = w / np.sum(w)
 
             r.append(y)
 
-- 
2.43.0


From 5f26a57a7a7e8c0fb4da5c6ce5af508e9e912ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:27 +0000
Subject: [PATCH 18/49] fix: integrator of a model with parameters and
 quadratures

The quadrature outputs still depended on the parameter symbol of the
collocation scheme, so creating the function failed.
---
 casadi_extras/collocation/collocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index e86459f..eb5eaf7 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -543,7 +543,7 @@ class CollocationIntegrator(cs.Function):
         sol_K = sol['K']
         sol_Z = sol['Z']
         [sol_q, sol_Q, sol_X] = cs.substitute([scheme.q, scheme.Q, scheme.X], 
-            [scheme.x, scheme.K, scheme.Z], [sol_x, sol_K, sol_Z])
+            [scheme.x, scheme.K, scheme.Z, scheme.p], [sol_x, sol_K, sol_Z, dae.p])
 
         # TODO: return correct value for zf!
         # TODO: return only x instead of x and xf?
-- 
2.43.0


From 7f291144871d3a5158dbf859b58fd2ce2862c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:27 +0000
Subject: [PATCH 19/49] fix: reject a semi-explicit model with algebraic states
 but no algebraic equations

---
 casadi_extras/dae_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 7d53121..6a0f188 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -206,12 +206,12 @@ class SemiExplicitDae(Dae):
 
             if not alg.is_column():
                 raise ValueError('alg must be a column vector')
-
-            if self.z.numel() != alg.numel():
-                raise ValueError('z and alg must have the same number of elements')
         else:
             alg = cs.MX.sym('alg', 0)
 
+        if self.z.numel() != alg.numel():
+            raise ValueError('z and alg must have the same number of elements')
+
         self._ode = ode
         self._alg = alg
 
-- 
2.43.0


From 6c8fa4b2067d724fef22afc4a0027988a4dae233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:31 +0000
Subject: [PATCH 20/49] fix: number of elements of an inequality on an SX
 struct

SX structs have a shape but no numel().
---
 casadi_extras/inequality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index 61fb1cd..1c1b613 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -52,7 +52,7 @@ class Inequality(namedtuple('Inequality', ['expr', 'lb', 'ub', 'nominal'])):
     def numel(self):
         '''Number of elements in the inequality.
         '''
-        return self.expr.numel()
+        return self.expr.shape[0] * self.expr.shape[1]
 
 
 class BoundedVariable(Inequality):
-- 
2.43.0


From d8822611d3c6e58885307febc286b2a1c1f21818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:48 +0000
Subject: [PATCH 21/49] fix: structs instantiated from the same vector shared
 their data

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 65a4a19..f7f9c83 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1048,7 +1048,7 @@ class MatrixStruct(CasadiStructured,MasterGettable,MasterSettable):
       raise Exception("struct_SX does only accept entries with an 'expr' argument.")
 
     self.mtype = mtype
-    if isinstance(data,mtype) or isinstance(data,DataReference):
+    if isinstance(data,DataReference):
       self.master = data
     elif data is None:
       self.master = mtype.nan(self.size,1)
-- 
2.43.0


From 24df58cd29e42aa9f71c96efffa42559deb063fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:27 +0000
Subject: [PATCH 22/49] fix: SX structs and lists of SX were taken for numeric
 data when instantiating a struct

---
 casadi_extras/structure3.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index f7f9c83..3c804da 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -442,6 +442,17 @@ class Dispatcher:
 
 
 #Mixins
+def isSymbolicSX(arg):
+  """
+    Tells whether arg is, or consists of, SX with symbols. Its conversion to DM does not fail, but results in NaN.
+  """
+  if isIterable(arg):
+    return any(isSymbolicSX(e) for e in arg)
+  try:
+    return not SX(arg).is_constant()
+  except Exception:
+    return False
+
 class CasadiStructureDerivable:
 
   def argtype(self,arg):
@@ -449,7 +460,7 @@ class CasadiStructureDerivable:
     if isinstance(arg,DM):
       a = arg
       mtype = DM
-    elif not isinstance(arg,MX) and not isinstance(arg,SX):
+    elif not isinstance(arg,MX) and not isinstance(arg,SX) and not hasattr(arg,"__SX__") and not isSymbolicSX(arg):
       try:
         a = DM(arg)
         mtype = DM
-- 
2.43.0


From ca8e63f180fe67a876a89e8532c5deaa75f5b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:46 +0000
Subject: [PATCH 23/49] fix: SX symbols assigned to a numeric struct were
 stored as NaN

---
 casadi_extras/structure3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3c804da..3cbc5e3 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -622,6 +622,8 @@ class GetterDispatcher(Dispatcher):
 
 class SetterDispatcher(Dispatcher):
   def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
+    if self.mtype is DM and isSymbolicSX(payload):
+      raise CompatibilityException("Cannot assign symbolic %s to the numeric %s." % (str(payload),str(canonicalIndex)))
     payload_ = self.mtype(payload)
     type = None if entry is None else entry.type
     if canonicalIndex in self.struct.map:
@@ -1063,6 +1065,8 @@ class MatrixStruct(CasadiStructured,MasterGettable,MasterSettable):
       self.master = data
     elif data is None:
       self.master = mtype.nan(self.size,1)
+    elif mtype is DM and isSymbolicSX(data):
+      raise Exception("MatrixStruct: symbolic data for a numeric structure.")
     else:
       self.master = mtype(data)
 
-- 
2.43.0


From 5a9f861c0311fec0f16f7e3137d4531e79c7947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:28:56 +0000
Subject: [PATCH 24/49] fix: SX symbols given as bound or nominal value of an
 inequality became NaN

---
 casadi_extras/inequality.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index 1c1b613..6f07834 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -21,10 +21,13 @@ import casadi as cs
 
 from collections import namedtuple
 
-from .structure3 import struct_MX, entry, DMStruct
+from .structure3 import struct_MX, entry, DMStruct, isSymbolicSX
 
 
 def _convertToDmIfNotDmStruct(val):
+    if isSymbolicSX(val):
+        raise ValueError('Bounds and nominal value must be numeric')
+
     return val if isinstance(val, DMStruct) else cs.DM(val)
 
 
-- 
2.43.0


From d35e7e342f2751a489949f2827e0fa94ec714384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:15 +0000
Subject: [PATCH 25/49] fix: a struct_MX changed when an expression assigned to
 it was modified in place

The struct kept a reference to the expression. It stores a copy now, as the
other kinds of structs do.
---
 casadi_extras/structure3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3cbc5e3..bc3c4d5 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1159,7 +1159,8 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
       if canonicalIndex in self.mapping:
         if self.struct.map[canonicalIndex].sparsity()!=payload.sparsity():
           raise Exception("Error in powerIndex slicing %s for canonicalIndex %s: Shape mismatch. lhs is %s, rhs is %s." % (str(powerIndex),str(canonicalIndex),self.struct.map[canonicalIndex].sparsity().dim(),payload.sparsity().dim()))
-        self.storage[self.mapping[canonicalIndex]] = payload
+        # The payload may be modified in place later on, hence a copy.
+        self.storage[self.mapping[canonicalIndex]] = MX(payload)
       else:
         raise Exception("Not found: %s " % str(canonicalIndex))
       self.dirty = True
-- 
2.43.0


From 121787b2a28e5ab42994a1e781ca2e8b362b4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:35 +0000
Subject: [PATCH 26/49] fix: a struct_MX given twice to a casadi function was
 read after it was freed

casadi does not keep the result of __MX__() alive. Each conversion of a
struct_MX replaced the previous one, which casadi could still be using, as in
dot(s, s).
---
 casadi_extras/structure3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index bc3c4d5..1825558 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1137,6 +1137,7 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
 
     self.storage = []
     self.mapping = {}
+    self.cast_cached = None
     for k,i in enumerate(self.struct.traverseCanonicalIndex(limit=1)):
       self.storage.append(None)
       self.mapping[tuple(i)] = k
@@ -1164,10 +1165,14 @@ class MXVeccatStruct(CasadiStructured,MasterGettable):
       else:
         raise Exception("Not found: %s " % str(canonicalIndex))
       self.dirty = True
+      self.cast_cached = None
     return self.struct.traverseByPowerIndex(powerIndex,dispatcher=inject,payload=value)
 
   def __MX__(self):
-    return self.cat
+    # casadi does not keep the returned object alive while working with it.
+    if self.cast_cached is None:
+      self.cast_cached = self.cat
+    return self.cast_cached
 
   def is_column(self):
     return True
-- 
2.43.0


From 2f3f569ba0cad2fa803496a32763328d7bc96ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:16 +0000
Subject: [PATCH 27/49] fix: modifying an entry read from an MX struct in place
 changed later reads

The struct returned its own MX object, so that it and the flat vector
disagreed afterwards. It returns a copy now, as the other kinds of structs do.
---
 casadi_extras/structure3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 1825558..ccc9463 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -597,7 +597,8 @@ class GetterDispatcher(Dispatcher):
     if canonicalIndex in self.struct.map:
 
       if canonicalIndex in self.priority_object_map and (extraIndex is None or len(extraIndex)==0):
-        r = self.priority_object_map[canonicalIndex]
+        # A copy, since the caller may modify it in place.
+        r = MX(self.priority_object_map[canonicalIndex])
         if type is None:
           return r
         elif type=="symm":
-- 
2.43.0


From 881202a3addf430c1af18eb5fb276d0b1e0b8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:04 +0000
Subject: [PATCH 28/49] fix: dae_model.parallel() dropped or rejected equations
 with structural zeros

---
 casadi_extras/dae_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/dae_model.py b/casadi_extras/dae_model.py
index 6a0f188..00556f7 100644
--- a/casadi_extras/dae_model.py
+++ b/casadi_extras/dae_model.py
@@ -287,7 +287,11 @@ def parallel(models):
     '''
     
     d = {}
-    for attr in ['x', 'z', 'u', 'p', 'ode', 'alg', 'quad', 'tdp']: # TODO: what do we do with t?
+    for attr in ['x', 'z', 'u', 'p', 'tdp']: # TODO: what do we do with t?
         d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=getattr(m, attr)) for i, m in enumerate(models)])
 
+    # A struct has no elements for structural zeros, but they are equations, too.
+    for attr in ['ode', 'alg', 'quad']:
+        d[attr] = ce.struct_MX([ce.entry('model_{0}'.format(i), expr=cs.densify(getattr(m, attr))) for i, m in enumerate(models)])
+
     return SemiExplicitDae(**d)
\ No newline at end of file
-- 
2.43.0


From 17c5a5dca2ab852c31fb7c3331e0d1e166575610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:04 +0000
Subject: [PATCH 29/49] fix: inequality.vertcat() of a dict dropped the bounds
 of structural zeros

---
 casadi_extras/inequality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/inequality.py b/casadi_extras/inequality.py
index 6f07834..2225a33 100644
--- a/casadi_extras/inequality.py
+++ b/casadi_extras/inequality.py
@@ -79,7 +79,8 @@ def vertcat(ineq):
     '''
 
     if isinstance(ineq, dict):
-        expr = struct_MX([entry(k, expr=v.expr) for k, v in ineq.items()])
+        # A struct has no elements for structural zeros, but they are bounded, too.
+        expr = struct_MX([entry(k, expr=cs.densify(v.expr)) for k, v in ineq.items()])
         lb = expr(dict((k, v.lb) for k, v in ineq.items()))
         ub = expr(dict((k, v.ub) for k, v in ineq.items()))
         nominal = expr(dict((k, _nominal(v)) for k, v in ineq.items())) if _hasNominal(ineq.values()) else None
-- 
2.43.0


From ee71ac0289485c27c69f9611dabadcf65514aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:46 +0000
Subject: [PATCH 30/49] fix: polynomial basis with integer nodes was wrong if
 products of their differences overflow

---
 casadi_extras/collocation/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index 6c21cea..d7df500 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -44,7 +44,7 @@ class PolynomialBasis(object):
         @param tau roots of the polynomials
         '''
 
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(np.asarray(tau, dtype=float))   # Products of differences of integers overflow
         assert tau.ndim == 1
         assert len(tau) > 0
 
-- 
2.43.0


From 46b287cb19efaa304eecaef1815896504e9fa3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:16 +0000
Subject: [PATCH 31/49] fix: polynomial interpolator with integer nodes was
 wrong if powers of them overflow

---
 casadi_extras/collocation/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/collocation/polynomial.py b/casadi_extras/collocation/polynomial.py
index d7df500..429a0d2 100644
--- a/casadi_extras/collocation/polynomial.py
+++ b/casadi_extras/collocation/polynomial.py
@@ -151,7 +151,7 @@ def polynomialInterpolator(x):
 
     assert x.ndim == 1
     N = x.size - 1
-    n = np.atleast_2d(np.arange(N + 1)).T
+    n = np.atleast_2d(np.arange(N + 1.)).T   # Powers of integers overflow
     X = x ** n
 
     return lambda u, xx: np.dot(u, np.linalg.solve(X, xx ** n))
-- 
2.43.0


From de573eccb78e15d94ceccbd6757b2585b1652fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:23 +0000
Subject: [PATCH 32/49] fix: Butcher tableau for unsigned integer nodes was
 wrong

---
 casadi_extras/collocation/butcher.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/casadi_extras/collocation/butcher.py b/casadi_extras/collocation/butcher.py
index cfa84c3..b9ffab9 100644
--- a/casadi_extras/collocation/butcher.py
+++ b/casadi_extras/collocation/butcher.py
@@ -66,6 +66,7 @@ def butcherTableuForCollocationPoints(tau: np.array):
 
     @param tau collocation nodes
     """
+    tau = np.asarray(tau, dtype=float)   # Differences of unsigned integers wrap around
     order = len(tau)
     A = np.zeros((order, order))
     b = np.zeros(order)
-- 
2.43.0


From 73b2f4fb0d5bb9412616de472e93d95386f713e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:06 +0000
Subject: [PATCH 33/49] fix: an order naming an entry twice was accepted,
 giving a struct with unreachable elements

---
 casadi_extras/structure3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index ccc9463..32eecc9 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -290,6 +290,9 @@ class Structure(object):
           if ee not in self.dict:
             raise Exception("Order '%s' is invalid." % ee)
 
+    if len(self.keyslist)!=len(set(self.keyslist)):
+      raise Exception("Order %s is invalid: it contains duplicates." % str(self.order))
+
   def keys(self):
     return self.keyslist
 
-- 
2.43.0


From 0cb004546e58a5c814cd47499f8ec3c61ecc8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:45 +0000
Subject: [PATCH 34/49] fix: structs of expressions or numbers were accepted as
 symbols of an entry

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 32eecc9..9c71fb0 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1306,7 +1306,7 @@ class CasadiStructEntry(StructEntry):
       sym = kwargs["sym"]
       if isinstance(sym,SX) and sym.is_valid_input():
         self.sym = sym
-      elif isinstance(sym,Structured):
+      elif isinstance(sym,Structured) and not isinstance(sym.cat,DM) and sym.cat.is_valid_input():
         self.struct = sym.struct
         self.sym = sym.cat
       else:
-- 
2.43.0


From 48260fcdebdfc90e0ff8949dc84141e952f3ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:46 +0000
Subject: [PATCH 35/49] fix: a struct argument of an entry that is no struct
 was ignored

---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 9c71fb0..8658557 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1264,6 +1264,8 @@ class CasadiStructEntry(StructEntry):
         self.struct = struct
       elif isinstance(struct,Structured):
         self.struct = struct.struct
+      elif struct is not None:
+        raise Exception("The 'struct' argument, if present, must be a structure. Got %s " % str(struct))
 
 
     self.sparsity = None
-- 
2.43.0


From 834f8ad1ce189cba14b225b4868b2e0a954797c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:16 +0000
Subject: [PATCH 36/49] fix: reject a negative repeat of a struct entry

---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 8658557..757a331 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1254,6 +1254,8 @@ class CasadiStructEntry(StructEntry):
 
     if not all([is_integer(x) for x in self.repeat]):
       raise Exception("The 'repeat' argument, if present, must be a list of integers, but got %s" % str(self.repeat))
+    if any([x<0 for x in self.repeat]):
+      raise Exception("The 'repeat' argument, if present, must not be negative, but got %s" % str(self.repeat))
 
 
     self.struct = None
-- 
2.43.0


From 4606f161969e56c75fad2d1b4f50cc265095606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:28 +0000
Subject: [PATCH 37/49] fix: reject a shape contradicting the shapestruct of a
 struct entry

---
 casadi_extras/structure3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 757a331..2aca9d5 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1360,6 +1360,12 @@ class CasadiStructEntry(StructEntry):
 
 
 
+    # 'shape', 'sym' or 'expr' may tell the sparsity of a matrix with shapestruct, but not another shape
+    if self.shapestruct is not None and self.sparsity.numel()>0:
+      for n,e in zip(self.sparsity.shape,self.shapestruct):
+        if n!=(e if is_integer(e) else e.size):
+          raise Exception("The shape %s does not match the 'shapestruct' argument." % self.sparsity.dim())
+
     StructEntry.__init__(self,self.name,struct=self.struct,dims=self.repeat,data=self.sparsity)
 
   def primitiveString(self):
-- 
2.43.0


From e447a3cca0b5f695e2a55cc90034f0ee3a75bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:29 +0000
Subject: [PATCH 38/49] fix: reject the type 'symm' for a nested struct

---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 2aca9d5..568cdfa 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1353,6 +1353,8 @@ class CasadiStructEntry(StructEntry):
       if self.type not in allowedclass:
         raise Exception("You supplied a type argument '%s' but it is not recognised. Use one of %s" % (str(self.type,str(allowedclass))))
       if self.type=="symm":
+        if self.struct is not None:
+          raise Exception("You supplied a type 'symm', but a nested structure is not a matrix.")
         if self.sparsity.size1() != self.sparsity.size2():
           raise Exception("You supplied a type 'symm', but matrix is not square. Got " % self.sparsity.dim() + ".")
         self.originalsparsity = self.sparsity
-- 
2.43.0


From 428f7e216ed294a512486119604bf8b3f4b3b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:13 +0000
Subject: [PATCH 39/49] fix: a nested struct without elements could not be read
 or assigned

---
 casadi_extras/structure3.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 568cdfa..5b936d1 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -846,6 +846,15 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
       hmap[k] = vertcat(*[casadi.vec(i.nz[:]) for i in v])
     self.map.update(hmap)
 
+    # Nested structures without elements are ancestors of nothing
+    limit = 1
+    nested = [True]
+    while len(nested)>0:
+      nested = [tuple(i) for i in self.traverseCanonicalIndex(limit=limit) if not self.getStructEntryByCanonicalIndex(i).isPrimitive()]
+      for i in nested:
+        self.map.setdefault(i,DM(0,1))
+      limit += 2 # A level of nesting takes two: the structure and its entry
+
     class StructureGetter:
       def __init__(self,struct):
         self.struct = struct
-- 
2.43.0


From 614831bebf6f65c066a7aa2141c9a4e0bce85e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:25 +0000
Subject: [PATCH 40/49] fix: a deep copy of a view or prefix of a numeric
 struct was a matrix

---
 casadi_extras/structure3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 5b936d1..9b4742a 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -741,6 +741,8 @@ class Prefixer:
       t = self.struct.master.a
     else:
       t = self.struct.master
+    if name=="__deepcopy__" and isinstance(t,DM):
+      raise AttributeError(name) # A copy of the data is not a copy of the prefix
     if not(isinstance(t,list) or isinstance(t,dict) or isinstance(t,tuple)):
       return getattr(t,name)
 
-- 
2.43.0


From 9ebe44796912ffd31bee7b16e4b0de5ac362b283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:46 +0000
Subject: [PATCH 41/49] fix: a structural zero assigned through a view changed
 nothing

---
 casadi_extras/structure3.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 9b4742a..d5f2e94 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1468,6 +1468,12 @@ class DelegaterConstructor:
 index  = DelegaterConstructor(IndexDelegater)
 indexf = DelegaterConstructor(FlatIndexDelegater)
 
+def denseScalar(b):
+  # An assignment to nonzeros ignores a structural zero
+  if hasattr(b,"is_scalar") and b.is_scalar():
+    return densify(b)
+  return b
+
 class DataReference:
   @property
   def shape(self):
@@ -1485,7 +1491,7 @@ class DataReferenceRepeated(DataReference):
     self.v = a.reshape((n*a.size1(),1))
 
   def __setitem__(self,a,b):
-    self.v.nz[a] = b
+    self.v.nz[a] = denseScalar(b)
     I = self.a.sparsity().find()
     self.a.nz[I] = self.v.nz[I]
 
@@ -1500,7 +1506,7 @@ class DataReferenceSquared(DataReference):
     self.n = n
 
   def __setitem__(self,a,b):
-    self.a.nz[a] = b
+    self.a.nz[a] = denseScalar(b)
 
   def __getitem__(self,a):
     return self.a.nz[a]
@@ -1518,7 +1524,7 @@ class DataReferenceProduct(DataReference):
     self.m = m
 
   def __setitem__(self,a,b):
-    self.a.nz[a] = b
+    self.a.nz[a] = denseScalar(b)
 
   def __getitem__(self,a):
     return self.a.nz[a]
@@ -1542,7 +1548,7 @@ class DataReferenceSquaredRepeated(DataReference):
     self.v = a.reshape((n*n*N,1))
 
   def __setitem__(self,a,b):
-    self.v.nz[a] = b
+    self.v.nz[a] = denseScalar(b)
     I = self.a.sparsity().find()
     self.a.nz[I] = self.v.nz[I]
 
-- 
2.43.0


From 2bf87467982b5c2b29059f36cf507239af17dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:42 +0000
Subject: [PATCH 42/49] fix: a struct changed when the list of repeats or the
 order it was made from was modified

---
 casadi_extras/structure3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index d5f2e94..a757168 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -1261,7 +1261,8 @@ class CasadiStructEntry(StructEntry):
     self.repeat = []
 
     if 'repeat' in kwargs:
-      self.repeat = kwargs["repeat"] if isinstance(kwargs["repeat"],list) else [kwargs["repeat"]]
+      # A copy, since the caller may modify the list later on.
+      self.repeat = list(kwargs["repeat"]) if isinstance(kwargs["repeat"],list) else [kwargs["repeat"]]
 
     if not all([is_integer(x) for x in self.repeat]):
       raise Exception("The 'repeat' argument, if present, must be a list of integers, but got %s" % str(self.repeat))
@@ -1418,7 +1419,7 @@ class EntryList:
     if order is not None:
       if any(isinstance(e,tuple) for e in self.order):
         raise Exception("You supplied an order by using tuple syntax on entries %s, but you overwrite it with the 'order' keyword. Use one or the other, not both.")
-      self.order = order
+      self.order = list(order)  # The caller may modify it later on.
     self.names = [x.name for x in self.entries]
     if len(self.names)!=len(set(self.names)):
       duplicates = []
-- 
2.43.0


From 2527dfab19b3c72b09f3fab39de7d07f79406a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:42 +0000
Subject: [PATCH 43/49] fix: a tableau changed when the arrays it was made from
 were modified

---
 casadi_extras/collocation/butcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/collocation/butcher.py b/casadi_extras/collocation/butcher.py
index b9ffab9..f917e7f 100644
--- a/casadi_extras/collocation/butcher.py
+++ b/casadi_extras/collocation/butcher.py
@@ -41,9 +41,10 @@ class ButcherTableau(object):
         assert np.ndim(c) == 1
         assert np.size(c) == A.shape[0]
 
-        self._A = np.atleast_2d(A)
-        self._b = np.atleast_1d(b)
-        self._c = np.atleast_1d(c)
+        # Copies, since the caller may modify the arrays later on.
+        self._A = np.array(A, ndmin=2)
+        self._b = np.array(b, ndmin=1)
+        self._c = np.array(c, ndmin=1)
 
     @property
     def A(self):
-- 
2.43.0


From e954f435ff193869f88c62700d568505d0c62065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:42 +0000
Subject: [PATCH 44/49] fix: a piecewise polynomial changed when the arrays it
 was made from were modified

---
 casadi_extras/collocation/piecewise_poly.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/piecewise_poly.py b/casadi_extras/collocation/piecewise_poly.py
index f019518..73a38bb 100644
--- a/casadi_extras/collocation/piecewise_poly.py
+++ b/casadi_extras/collocation/piecewise_poly.py
@@ -17,6 +17,8 @@
 ## You should have received a copy of the GNU Lesser General Public License
 ## along with this program. If not, see <http://www.gnu.org/licenses/>.
 ##
+import copy
+
 import numpy as np
 import casadi as cs
 import casadi_extras as ce
@@ -42,8 +44,10 @@ class PiecewisePoly(object):
         assert len(coefficients) == N
 
         self._basis = basis
-        self._intervals = intervals
-        self._coefficients = coefficients
+
+        # Copies, since the caller may modify the arrays later on.
+        self._intervals = copy.copy(intervals)
+        self._coefficients = copy.deepcopy(coefficients)
 
 
     @property
-- 
2.43.0


From c0c2514ad6bda75f5d1589c4e13d911bae18d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:42 +0000
Subject: [PATCH 45/49] fix: grids and schemes changed when the time vector
 they were made from was modified

---
 casadi_extras/collocation/collocation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/casadi_extras/collocation/collocation.py b/casadi_extras/collocation/collocation.py
index eb5eaf7..9beeef8 100644
--- a/casadi_extras/collocation/collocation.py
+++ b/casadi_extras/collocation/collocation.py
@@ -20,6 +20,8 @@
 """
 Collocation method
 """
+import copy
+
 import numpy as np
 import casadi as cs
 import casadi_extras as ce
@@ -82,7 +84,7 @@ class Pdq(object):
 
         # Indices of collocation points belonging to the same interval, including both ends.
         self._collocationGroups = collocation_groups
-        self._intervalBounds = t
+        self._intervalBounds = copy.copy(t)    # The caller may modify it later on.
         self._polyOrder = poly_order
 
         # Big sparse differentiation matrix
@@ -362,7 +364,7 @@ class CollocationScheme(object):
         self._tc = tc
         self._butcher = butcher
         self._tdp = tdp_val
-        self._t = t
+        self._t = copy.copy(t)    # The caller may modify it later on.
 
 
     @property
-- 
2.43.0


From 494bee267e48117192bc6bd960046ae4df9db1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:42 +0000
Subject: [PATCH 46/49] fix: a trajectory changed when the arrays it was made
 from were modified

---
 casadi_extras/system_trajectory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/casadi_extras/system_trajectory.py b/casadi_extras/system_trajectory.py
index 4ecd60c..5ba01dc 100644
--- a/casadi_extras/system_trajectory.py
+++ b/casadi_extras/system_trajectory.py
@@ -41,9 +41,10 @@ class SystemTrajectory:
         assert z.shape[1] == n_collocation - 1
         assert u.shape[1] == n_collocation - 1
             
-        self._input = u
-        self._state = x
-        self._algState = z
+        # Copies, since the caller may modify the arrays later on.
+        self._input = np.array(u)
+        self._state = np.array(x)
+        self._algState = np.array(z)
         self._interpolatorX = pdq.interpolator(continuity='both')
         self._interpolatorZ = pdq.interpolator(continuity='right')
         self._interpolatorU = pdq.interpolator(continuity='right')
-- 
2.43.0


From 4070fb2a3860c0b9c5fe501ee2e448788b1555cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:23:26 +0000
Subject: [PATCH 47/49] fix: modifying an index matrix returned by a struct
 changed the struct

---
 casadi_extras/structure3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index a757168..2909c85 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -811,7 +811,8 @@ class CasadiStructure(Structure,CasadiStructureDerivable):
   class IMDispatcher(Dispatcher):
     def __call__(self,payload,canonicalIndex,extraIndex=None,entry=None):
       if canonicalIndex in self.struct.map:
-        return performExtraIndex(self.struct.map[canonicalIndex],extraIndex=extraIndex,entry=entry)
+        # A copy, since the caller may modify it in place.
+        return performExtraIndex(DM(self.struct.map[canonicalIndex]),extraIndex=extraIndex,entry=entry)
       else:
         raise Exception("Canonical index %s not found." % str(canonicalIndex))
 
-- 
2.43.0


From ea9fbc04d3db6a752389accc2aaa783bf898167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:23:26 +0000
Subject: [PATCH 48/49] fix: modifying the list of names returned by a struct
 changed the struct

---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 2909c85..3315714 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -294,7 +294,7 @@ class Structure(object):
       raise Exception("Order %s is invalid: it contains duplicates." % str(self.order))
 
   def keys(self):
-    return self.keyslist
+    return list(self.keyslist)
 
   def __str__(self,compact=False):
      s=''
-- 
2.43.0


From f55637360e6f90d332f3f81289a885711d50bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:37:06 +0000
Subject: [PATCH 49/49] fix: negative indices over repeats failed with small or
 unsigned NumPy integers

The number of repeats is added to a negative index. With NumPy integers of few
bits, or an unsigned number of repeats, the sum overflowed and the access was
rejected.
---
 casadi_extras/structure3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/casadi_extras/structure3.py b/casadi_extras/structure3.py
index 3315714..1ceb20a 100644
--- a/casadi_extras/structure3.py
+++ b/casadi_extras/structure3.py
@@ -91,7 +91,7 @@ def canonicalIndexAncestors(ind):
 
 def canonical(ind,s):
   if ind < 0:
-    return ind + s
+    return int(ind) + int(s)   # The sum of small NumPy integers may overflow
   else:
     return ind
 
-- 
2.43.0

