From dc6a05a7c694fe46a47202ea6abb3ee06554d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 01/26] fix: run-time point evaluation of tensor products on
 entities with a vertex factor

---
 finat/tensor_product.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/tensor_product.py b/finat/tensor_product.py
index de3708f..9701e7f 100644
--- a/finat/tensor_product.py
+++ b/finat/tensor_product.py
@@ -160,6 +160,10 @@ class TensorProductElement(FiniteElementBase):
         slices = TensorProductCell._split_slices(point_dims)
         point_factors = []
         for s in slices:
+            if s.start == s.stop:
+                # Vertex factor: a point without coordinates
+                point_factors.append(gem.Zero((0,)))
+                continue
             point_factors.append(gem.ListTensor(
                 [gem.Indexed(point, (i,))
                  for i in range(s.start, s.stop)]
-- 
2.43.0


From 1bdff554fa4164547733d5b8d7f036fde099c50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 02/26] fix: basis index order of the dual evaluation of
 transposed tensor elements

---
 finat/tensorfiniteelement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index c0a8aa9..02b13f7 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -202,7 +202,10 @@ class TensorFiniteElement(FiniteElementBase):
         # a minimal memory footprint, although the operation count
         # does appear to be minimal.
         evaluation = gem.optimise.contraction(evaluation)
-        return evaluation, scalar_i + tensor_vi
+        if self._transpose:
+            return evaluation, tensor_vi + scalar_i
+        else:
+            return evaluation, scalar_i + tensor_vi
 
     @property
     def mapping(self):
-- 
2.43.0


From 0f0b325b18a503ff132aef2e820060086dad7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 03/26] fix: derivative tables of non-simplicial elements whose
 degree is below the embedding degree

---
 finat/fiat_elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 1f20818..91388b9 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -110,6 +110,10 @@ class FiatElement(FiniteElementBase):
         # dealing with transformations between physical
         # and reference space).
         index_shape = (self._element.space_dimension(),)
+        # The advertised degree bounds the total polynomial degree only
+        # on simplices: on hypercubes FIAT may report the degree of the
+        # complete polynomials, with the basis containing higher terms.
+        bounded_degree = self.cell.is_simplex()
         for alpha, fiat_table in fiat_result.items():
             if isinstance(fiat_table, Exception):
                 result[alpha] = gem.Failure(self.index_shape + self.value_shape, fiat_table)
@@ -122,10 +126,10 @@ class FiatElement(FiniteElementBase):
 
             exprs = []
             for table in table_roll:
-                if derivative == self.degree and not self.complex.is_macrocell():
+                if bounded_degree and derivative == self.degree and not self.complex.is_macrocell():
                     # Make sure numerics satisfies theory
                     exprs.append(gem.Literal(table[0]))
-                elif derivative > self.degree:
+                elif bounded_degree and derivative > self.degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
                     exprs.append(gem.Literal(np.zeros(self.index_shape)))
-- 
2.43.0


From cd162363db5e10e1799c56629ecd50b54f6a644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 04/26] fix: raise when restricting an unsupported element
 instead of returning the exception

---
 finat/restricted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index cbd56b3..e81b3c6 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -26,7 +26,7 @@ def restrict(element, domain, take_closure):
         element.
     :raises ValueError: If the restricted element is empty.
     :returns: A new finat element."""
-    return NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
+    raise NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
 
 
 @restrict.register(FiatElement)
-- 
2.43.0


From 064f8aa1029d37493c0868db4b64416784fcd677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 05/26] fix: restriction of discontinuous elements to the edge
 of an interval or the face of a 2D cell

---
 finat/restricted.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index e81b3c6..548df0e 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -56,7 +56,10 @@ def restrict_flattened_dimensions(element, domain, take_closure):
 @restrict.register(finat.DiscontinuousLagrange)
 @restrict.register(finat.Legendre)
 def restrict_discontinuous(element, domain, take_closure):
-    if domain == "interior":
+    # All dofs live on the cell, which is also the only edge of an
+    # interval and the only face of a two-dimensional cell.
+    cell_domain = {1: "edge", 2: "face"}.get(element.cell.get_spatial_dimension())
+    if domain == "interior" or domain == cell_domain:
         return element
     else:
         return null_element
-- 
2.43.0


From 6d2efda749d021858ea0a43793332252427de745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:50 +0000
Subject: [PATCH 06/26] fix: restriction of mixed elements keeps the value
 shape when a part is empty

---
 finat/restricted.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index 548df0e..fcfc0a7 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -67,23 +67,11 @@ def restrict_discontinuous(element, domain, take_closure):
 
 @restrict.register(finat.EnrichedElement)
 def restrict_enriched(element, domain, take_closure):
-    if all(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):
-        # Mixed is handled by Enriched + MixedSubElement, we must
-        # restrict the subelements here because the transformation is
-        # nonlocal.
-        elements = tuple(restrict(e.element, domain, take_closure) for
-                         e in element.elements)
-        reconstruct = finat.mixed.MixedElement
-    elif not any(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):
-        elements = tuple(restrict(e, domain, take_closure)
-                         for e in element.elements)
-        reconstruct = finat.EnrichedElement
-    else:
-        raise NotImplementedError("Not expecting enriched with mixture of MixedSubElement and others")
-
+    elements = tuple(restrict(e, domain, take_closure)
+                     for e in element.elements)
     elements = tuple(e for e in elements if e is not null_element)
     if elements:
-        return reconstruct(elements)
+        return finat.EnrichedElement(elements)
     else:
         return null_element
 
@@ -116,7 +104,13 @@ def restrict_hdiv(element, domain, take_closure):
 
 @restrict.register(finat.mixed.MixedSubElement)
 def restrict_mixed(element, domain, take_closure):
-    raise AssertionError("Was expecting this to be handled inside EnrichedElement restriction")
+    restricted = restrict(element.element, domain, take_closure)
+    if restricted is null_element:
+        return null_element
+    else:
+        # Keep the position in the mixed value, also when the
+        # restriction of another subelement is empty.
+        return finat.mixed.MixedSubElement(restricted, element.size, element.offset)
 
 
 def r_to_codim(restriction, dim):
-- 
2.43.0


From ebb0a1b8bff3a89c5cb6c4b92c9db70bc5191500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 07/26] fix: restriction of tensor products with tensor-product
 factors

---
 finat/restricted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index fcfc0a7..74aafbf 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -173,7 +173,7 @@ def restrict_tpe(element, domain, take_closure):
     restrictions = tuple(candidate
                          for candidate in chain(*(mis(len(factors), c)
                                                   for c in range(codim, upper)))
-                         if all(d <= factor.cell.get_dimension()
+                         if all(d <= factor.cell.get_spatial_dimension()
                                 for d, factor in zip(candidate, factors)))
     take_closure = False
     elements = []
@@ -181,7 +181,7 @@ def restrict_tpe(element, domain, take_closure):
         # Recurse, but don't take closure in recursion (since we
         # handled it already).
         new_factors = tuple(
-            restrict(factor, codim_to_r(codim, factor.cell.get_dimension()),
+            restrict(factor, codim_to_r(codim, factor.cell.get_spatial_dimension()),
                      take_closure)
             for factor, codim in zip(factors, decomposition))
         # If one of the factors was empty then the whole TPE is empty,
-- 
2.43.0


From 71125ed1bedbe18d205013a1bd5eee090fbfc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 08/26] fix: translation of symengine piecewise expressions

---
 finat/sympy2gem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/finat/sympy2gem.py b/finat/sympy2gem.py
index 29add87..1cd58a9 100644
--- a/finat/sympy2gem.py
+++ b/finat/sympy2gem.py
@@ -132,8 +132,12 @@ def sympy2gem_le(node, self):
 def sympy2gem_conditional(node, self):
     expr = None
     pieces = []
-    for v, c in node.args:
-        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c:
+    args = node.args
+    if isinstance(node, symengine.Piecewise):
+        # symengine flattens the (value, condition) pairs
+        args = zip(args[::2], args[1::2])
+    for v, c in args:
+        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue, type(symengine.true))) and c:
             expr = self(v)
             break
         pieces.append((v, c))
-- 
2.43.0


From 4215dae032724cd43188dd7222aaf93ecd11237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 09/26] fix: mapping of direct serendipity elements is a
 property

---
 finat/direct_serendipity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd084a4..fd40051 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -125,6 +125,7 @@ class DirectSerendipity(DirectlyDefinedElement, FiniteElementBase):
     def point_evaluation(self, order, refcoords, entity=None):
         raise NotImplementedError("Not done yet, sorry!")
 
+    @property
     def mapping(self):
         return "physical"
 
-- 
2.43.0


From 273460ed10e5aad34f490e0f1674e64a9f1c8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:35 +0000
Subject: [PATCH 10/26] fix: span of direct serendipity elements of degree 3
 and above on non-parallelograms

---
 finat/direct_serendipity.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd40051..444501b 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -373,9 +373,10 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                       for e in ct[1]}
 
     ae = adjacent_edges
-    tunnel_R_edges = {e: ((lams[ae[e][0]] - lams[ae[e][1]])
-                          / (lams[ae[e][0]] + lams[ae[e][1]]))
-                      for e in range(4)}
+    # linear, so that the span includes all polynomials of degree r
+    # also when the adjacent edges are not parallel
+    tunnel_lam_edges = {e: lams[ae[e][0]] - lams[ae[e][1]]
+                        for e in range(4)}
     edge_nodes = []
     for ed in range(4):
         ((v0x, v0y), (v1x, v1y)) = vs[ct[1][ed], :]
@@ -400,7 +401,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
     else:
         for ed in range(4):
             ((v0x, v0y), (v1x, v1y)) = vs[ct[1][ed], :]
-            Rcur = tunnel_R_edges[ed]
+            lam_cur = tunnel_lam_edges[ed]
             lam_op = lams[opposite_edges[ed]]
 
             edge_bfs_cur = []
@@ -416,7 +417,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                 pvals = []
                 for nd in edge_nodes_cur:
                     sub = xysub(xx, nd)
-                    pval_cur = (-1 * Rcur.subs(sub)**(r-2)
+                    pval_cur = (-1 * lam_cur.subs(sub)**(r-2)
                                 / lam_op.subs(sub))
                     pvals.append(pval_cur)
 
@@ -429,7 +430,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                 prebf = (lams[adjacent_edges[ed][0]]
                          * lams[adjacent_edges[ed][1]]
                          * (lams[opposite_edges[ed]] * p
-                            + Rcur**(r-2) * Rs[ed]))
+                            + lam_cur**(r-2) * Rs[ed]))
 
                 prebf = nodalize(prebf)
                 bfcur = prebf / prebf.subs(xysub(xx, edge_nodes[ed][i]))
-- 
2.43.0


From e1521ed9118790f7e9f1839c273b462f9a3efdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 11/26] fix: degree of enriched and mixed elements whose parts
 have undefined, scalar and nested degrees

---
 finat/ufl/enrichedelement.py | 15 ++++++++++-----
 finat/ufl/mixedelement.py    |  6 +++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index a054885..8e48758 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -14,6 +14,15 @@
 from finat.ufl.finiteelementbase import FiniteElementBase
 
 
+def max_degree(degrees):
+    """Entry-wise maximum of scalar and (nested) tuple degrees, ignoring undefined ones."""
+    degrees = [d for d in degrees if d is not None]
+    if all(isinstance(d, int) for d in degrees):
+        return max(degrees, default=None)
+    n = max(len(d) for d in degrees if not isinstance(d, int))
+    return tuple(max_degree(d if isinstance(d, int) else d[i] for d in degrees) for i in range(n))
+
+
 class EnrichedElementBase(FiniteElementBase):
     """The vector sum of several finite element spaces."""
 
@@ -25,11 +34,7 @@ class EnrichedElementBase(FiniteElementBase):
         if not all(e.cell == cell for e in elements[1:]):
             raise ValueError("Cell mismatch for sub elements of enriched element.")
 
-        if isinstance(elements[0].degree(), int):
-            degrees = {e.degree() for e in elements} - {None}
-            degree = max(degrees) if degrees else None
-        else:
-            degree = tuple(map(max, zip(*[e.degree() for e in elements])))
+        degree = max_degree(e.degree() for e in elements)
 
         # We can allow the scheme not to be defined, but all defined
         # should be equal
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index e1dd1cc..0f788f2 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -14,12 +14,13 @@
 import numpy as np
 
 from ufl.cell import as_cell
+from finat.ufl.enrichedelement import max_degree
 from finat.ufl.finiteelement import FiniteElement
 from finat.ufl.finiteelementbase import FiniteElementBase
 from ufl.permutation import compute_indices
 from ufl.pullback import MixedPullback, SymmetricPullback
 from ufl.utils.indexflattening import flatten_multiindex, shape_to_strides, unflatten_index
-from ufl.utils.sequences import max_degree, product
+from ufl.utils.sequences import product
 
 
 class MixedElement(FiniteElementBase):
@@ -68,8 +69,7 @@ class MixedElement(FiniteElementBase):
         reference_value_shape = kwargs.get('reference_value_shape', (reference_value_size_sum,))
 
         # Initialize element data
-        degrees = {e.degree() for e in self._sub_elements} - {None}
-        degree = max_degree(degrees) if degrees else None
+        degree = max_degree(e.degree() for e in self._sub_elements)
         FiniteElementBase.__init__(self, "Mixed", cell, degree, quad_scheme,
                                    reference_value_shape)
 
-- 
2.43.0


From 493cd791c088150c298dd9f82b9a625ff39bee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 12/26] fix: Sobolev space of mixed and enriched elements with
 incomparable or directional parts

---
 finat/ufl/enrichedelement.py | 36 +++++++++++++++++++++---------------
 finat/ufl/mixedelement.py    |  4 ++--
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index 8e48758..d2b5be8 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -12,6 +12,7 @@
 # Modified by Matthew Scroggs, 2023
 
 from finat.ufl.finiteelementbase import FiniteElementBase
+from ufl.sobolevspace import DirectionalSobolevSpace
 
 
 def max_degree(degrees):
@@ -23,6 +24,24 @@ def max_degree(degrees):
     return tuple(max_degree(d if isinstance(d, int) else d[i] for d in degrees) for i in range(n))
 
 
+def common_sobolev_space(spaces):
+    """Return the smallest Sobolev space that contains all the given ones."""
+    if all(s == spaces[0] for s in spaces):
+        return spaces[0]
+    directions = {len(s._orders) for s in spaces if isinstance(s, DirectionalSobolevSpace)}
+    if directions:
+        n, = directions
+        return DirectionalSobolevSpace([min(s[i]._order for s in spaces) for i in range(n)])
+    superspaces = [{s} | set(s.parents) for s in spaces]
+    intersect = set.intersection(*superspaces)
+    for s in intersect.copy():
+        for parent in s.parents:
+            intersect.discard(parent)
+
+    sobolev_space, = intersect
+    return sobolev_space
+
+
 class EnrichedElementBase(FiniteElementBase):
     """The vector sum of several finite element spaces."""
 
@@ -66,21 +85,8 @@ class EnrichedElementBase(FiniteElementBase):
     @property
     def sobolev_space(self):
         """Return the underlying Sobolev space."""
-        elements = [e for e in self._elements]
-        if all(e.sobolev_space == elements[0].sobolev_space
-               for e in elements):
-            return elements[0].sobolev_space
-        else:
-            # Find smallest shared Sobolev space over all sub elements
-            spaces = [e.sobolev_space for e in elements]
-            superspaces = [{s} | set(s.parents) for s in spaces]
-            intersect = set.intersection(*superspaces)
-            for s in intersect.copy():
-                for parent in s.parents:
-                    intersect.discard(parent)
-
-            sobolev_space, = intersect
-            return sobolev_space
+        # Find smallest shared Sobolev space over all sub elements
+        return common_sobolev_space([e.sobolev_space for e in self._elements])
 
     def variant(self):
         """Doc."""
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 0f788f2..9d58eee 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -14,7 +14,7 @@
 import numpy as np
 
 from ufl.cell import as_cell
-from finat.ufl.enrichedelement import max_degree
+from finat.ufl.enrichedelement import common_sobolev_space, max_degree
 from finat.ufl.finiteelement import FiniteElement
 from finat.ufl.finiteelementbase import FiniteElementBase
 from ufl.permutation import compute_indices
@@ -116,7 +116,7 @@ class MixedElement(FiniteElementBase):
     @property
     def sobolev_space(self):
         """Doc."""
-        return max(e.sobolev_space for e in self._sub_elements)
+        return common_sobolev_space([e.sobolev_space for e in self._sub_elements])
 
     def mapping(self):
         """Doc."""
-- 
2.43.0


From cf1ea946c5bd5fe4bb74b9068354091bcb41b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 13/26] fix: embedded degrees of bubble elements whose degree
 is left open

---
 finat/ufl/finiteelement.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/ufl/finiteelement.py b/finat/ufl/finiteelement.py
index 36c3d92..6ac9417 100644
--- a/finat/ufl/finiteelement.py
+++ b/finat/ufl/finiteelement.py
@@ -240,6 +240,8 @@ class FiniteElement(FiniteElementBase):
     def embedded_subdegree(self):
         """Return embedded subdegree."""
         subdegree = self.degree()
+        if subdegree is None:
+            return self._embedded_degree
         if not isinstance(subdegree, int):
             subdegree = min(subdegree)
         if isinstance(self._embedded_degree, int):
@@ -250,6 +252,8 @@ class FiniteElement(FiniteElementBase):
     def embedded_superdegree(self):
         """Return embedded superdegree."""
         superdegree = self.degree()
+        if superdegree is None:
+            return self._embedded_degree
         if not isinstance(superdegree, int):
             superdegree = max(superdegree)
         if isinstance(self._embedded_degree, int):
-- 
2.43.0


From 365c6ca11fbe2ad4e802fd0b9be4e0cb3e9bf074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 14/26] fix: embedded degrees of tensor product and restricted
 elements follow from their parts

---
 finat/ufl/restrictedelement.py    | 10 ++++++++++
 finat/ufl/tensorproductelement.py |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 797cca2..398cfa8 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -111,3 +111,13 @@ class RestrictedElement(FiniteElementBase):
     def variant(self):
         """Doc."""
         return self._element.variant()
+
+    @property
+    def embedded_subdegree(self):
+        """Return embedded subdegree."""
+        return self._element.embedded_subdegree
+
+    @property
+    def embedded_superdegree(self):
+        """Return embedded superdegree."""
+        return self._element.embedded_superdegree
diff --git a/finat/ufl/tensorproductelement.py b/finat/ufl/tensorproductelement.py
index 760626f..d76c34b 100644
--- a/finat/ufl/tensorproductelement.py
+++ b/finat/ufl/tensorproductelement.py
@@ -130,9 +130,9 @@ class TensorProductElement(FiniteElementBase):
     @property
     def embedded_superdegree(self):
         """Doc."""
-        return sum(self.degree())
+        return sum(e.embedded_superdegree for e in self.sub_elements)
 
     @property
     def embedded_subdegree(self):
         """Doc."""
-        return min(self.degree())
+        return min(e.embedded_subdegree for e in self.sub_elements)
-- 
2.43.0


From 8440445df94f059dce66ca06e9b1b8b4345fb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 15/26] fix: copying and pickling remapped elements

---
 finat/ufl/hdivcurl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index ed18803..52c1a5d 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -176,6 +176,10 @@ class WithMapping(FiniteElementBase):
             raise AttributeError("'%s' object has no attribute '%s'" %
                                  (type(self).__name__, attr))
 
+    def __reduce__(self):
+        """Pickle and copy by construction: __getattr__ needs the wrapee."""
+        return type(self), (self.wrapee, self._mapping)
+
     def __repr__(self):
         """Doc."""
         return f"WithMapping({repr(self.wrapee)}, '{self._mapping}')"
-- 
2.43.0


From 6459f3b67076cbaff5a7696a11c1d1a42cb0342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 16/26] fix: reconstructing a mixed element from a different
 number of elements

---
 finat/ufl/mixedelement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 9d58eee..9d91260 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -83,7 +83,7 @@ class MixedElement(FiniteElementBase):
 
     def reconstruct_from_elements(self, *elements):
         """Reconstruct a mixed element from new subelements."""
-        if all(a == b for (a, b) in zip(elements, self._sub_elements)):
+        if len(elements) == len(self._sub_elements) and all(a == b for (a, b) in zip(elements, self._sub_elements)):
             return self
         return MixedElement(*elements)
 
-- 
2.43.0


From 0f6e5e89b724e303ffa58c8a8a76a2dbce457ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 17/26] fix: equality of tensor elements does not depend on the
 order in which symmetries are listed

---
 finat/ufl/mixedelement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 9d91260..93715a6 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -405,6 +405,9 @@ class TensorElement(MixedElement):
                 if not (i[k] >= 0 and j[k] >= 0 and i[k] < shape[k] and j[k] < shape[k]):
                     raise ValueError("Symmetry dimensions out of bounds.")
 
+        # Equal symmetries are represented equally
+        symmetry = dict(sorted(symmetry.items()))
+
         # Compute all index combinations for given shape
         indices = compute_indices(shape)
 
-- 
2.43.0


From 000f9ce2f6bf38d1c288579f07bb82c8804b6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:35 +0000
Subject: [PATCH 18/26] fix: pull back of tensor elements with a symmetry that
 maps a component to a later one

---
 finat/ufl/mixedelement.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 93715a6..f1e2b1b 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -11,8 +11,6 @@
 # Modified by Massimiliano Leoni, 2016
 # Modified by Matthew Scroggs, 2023
 
-import numpy as np
-
 from ufl.cell import as_cell
 from finat.ufl.enrichedelement import common_sobolev_space, max_degree
 from finat.ufl.finiteelement import FiniteElement
@@ -465,15 +463,7 @@ class TensorElement(MixedElement):
             for e in self.sub_elements:
                 if e.reference_value_shape != sub_element_value_shape:
                     raise ValueError("Sub-elements must all have the same value size")
-            symmetry = {}
-            n = 0
-            for i in np.ndindex(self._shape):
-                if i in self._symmetry and self._symmetry[i] in symmetry:
-                    symmetry[i] = symmetry[self._symmetry[i]]
-                else:
-                    symmetry[i] = n
-                    n += 1
-            return SymmetricPullback(self, symmetry)
+            return SymmetricPullback(self, dict(self._sub_element_mapping))
 
         return self._sub_element.pullback
 
-- 
2.43.0


From fb51b3bb8117c0f3c75b7241a7fcaa1fbcf2b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 19/26] fix: component resolution of mixed, vector and tensor
 elements

---
 finat/ufl/finiteelementbase.py |  4 +--
 finat/ufl/mixedelement.py      | 46 +++++++++++++++++++++-------------
 finat/ufl/restrictedelement.py |  4 +--
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index 3a84f90..8e506ff 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -131,7 +131,7 @@ class FiniteElementBase(AbstractFiniteElement):
         """Return the integer product of the reference value shape."""
         return product(self.reference_value_shape)
 
-    def symmetry(self):  # FIXME: different approach
+    def symmetry(self, domain=None):  # FIXME: different approach
         r"""Return the symmetry dict.
 
         This is a mapping :math:`c_0 \\to c_1`
@@ -143,7 +143,7 @@ class FiniteElementBase(AbstractFiniteElement):
 
     def _check_component(self, domain, i):
         """Check that component index i is valid."""
-        sh = self.value_shape(domain.geometric_dimension())
+        sh = self.pullback.physical_value_shape(self, domain)
         r = len(sh)
         if not (len(i) == r and all(j < k for (j, k) in zip(i, sh))):
             raise ValueError(
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index f1e2b1b..4611b26 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -85,7 +85,7 @@ class MixedElement(FiniteElementBase):
             return self
         return MixedElement(*elements)
 
-    def symmetry(self, domain):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
@@ -97,17 +97,17 @@ class MixedElement(FiniteElementBase):
         # Base index of the current subelement into mixed value
         j = 0
         for e in self._sub_elements:
-            sh = e.value_shape(domain)
+            sh = e.pullback.physical_value_shape(e, domain)
             st = shape_to_strides(sh)
             # Map symmetries of subelement into index space of this
             # element
-            for c0, c1 in e.symmetry().items():
+            for c0, c1 in e.symmetry(domain).items():
                 j0 = flatten_multiindex(c0, st) + j
                 j1 = flatten_multiindex(c1, st) + j
                 sm[(j0,)] = (j1,)
             # Update base index for next element
             j += product(sh)
-        if j != product(self.value_shape(domain)):
+        if j != product(self.pullback.physical_value_shape(self, domain)):
             raise ValueError("Size mismatch in symmetry algorithm.")
         return sm or {}
 
@@ -140,17 +140,17 @@ class MixedElement(FiniteElementBase):
         """
         if isinstance(i, int):
             i = (i,)
-        self._check_component(i)
+        self._check_component(domain, i)
 
         # Select between indexing modes
-        if len(self.value_shape(domain)) == 1:
+        if len(i) == 1:
             # Indexing into a long vector of flattened subelement
             # shapes
             j, = i
 
             # Find subelement for this index
             for sub_element_index, e in enumerate(self._sub_elements):
-                sh = e.value_shape(domain)
+                sh = e.pullback.physical_value_shape(e, domain)
                 si = product(sh)
                 if j < si:
                     break
@@ -170,13 +170,13 @@ class MixedElement(FiniteElementBase):
             component = i[1:]
         return (sub_element_index, component)
 
-    def extract_component(self, i):
+    def extract_component(self, domain, i):
         """Recursively extract component index relative to a (simple) element.
 
         and that element for given value component index.
         """
-        sub_element_index, component = self.extract_subelement_component(i)
-        return self._sub_elements[sub_element_index].extract_component(component)
+        sub_element_index, component = self.extract_subelement_component(domain, i)
+        return self._sub_elements[sub_element_index].extract_component(domain, component)
 
     def extract_subelement_reference_component(self, i):
         """Extract direct subelement index and subelement relative.
@@ -188,7 +188,9 @@ class MixedElement(FiniteElementBase):
         self._check_reference_component(i)
 
         # Select between indexing modes
-        assert len(self.reference_value_shape) == 1
+        if len(i) > 1:
+            # Subelement index is first axis
+            return (i[0], i[1:])
         # Indexing into a long vector of flattened subelement shapes
         j, = i
 
@@ -220,7 +222,7 @@ class MixedElement(FiniteElementBase):
         if component is None:
             return all(e.is_cellwise_constant() for e in self.sub_elements)
         else:
-            i, e = self.extract_component(component)
+            i, e = self.extract_reference_component(component)
             return e.is_cellwise_constant()
 
     def degree(self, component=None):
@@ -228,7 +230,7 @@ class MixedElement(FiniteElementBase):
         if component is None:
             return self._degree  # from FiniteElementBase, computed as max of subelements in __init__
         else:
-            i, e = self.extract_component(component)
+            i, e = self.extract_reference_component(component)
             return e.degree()
 
     @property
@@ -483,16 +485,15 @@ class TensorElement(MixedElement):
         """Doc."""
         return self._flattened_sub_element_mapping
 
-    def extract_subelement_component(self, i):
+    def extract_subelement_component(self, domain, i):
         """Extract direct subelement index and subelement relative.
 
         component index for a given component index.
         """
         if isinstance(i, int):
             i = (i,)
-        self._check_component(i)
+        self._check_component(domain, i)
 
-        i = self.symmetry().get(i, i)
         l = len(self._shape)  # noqa: E741
         ii = i[:l]
         jj = i[l:]
@@ -501,7 +502,18 @@ class TensorElement(MixedElement):
         k = self._sub_element_mapping[ii]
         return (k, jj)
 
-    def symmetry(self):
+    def extract_subelement_reference_component(self, i):
+        """Extract direct subelement index and subelement relative.
+
+        reference_component index for a given reference_component index.
+        """
+        if self._symmetry or len(self._shape) == 1:
+            return super().extract_subelement_reference_component(i)
+        self._check_reference_component(i)
+        l = len(self._shape)  # noqa: E741
+        return (self._sub_element_mapping[i[:l]], i[l:])
+
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 398cfa8..5774218 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -82,13 +82,13 @@ class RestrictedElement(FiniteElementBase):
         return "<%s>|_{%s}" % (self._element.shortstr(),
                                self._restriction_domain)
 
-    def symmetry(self):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
         :math:`c_1`.  A component is a tuple of one or more ints.
         """
-        return self._element.symmetry()
+        return self._element.symmetry(domain)
 
     @property
     def num_sub_elements(self):
-- 
2.43.0


From 98bc3ed64ac46e3c96d9427da1fbc32ed880ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:16 +0000
Subject: [PATCH 20/26] fix: Sobolev space of nested tensor product elements

---
 finat/ufl/tensorproductelement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finat/ufl/tensorproductelement.py b/finat/ufl/tensorproductelement.py
index d76c34b..3160c0d 100644
--- a/finat/ufl/tensorproductelement.py
+++ b/finat/ufl/tensorproductelement.py
@@ -80,8 +80,8 @@ class TensorProductElement(FiniteElementBase):
     def sobolev_space(self):
         """Return the underlying Sobolev space of the TensorProductElement."""
         elements = self._sub_elements
-        if all(e.sobolev_space == elements[0].sobolev_space
-               for e in elements):
+        if all(e.sobolev_space == elements[0].sobolev_space and
+               not isinstance(e.sobolev_space, DirectionalSobolevSpace) for e in elements):
             return elements[0].sobolev_space
         else:
             # Generate a DirectionalSobolevSpace which contains
@@ -90,7 +90,7 @@ class TensorProductElement(FiniteElementBase):
             for e in elements:
                 # TODO: is this the right value for e_dim
                 e_dim = e.cell.topological_dimension()
-                e_order = (e.sobolev_space._order,) * e_dim
+                e_order = (e.sobolev_space[i]._order for i in range(e_dim))
                 orders.extend(e_order)
             return DirectionalSobolevSpace(orders)
 
-- 
2.43.0


From e2b1818ff091083bc5865915649fe1cda12fb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:16 +0000
Subject: [PATCH 21/26] fix: reject form degrees outside the exterior calculus
 complex

---
 finat/ufl/elementlist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/ufl/elementlist.py b/finat/ufl/elementlist.py
index 172eb78..12b2e77 100644
--- a/finat/ufl/elementlist.py
+++ b/finat/ufl/elementlist.py
@@ -307,6 +307,8 @@ def feec_element(family, n, r, k):
     _feec_elements["Q-"] = _feec_elements["Q- Lambda"]
     _feec_elements["S"] = _feec_elements["S Lambda"]
 
+    if k is None or not 0 <= k <= n or not 1 <= n <= 3:
+        raise ValueError(f"Form degree {k} invalid for '{family}' in dimension {n}.")
     family, r = _feec_elements[family][n - 1][k]
 
     return family, r
@@ -354,6 +356,8 @@ def feec_element_l2(family, n, r, k):
     _feec_elements["Q- L2"] = _feec_elements["Q- Lambda L2"]
     _feec_elements["S L2"] = _feec_elements["S Lambda L2"]
 
+    if k is None or not 0 <= k <= n or not 1 <= n <= 3:
+        raise ValueError(f"Form degree {k} invalid for '{family}' in dimension {n}.")
     family, r = _feec_elements[family][n - 1][k]
 
     return family, r
-- 
2.43.0


From 387a2c53d859811fa41ee1617f21e66ba650416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:50 +0000
Subject: [PATCH 22/26] fix: closure dofs of physically mapped elements whose
 dofs differ from those of the FIAT element

---
 finat/fiat_elements.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 91388b9..0a7edeb 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -67,9 +67,6 @@ class FiatElement(FiniteElementBase):
     def entity_dofs(self):
         return self._element.entity_dofs()
 
-    def entity_closure_dofs(self):
-        return self._element.entity_closure_dofs()
-
     @property
     def entity_permutations(self):
         return self._element.entity_permutations()
-- 
2.43.0


From 6d5050a2446b0228856b15b3d142aa8fe20c6f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:50 +0000
Subject: [PATCH 23/26] fix: support dofs of macro elements and of wrapped
 elements without a unique degree

---
 finat/discontinuous.py       |  4 ++++
 finat/finiteelementbase.py   |  3 ++-
 finat/tensorfiniteelement.py | 12 +++++++++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/finat/discontinuous.py b/finat/discontinuous.py
index f5d15ae..8084e09 100644
--- a/finat/discontinuous.py
+++ b/finat/discontinuous.py
@@ -37,6 +37,10 @@ class DiscontinuousElement(FiniteElementBase):
         result[cell_dimension][0].extend(range(self.space_dimension()))
         return result
 
+    @property
+    def _entity_support_dofs(self):
+        return self.element.entity_support_dofs()
+
     def entity_dofs(self):
         return self._entity_dofs
 
diff --git a/finat/finiteelementbase.py b/finat/finiteelementbase.py
index 64a6399..cb8c98a 100644
--- a/finat/finiteelementbase.py
+++ b/finat/finiteelementbase.py
@@ -84,7 +84,8 @@ class FiniteElementBase(metaclass=ABCMeta):
             beta = self.get_indices()
             zeta = self.get_value_indices()
 
-            entity_cell = self.cell.construct_subelement(entity_dim)
+            # Basis functions of macro elements are only piecewise polynomial
+            entity_cell = self.complex.construct_subcomplex(entity_dim)
             quad = make_quadrature(entity_cell, (2*numpy.array(self.degree)).tolist())
 
             eps = 1.e-8  # Is this a safe value?
diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index 02b13f7..fd67052 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -69,10 +69,8 @@ class TensorFiniteElement(FiniteElementBase):
     def formdegree(self):
         return self._base_element.formdegree
 
-    @cached_property
-    def _entity_dofs(self):
+    def _expand_dofs(self, base_dofs):
         dofs = {}
-        base_dofs = self._base_element.entity_dofs()
         ndof = int(numpy.prod(self._shape, dtype=int))
 
         def expand(dofs):
@@ -92,6 +90,14 @@ class TensorFiniteElement(FiniteElementBase):
                              for k, d in base_dofs[dim].items())
         return dofs
 
+    @cached_property
+    def _entity_dofs(self):
+        return self._expand_dofs(self._base_element.entity_dofs())
+
+    @cached_property
+    def _entity_support_dofs(self):
+        return self._expand_dofs(self._base_element.entity_support_dofs())
+
     def entity_dofs(self):
         return self._entity_dofs
 
-- 
2.43.0


From 44aaf0ff1e7269765e9509e76d01900014fcccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 24/26] fix: tabulate quadrature elements with run-time points
 at their own points

---
 finat/point_set.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/point_set.py b/finat/point_set.py
index 63ab8dc..3910a2b 100644
--- a/finat/point_set.py
+++ b/finat/point_set.py
@@ -119,6 +119,10 @@ class UnknownPointSet(AbstractPointSet):
     def expression(self):
         return gem.partial_indexed(self._points_expr, self.indices)
 
+    def almost_equal(self, other, tolerance=1e-12):
+        """Equality of the expressions for the unknown points"""
+        return type(self) is type(other) and self._points_expr == other._points_expr
+
 
 class PointSet(AbstractPointSet):
     """A basic point set with no internal structure representing a vector of
-- 
2.43.0


From ab0de3688d16d44f16d8e8bc01b58b35775f503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 25/26] fix: form degree of mixed and tensor product elements
 with double form parts

---
 finat/enriched.py       | 3 +++
 finat/tensor_product.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/finat/enriched.py b/finat/enriched.py
index 29e42fe..93f4a8f 100644
--- a/finat/enriched.py
+++ b/finat/enriched.py
@@ -41,6 +41,9 @@ class EnrichedElement(FiniteElementBase):
         ks = set(elem.formdegree for elem in self.elements)
         if None in ks:
             return None
+        elif len(ks) > 1 and any(isinstance(k, tuple) for k in ks):
+            # No common form degree for double forms and differential forms
+            return None
         else:
             return max(ks)
 
diff --git a/finat/tensor_product.py b/finat/tensor_product.py
index 9701e7f..b9ec8eb 100644
--- a/finat/tensor_product.py
+++ b/finat/tensor_product.py
@@ -44,7 +44,9 @@ class TensorProductElement(FiniteElementBase):
 
     @cached_property
     def formdegree(self):
-        if any(fe.formdegree is None for fe in self.factors):
+        if any(fe.formdegree is None or isinstance(fe.formdegree, tuple)
+               for fe in self.factors):
+            # Undefined, or a double form
             return None
         else:
             return sum(fe.formdegree for fe in self.factors)
-- 
2.43.0


From 0426c71ec6562fb00c028c32181a7e9d5854868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:17 +0000
Subject: [PATCH 26/26] fix: QuadratureElement dual bases share no point index

A quadrature element used twice as a factor of a TensorProductElement
gave both factors the same point index, so the product's dual weights
vanished off the diagonal and its point set had too few free indices.
---
 finat/quadrature_element.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/finat/quadrature_element.py b/finat/quadrature_element.py
index 3f17ec3..dd96c9c 100644
--- a/finat/quadrature_element.py
+++ b/finat/quadrature_element.py
@@ -1,4 +1,4 @@
-from finat.point_set import UnknownPointSet
+from finat.point_set import PointSet, TensorPointSet, UnknownPointSet
 from functools import reduce
 
 import numpy
@@ -129,7 +129,10 @@ class QuadratureElement(FiniteElementBase):
 
     @property
     def dual_basis(self):
-        ps = self._rule.point_set
+        # The point indices must be new every time, in case the dual
+        # basis is used multiple times (in for example a
+        # TensorProductElement).
+        ps = renumbered(self._rule.point_set)
         multiindex = self.get_indices()
         # Evaluation matrix is just an outer product of identity
         # matrices, evaluation points are just the quadrature points.
@@ -141,3 +144,21 @@ class QuadratureElement(FiniteElementBase):
     @property
     def mapping(self):
         return "affine"
+
+
+def renumbered(ps):
+    """Return the same point set with point indices of its own.
+
+    :arg ps: the point set.
+    """
+    if isinstance(ps, TensorPointSet):
+        return TensorPointSet([renumbered(factor) for factor in ps.factors])
+    elif isinstance(ps, UnknownPointSet):
+        return UnknownPointSet(ps._points_expr)
+    elif isinstance(ps, PointSet):
+        result = type(ps)(ps.points)
+        result.indices = tuple(gem.Index(extent=index.extent) for index in ps.indices)
+        return result
+    else:
+        # Nothing to number (a single point)
+        return ps
-- 
2.43.0

