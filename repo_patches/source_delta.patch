From 3e5c0f5e0cd8ff99874f946c8ee241acc878727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:16 +0000
Subject: [PATCH 01/24] fix: closure dofs of elements that drop constraint dofs

FiatElement.entity_closure_dofs returned the closure of the underlying FIAT
element, which for Bell, ReducedHsiehCloughTocher, MardalTaiWinther,
ArnoldWinther, the Piola bubble elements etc. lists constraint dofs that the
FInAT element does not have.  Compute it from entity_dofs() instead.
---
 finat/fiat_elements.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 1f20818..d4a35ce 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -67,9 +67,6 @@ class FiatElement(FiniteElementBase):
     def entity_dofs(self):
         return self._element.entity_dofs()
 
-    def entity_closure_dofs(self):
-        return self._element.entity_closure_dofs()
-
     @property
     def entity_permutations(self):
         return self._element.entity_permutations()
-- 
2.43.0


From 121954defa96b40d2de26440a7e348ac95fceb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 02/24] fix: dual evaluation index order of transposed tensor
 elements

---
 finat/tensorfiniteelement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index c0a8aa9..02b13f7 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -202,7 +202,10 @@ class TensorFiniteElement(FiniteElementBase):
         # a minimal memory footprint, although the operation count
         # does appear to be minimal.
         evaluation = gem.optimise.contraction(evaluation)
-        return evaluation, scalar_i + tensor_vi
+        if self._transpose:
+            return evaluation, tensor_vi + scalar_i
+        else:
+            return evaluation, scalar_i + tensor_vi
 
     @property
     def mapping(self):
-- 
2.43.0


From 9e138dbda3b79d3bc8943785d9940e1df3552ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 03/24] fix: raise instead of returning an exception for
 unsupported restrictions

---
 finat/restricted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index cbd56b3..e81b3c6 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -26,7 +26,7 @@ def restrict(element, domain, take_closure):
         element.
     :raises ValueError: If the restricted element is empty.
     :returns: A new finat element."""
-    return NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
+    raise NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
 
 
 @restrict.register(FiatElement)
-- 
2.43.0


From 011dffa0ca9e810feb4924a46dceb143cf8b371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:12 +0000
Subject: [PATCH 04/24] fix: restricted mixed elements keep their value shape

---
 finat/restricted.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index e81b3c6..e74db68 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -64,23 +64,11 @@ def restrict_discontinuous(element, domain, take_closure):
 
 @restrict.register(finat.EnrichedElement)
 def restrict_enriched(element, domain, take_closure):
-    if all(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):
-        # Mixed is handled by Enriched + MixedSubElement, we must
-        # restrict the subelements here because the transformation is
-        # nonlocal.
-        elements = tuple(restrict(e.element, domain, take_closure) for
-                         e in element.elements)
-        reconstruct = finat.mixed.MixedElement
-    elif not any(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):
-        elements = tuple(restrict(e, domain, take_closure)
-                         for e in element.elements)
-        reconstruct = finat.EnrichedElement
-    else:
-        raise NotImplementedError("Not expecting enriched with mixture of MixedSubElement and others")
-
+    elements = tuple(restrict(e, domain, take_closure)
+                     for e in element.elements)
     elements = tuple(e for e in elements if e is not null_element)
     if elements:
-        return reconstruct(elements)
+        return finat.EnrichedElement(elements)
     else:
         return null_element
 
@@ -113,7 +101,12 @@ def restrict_hdiv(element, domain, take_closure):
 
 @restrict.register(finat.mixed.MixedSubElement)
 def restrict_mixed(element, domain, take_closure):
-    raise AssertionError("Was expecting this to be handled inside EnrichedElement restriction")
+    # Keep the place in the value vector of the mixed element.
+    restricted = restrict(element.element, domain, take_closure)
+    if restricted is null_element:
+        return null_element
+    else:
+        return finat.mixed.MixedSubElement(restricted, element.size, element.offset)
 
 
 def r_to_codim(restriction, dim):
-- 
2.43.0


From a9804d9491f6d74a58bd9fa606b93beb9c8e3443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:46 +0000
Subject: [PATCH 05/24] fix: shape of vanishing derivatives of elements that
 drop constraint dofs

---
 finat/fiat_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index d4a35ce..69e5e5d 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -125,7 +125,7 @@ class FiatElement(FiniteElementBase):
                 elif derivative > self.degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
-                    exprs.append(gem.Literal(np.zeros(self.index_shape)))
+                    exprs.append(gem.Literal(np.zeros(index_shape)))
                 else:
                     point_indices = ps.indices
                     point_shape = tuple(index.extent for index in point_indices)
-- 
2.43.0


From 4ee95df435aa2de55f8a80d8b694d211937cb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 06/24] fix: high derivatives of serendipity elements are not
 constant or zero

---
 finat/fiat_elements.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 69e5e5d..6ee6297 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -107,6 +107,9 @@ class FiatElement(FiniteElementBase):
         # dealing with transformations between physical
         # and reference space).
         index_shape = (self._element.space_dimension(),)
+        # Only Ciarlet elements report a bound on the total degree,
+        # serendipity-like spaces also contain some higher order terms.
+        tight_degree = isinstance(self._element, FIAT.CiarletElement)
         for alpha, fiat_table in fiat_result.items():
             if isinstance(fiat_table, Exception):
                 result[alpha] = gem.Failure(self.index_shape + self.value_shape, fiat_table)
@@ -119,10 +122,10 @@ class FiatElement(FiniteElementBase):
 
             exprs = []
             for table in table_roll:
-                if derivative == self.degree and not self.complex.is_macrocell():
+                if derivative == self.degree and tight_degree and not self.complex.is_macrocell():
                     # Make sure numerics satisfies theory
                     exprs.append(gem.Literal(table[0]))
-                elif derivative > self.degree:
+                elif derivative > self.degree and tight_degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
                     exprs.append(gem.Literal(np.zeros(index_shape)))
-- 
2.43.0


From ccfc348fedf14691147c43973632edbb257fcd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:50 +0000
Subject: [PATCH 07/24] fix: point evaluation of products on entities with a
 vertex factor

---
 finat/tensor_product.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/tensor_product.py b/finat/tensor_product.py
index de3708f..e51fafc 100644
--- a/finat/tensor_product.py
+++ b/finat/tensor_product.py
@@ -160,6 +160,10 @@ class TensorProductElement(FiniteElementBase):
         slices = TensorProductCell._split_slices(point_dims)
         point_factors = []
         for s in slices:
+            if s.start == s.stop:
+                # Vertex factor (ListTensor cannot be empty)
+                point_factors.append(gem.Zero((0,)))
+                continue
             point_factors.append(gem.ListTensor(
                 [gem.Indexed(point, (i,))
                  for i in range(s.start, s.stop)]
-- 
2.43.0


From 74eaeebaa8ec2a7aae3182368ff8b03b73d818ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:04 +0000
Subject: [PATCH 08/24] fix: translate symengine piecewise expressions and
 boolean constants

---
 finat/sympy2gem.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/finat/sympy2gem.py b/finat/sympy2gem.py
index 29add87..19e34c7 100644
--- a/finat/sympy2gem.py
+++ b/finat/sympy2gem.py
@@ -44,6 +44,8 @@ def sympy2gem_pow(node, self):
 
 @sympy2gem.register(sympy.logic.boolalg.BooleanTrue)
 @sympy2gem.register(sympy.logic.boolalg.BooleanFalse)
+@sympy2gem.register(type(symengine.true))
+@sympy2gem.register(type(symengine.false))
 @sympy2gem.register(bool)
 def sympy2gem_boolean(node, self):
     return gem.Literal(bool(node))
@@ -132,8 +134,12 @@ def sympy2gem_le(node, self):
 def sympy2gem_conditional(node, self):
     expr = None
     pieces = []
-    for v, c in node.args:
-        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c:
+    args = node.args
+    if isinstance(node, symengine.Piecewise):
+        # symengine lists expressions and conditions alternately
+        args = zip(args[::2], args[1::2])
+    for v, c in args:
+        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue, type(symengine.true))) and c:
             expr = self(v)
             break
         pieces.append((v, c))
-- 
2.43.0


From 4fca2f31bbd5065b49614a7f9a81fef81f89be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:44 +0000
Subject: [PATCH 09/24] fix: refuse points that are not in the coordinates of
 the entity

---
 finat/fiat_elements.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 6ee6297..1301dd1 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -95,6 +95,12 @@ class FiatElement(FiniteElementBase):
         :param ps: the point set.
         :param entity: the cell entity on which to tabulate.
         '''
+        # The points must be in the coordinates of the entity, not every
+        # FIAT element notices when they are not.
+        entity_dim = self.cell.get_dimension() if entity is None else entity[0]
+        esd = self.cell.construct_subelement(entity_dim).get_spatial_dimension()
+        assert ps.dimension == esd
+
         space_dimension = self._element.space_dimension()
         value_size = np.prod(self._element.value_shape(), dtype=int)
         fiat_result = self._element.tabulate(order, ps.points, entity)
-- 
2.43.0


From 62f4a412297bdc91f47cfd2434fcf16d9d8066f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:59 +0000
Subject: [PATCH 10/24] fix: refuse direct serendipity elements of degree zero

---
 finat/direct_serendipity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd084a4..7d7c243 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -24,6 +24,8 @@ class DirectSerendipity(DirectlyDefinedElement, FiniteElementBase):
 
         # These elements only known currently on quads
         assert isinstance(cell, UFCQuadrilateral)
+        if degree < 1:
+            raise ValueError("Direct serendipity elements only valid for k >= 1")
 
         self._cell = cell
         self._degree = degree
-- 
2.43.0


From 08d02c79deeb8fcdd967a6986ceb4627ce4c06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:10 +0000
Subject: [PATCH 11/24] fix: reject exterior calculus form degrees outside 0..n

---
 finat/ufl/elementlist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/ufl/elementlist.py b/finat/ufl/elementlist.py
index 172eb78..040dbfd 100644
--- a/finat/ufl/elementlist.py
+++ b/finat/ufl/elementlist.py
@@ -307,6 +307,8 @@ def feec_element(family, n, r, k):
     _feec_elements["Q-"] = _feec_elements["Q- Lambda"]
     _feec_elements["S"] = _feec_elements["S Lambda"]
 
+    if not 0 <= k <= n:
+        raise ValueError(f"Form degree {k} invalid in dimension {n}.")
     family, r = _feec_elements[family][n - 1][k]
 
     return family, r
@@ -354,6 +356,8 @@ def feec_element_l2(family, n, r, k):
     _feec_elements["Q- L2"] = _feec_elements["Q- Lambda L2"]
     _feec_elements["S L2"] = _feec_elements["S Lambda L2"]
 
+    if not 0 <= k <= n:
+        raise ValueError(f"Form degree {k} invalid in dimension {n}.")
     family, r = _feec_elements[family][n - 1][k]
 
     return family, r
-- 
2.43.0


From b7f29b57340cdcf8134c24790a386cec0e2fe059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 12/24] fix: smallest common space of enriched elements with
 directional spaces

---
 finat/ufl/enrichedelement.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index a054885..b76f887 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -68,13 +68,10 @@ class EnrichedElementBase(FiniteElementBase):
         else:
             # Find smallest shared Sobolev space over all sub elements
             spaces = [e.sobolev_space for e in elements]
-            superspaces = [{s} | set(s.parents) for s in spaces]
-            intersect = set.intersection(*superspaces)
-            for s in intersect.copy():
-                for parent in s.parents:
-                    intersect.discard(parent)
-
-            sobolev_space, = intersect
+            # (directional spaces are not hashable, so compare them in lists)
+            superspaces = [[s, *s.parents] for s in spaces]
+            shared = [s for s in superspaces[0] if all(s in others for others in superspaces)]
+            sobolev_space, = [s for s in shared if not any(s in list(t.parents) for t in shared)]
             return sobolev_space
 
     def variant(self):
-- 
2.43.0


From 16e609ba3341920fb19924641046df50eec50a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 13/24] fix: degrees and directional spaces of products of
 product elements

---
 finat/ufl/tensorproductelement.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/finat/ufl/tensorproductelement.py b/finat/ufl/tensorproductelement.py
index 760626f..1f58969 100644
--- a/finat/ufl/tensorproductelement.py
+++ b/finat/ufl/tensorproductelement.py
@@ -80,8 +80,9 @@ class TensorProductElement(FiniteElementBase):
     def sobolev_space(self):
         """Return the underlying Sobolev space of the TensorProductElement."""
         elements = self._sub_elements
-        if all(e.sobolev_space == elements[0].sobolev_space
-               for e in elements):
+        if (not isinstance(elements[0].sobolev_space, DirectionalSobolevSpace)
+                and all(e.sobolev_space == elements[0].sobolev_space
+                        for e in elements)):
             return elements[0].sobolev_space
         else:
             # Generate a DirectionalSobolevSpace which contains
@@ -90,8 +91,7 @@ class TensorProductElement(FiniteElementBase):
             for e in elements:
                 # TODO: is this the right value for e_dim
                 e_dim = e.cell.topological_dimension()
-                e_order = (e.sobolev_space._order,) * e_dim
-                orders.extend(e_order)
+                orders.extend(e.sobolev_space[i]._order for i in range(e_dim))
             return DirectionalSobolevSpace(orders)
 
     @property
@@ -130,9 +130,9 @@ class TensorProductElement(FiniteElementBase):
     @property
     def embedded_superdegree(self):
         """Doc."""
-        return sum(self.degree())
+        return sum(e.embedded_superdegree for e in self._sub_elements)
 
     @property
     def embedded_subdegree(self):
         """Doc."""
-        return min(self.degree())
+        return min(e.embedded_subdegree for e in self._sub_elements)
-- 
2.43.0


From bedbd072a590bbd6b86592b578bd532fac3fcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 14/24] fix: embedded degrees and copies of remapped elements

---
 finat/ufl/hdivcurl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index ed18803..4917ae6 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -170,6 +170,9 @@ class WithMapping(FiniteElementBase):
 
     def __getattr__(self, attr):
         """Doc."""
+        if attr == "wrapee":
+            # not initialised yet (when copying or unpickling)
+            raise AttributeError(attr)
         try:
             return getattr(self.wrapee, attr)
         except AttributeError:
@@ -236,9 +239,9 @@ class WithMapping(FiniteElementBase):
     @property
     def embedded_subdegree(self):
         """Return embedded subdegree."""
-        return self._element.embedded_subdegree
+        return self.wrapee.embedded_subdegree
 
     @property
     def embedded_superdegree(self):
         """Return embedded superdegree."""
-        return self._element.embedded_superdegree
+        return self.wrapee.embedded_superdegree
-- 
2.43.0


From c0e1f06477c74f74a4ed0e0c945395b9f7a86cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 15/24] fix: embedded degrees of restricted elements

---
 finat/ufl/restrictedelement.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 797cca2..398cfa8 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -111,3 +111,13 @@ class RestrictedElement(FiniteElementBase):
     def variant(self):
         """Doc."""
         return self._element.variant()
+
+    @property
+    def embedded_subdegree(self):
+        """Return embedded subdegree."""
+        return self._element.embedded_subdegree
+
+    @property
+    def embedded_superdegree(self):
+        """Return embedded superdegree."""
+        return self._element.embedded_superdegree
-- 
2.43.0


From 599b5d3dd5630337a1c53253137475b24e8def20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:36 +0000
Subject: [PATCH 16/24] fix: vector and tensor elements of products of product
 elements

---
 finat/ufl/mixedelement.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index e1dd1cc..f4174ea 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -69,7 +69,11 @@ class MixedElement(FiniteElementBase):
 
         # Initialize element data
         degrees = {e.degree() for e in self._sub_elements} - {None}
-        degree = max_degree(degrees) if degrees else None
+        if len(degrees) == 1:
+            # may be nested, for products of product elements
+            degree, = degrees
+        else:
+            degree = max_degree(degrees) if degrees else None
         FiniteElementBase.__init__(self, "Mixed", cell, degree, quad_scheme,
                                    reference_value_shape)
 
-- 
2.43.0


From c9455b5f5886d5d803b0b18060eced928f772be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:25 +0000
Subject: [PATCH 17/24] fix: tensor elements do not depend on the order of the
 symmetry dict

---
 finat/ufl/mixedelement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index f4174ea..64996cd 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -400,6 +400,8 @@ class TensorElement(MixedElement):
         else:
             if not isinstance(symmetry, dict):
                 raise ValueError("Expecting symmetry to be None (unset), True, or dict.")
+            # The order of the dict carries no meaning, do not let it into the repr
+            symmetry = dict(sorted(symmetry.items()))
 
         # Validate indices in symmetry dict
         for i, j in symmetry.items():
-- 
2.43.0


From 3b3a014b40b5c4ebe0a39e6b3c303b264f9b8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:25 +0000
Subject: [PATCH 18/24] fix: numbering of symmetric tensor components in the
 pullback

---
 finat/ufl/mixedelement.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 64996cd..892acbe 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -468,14 +468,7 @@ class TensorElement(MixedElement):
             for e in self.sub_elements:
                 if e.reference_value_shape != sub_element_value_shape:
                     raise ValueError("Sub-elements must all have the same value size")
-            symmetry = {}
-            n = 0
-            for i in np.ndindex(self._shape):
-                if i in self._symmetry and self._symmetry[i] in symmetry:
-                    symmetry[i] = symmetry[self._symmetry[i]]
-                else:
-                    symmetry[i] = n
-                    n += 1
+            symmetry = {i: self._sub_element_mapping[i] for i in np.ndindex(self._shape)}
             return SymmetricPullback(self, symmetry)
 
         return self._sub_element.pullback
-- 
2.43.0


From 1edc981c009f8422518636ebc259a7d4fb0b708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:25 +0000
Subject: [PATCH 19/24] fix: reconstructing a mixed element from fewer or more
 elements

---
 finat/ufl/mixedelement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 892acbe..68a9a48 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -87,7 +87,7 @@ class MixedElement(FiniteElementBase):
 
     def reconstruct_from_elements(self, *elements):
         """Reconstruct a mixed element from new subelements."""
-        if all(a == b for (a, b) in zip(elements, self._sub_elements)):
+        if len(elements) == len(self._sub_elements) and all(a == b for (a, b) in zip(elements, self._sub_elements)):
             return self
         return MixedElement(*elements)
 
-- 
2.43.0


From feb5d66856e9502bec584c44631f4f2696996249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:29 +0000
Subject: [PATCH 20/24] fix: component extraction of UFL elements

---
 finat/ufl/finiteelementbase.py | 12 ++++++++----
 finat/ufl/hdivcurl.py          | 11 -----------
 finat/ufl/mixedelement.py      | 27 ++++++++++++---------------
 finat/ufl/restrictedelement.py |  4 ++--
 4 files changed, 22 insertions(+), 32 deletions(-)

diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index 3a84f90..eadfa55 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -131,7 +131,7 @@ class FiniteElementBase(AbstractFiniteElement):
         """Return the integer product of the reference value shape."""
         return product(self.reference_value_shape)
 
-    def symmetry(self):  # FIXME: different approach
+    def symmetry(self, domain=None):  # FIXME: different approach
         r"""Return the symmetry dict.
 
         This is a mapping :math:`c_0 \\to c_1`
@@ -141,11 +141,15 @@ class FiniteElementBase(AbstractFiniteElement):
         """
         return {}
 
+    def value_shape(self, domain):
+        """Return the shape of the value space on a physical domain."""
+        return self.pullback.physical_value_shape(self, domain)
+
     def _check_component(self, domain, i):
         """Check that component index i is valid."""
-        sh = self.value_shape(domain.geometric_dimension())
+        sh = self.value_shape(domain)
         r = len(sh)
-        if not (len(i) == r and all(j < k for (j, k) in zip(i, sh))):
+        if not (len(i) == r and all(0 <= j < k for (j, k) in zip(i, sh))):
             raise ValueError(
                 f"Illegal component index {i} (value rank {len(i)}) "
                 f"for element (value rank {r}).")
@@ -171,7 +175,7 @@ class FiniteElementBase(AbstractFiniteElement):
         """Check that reference component index i is valid."""
         sh = self.reference_value_shape
         r = len(sh)
-        if not (len(i) == r and all(j < k for (j, k) in zip(i, sh))):
+        if not (len(i) == r and all(0 <= j < k for (j, k) in zip(i, sh))):
             raise ValueError(
                 f"Illegal component index {i} (value rank {len(i)}) "
                 f"for element (value rank {r}).")
diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index 4917ae6..e7ad31f 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -183,17 +183,6 @@ class WithMapping(FiniteElementBase):
         """Doc."""
         return f"WithMapping({repr(self.wrapee)}, '{self._mapping}')"
 
-    def value_shape(self, domain):
-        """Doc."""
-        gdim = domain.geometric_dimension()
-        mapping = self.mapping()
-        if mapping in {"covariant Piola", "contravariant Piola"}:
-            return (gdim,)
-        elif mapping in {"double covariant Piola", "double contravariant Piola"}:
-            return (gdim, gdim)
-        else:
-            return self.wrapee.value_shape(domain)
-
     @property
     def reference_value_shape(self):
         """Doc."""
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 68a9a48..8f00038 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -91,7 +91,7 @@ class MixedElement(FiniteElementBase):
             return self
         return MixedElement(*elements)
 
-    def symmetry(self, domain):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
@@ -107,7 +107,7 @@ class MixedElement(FiniteElementBase):
             st = shape_to_strides(sh)
             # Map symmetries of subelement into index space of this
             # element
-            for c0, c1 in e.symmetry().items():
+            for c0, c1 in e.symmetry(domain).items():
                 j0 = flatten_multiindex(c0, st) + j
                 j1 = flatten_multiindex(c1, st) + j
                 sm[(j0,)] = (j1,)
@@ -146,7 +146,7 @@ class MixedElement(FiniteElementBase):
         """
         if isinstance(i, int):
             i = (i,)
-        self._check_component(i)
+        self._check_component(domain, i)
 
         # Select between indexing modes
         if len(self.value_shape(domain)) == 1:
@@ -176,13 +176,13 @@ class MixedElement(FiniteElementBase):
             component = i[1:]
         return (sub_element_index, component)
 
-    def extract_component(self, i):
+    def extract_component(self, domain, i):
         """Recursively extract component index relative to a (simple) element.
 
         and that element for given value component index.
         """
-        sub_element_index, component = self.extract_subelement_component(i)
-        return self._sub_elements[sub_element_index].extract_component(component)
+        sub_element_index, component = self.extract_subelement_component(domain, i)
+        return self._sub_elements[sub_element_index].extract_component(domain, component)
 
     def extract_subelement_reference_component(self, i):
         """Extract direct subelement index and subelement relative.
@@ -193,10 +193,8 @@ class MixedElement(FiniteElementBase):
             i = (i,)
         self._check_reference_component(i)
 
-        # Select between indexing modes
-        assert len(self.reference_value_shape) == 1
         # Indexing into a long vector of flattened subelement shapes
-        j, = i
+        j = flatten_multiindex(i, shape_to_strides(self.reference_value_shape))
 
         # Find subelement for this index
         for sub_element_index, e in enumerate(self._sub_elements):
@@ -226,7 +224,7 @@ class MixedElement(FiniteElementBase):
         if component is None:
             return all(e.is_cellwise_constant() for e in self.sub_elements)
         else:
-            i, e = self.extract_component(component)
+            i, e = self.extract_reference_component(component)
             return e.is_cellwise_constant()
 
     def degree(self, component=None):
@@ -234,7 +232,7 @@ class MixedElement(FiniteElementBase):
         if component is None:
             return self._degree  # from FiniteElementBase, computed as max of subelements in __init__
         else:
-            i, e = self.extract_component(component)
+            i, e = self.extract_reference_component(component)
             return e.degree()
 
     @property
@@ -489,16 +487,15 @@ class TensorElement(MixedElement):
         """Doc."""
         return self._flattened_sub_element_mapping
 
-    def extract_subelement_component(self, i):
+    def extract_subelement_component(self, domain, i):
         """Extract direct subelement index and subelement relative.
 
         component index for a given component index.
         """
         if isinstance(i, int):
             i = (i,)
-        self._check_component(i)
+        self._check_component(domain, i)
 
-        i = self.symmetry().get(i, i)
         l = len(self._shape)  # noqa: E741
         ii = i[:l]
         jj = i[l:]
@@ -507,7 +504,7 @@ class TensorElement(MixedElement):
         k = self._sub_element_mapping[ii]
         return (k, jj)
 
-    def symmetry(self):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 398cfa8..5774218 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -82,13 +82,13 @@ class RestrictedElement(FiniteElementBase):
         return "<%s>|_{%s}" % (self._element.shortstr(),
                                self._restriction_domain)
 
-    def symmetry(self):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
         :math:`c_1`.  A component is a tuple of one or more ints.
         """
-        return self._element.symmetry()
+        return self._element.symmetry(domain)
 
     @property
     def num_sub_elements(self):
-- 
2.43.0


From 8c2bb3ec42695ad8c1ed12a71b7ea9050566ce6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:25 +0000
Subject: [PATCH 21/24] fix: transform Argyris with variant integral(q) like
 the other integral variants

---
 finat/argyris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/argyris.py b/finat/argyris.py
index 562ae41..2cbc743 100644
--- a/finat/argyris.py
+++ b/finat/argyris.py
@@ -122,7 +122,7 @@ class Argyris(PhysicallyMappedElement, ScalarFiatElement):
         eorder = self.degree - 5
 
         _vertex_transform(V, vorder, self.cell, coordinate_mapping)
-        if self.variant == "integral":
+        if self.variant != "point":
             _edge_transform(V, vorder, eorder, self.cell, coordinate_mapping, avg=self.avg)
         else:
             bary, = self.cell.make_points(sd, 0, sd+1)
-- 
2.43.0


From b38a6adef6daf91e4acf1e76feb1c74c4d0c218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:23 +0000
Subject: [PATCH 22/24] fix: direct serendipity of degree >= 3 reproduces
 polynomials on every convex quadrilateral

---
 finat/direct_serendipity.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index 7d7c243..51ad8fd 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -362,7 +362,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
 
     # for each edge:
     # I need its adjacent two edges and its opposite edge
-    # and its "tunnel R" RH or RV
+    # and its "tunnel" between the adjacent ones
     # This is very 2d specific.
     opposite_edges = {e: [eother for eother in ct[1]
                           if set(ct[1][e]).intersection(ct[1][eother]) == set()][0]
@@ -374,9 +374,9 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                       for e in ct[1]}
 
     ae = adjacent_edges
-    tunnel_R_edges = {e: ((lams[ae[e][0]] - lams[ae[e][1]])
-                          / (lams[ae[e][0]] + lams[ae[e][1]]))
-                      for e in range(4)}
+    # Linear along each edge (the trace there has to be a polynomial of
+    # degree r), and zero somewhere on the edge and on the opposite one.
+    tunnel_edges = {e: lams[ae[e][0]] - lams[ae[e][1]] for e in range(4)}
     edge_nodes = []
     for ed in range(4):
         ((v0x, v0y), (v1x, v1y)) = vs[ct[1][ed], :]
@@ -401,7 +401,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
     else:
         for ed in range(4):
             ((v0x, v0y), (v1x, v1y)) = vs[ct[1][ed], :]
-            Rcur = tunnel_R_edges[ed]
+            tunnel = tunnel_edges[ed]
             lam_op = lams[opposite_edges[ed]]
 
             edge_bfs_cur = []
@@ -417,7 +417,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                 pvals = []
                 for nd in edge_nodes_cur:
                     sub = xysub(xx, nd)
-                    pval_cur = (-1 * Rcur.subs(sub)**(r-2)
+                    pval_cur = (-1 * tunnel.subs(sub)**(r-2)
                                 / lam_op.subs(sub))
                     pvals.append(pval_cur)
 
@@ -430,7 +430,7 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                 prebf = (lams[adjacent_edges[ed][0]]
                          * lams[adjacent_edges[ed][1]]
                          * (lams[opposite_edges[ed]] * p
-                            + Rcur**(r-2) * Rs[ed]))
+                            + tunnel**(r-2) * Rs[ed]))
 
                 prebf = nodalize(prebf)
                 bfcur = prebf / prebf.subs(xysub(xx, edge_nodes[ed][i]))
-- 
2.43.0


From 724362dd7294bc8775621a34ba5496b9f7e0df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 23/24] fix: make DirectSerendipity.mapping a property like
 every other element's

It was a plain method, so the mapping of the element was a bound method and
an enriched or mixed element of two of them reported no common mapping.
---
 finat/direct_serendipity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index 51ad8fd..063bcc6 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -127,6 +127,7 @@ class DirectSerendipity(DirectlyDefinedElement, FiniteElementBase):
     def point_evaluation(self, order, refcoords, entity=None):
         raise NotImplementedError("Not done yet, sorry!")
 
+    @property
     def mapping(self):
         return "physical"
 
-- 
2.43.0


From 137fa84294861bcc4bd36b8c71d0d9473a7dab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:11 +0000
Subject: [PATCH 24/24] fix: restriction of discontinuous elements to a domain
 naming the cell keeps every function

---
 finat/restricted.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index e74db68..a6b0e2a 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -56,7 +56,9 @@ def restrict_flattened_dimensions(element, domain, take_closure):
 @restrict.register(finat.DiscontinuousLagrange)
 @restrict.register(finat.Legendre)
 def restrict_discontinuous(element, domain, take_closure):
-    if domain == "interior":
+    # All dofs are associated with the cell, so keep them if the domain
+    # names the cell (for example "face" in two dimensions).
+    if r_to_codim(domain, element.cell.get_spatial_dimension()) == 0:
         return element
     else:
         return null_element
-- 
2.43.0

