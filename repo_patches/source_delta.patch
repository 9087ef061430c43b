From 924b87c1fa0cadcbfc75b8df1558795ca9e6f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 01/35] fix: do not truncate derivatives of elements that are
 not polynomials of their reported degree

Serendipity, trimmed serendipity and BDM elements on cubes contain polynomials
of degree higher than FIAT reports, so their derivatives of that order are not
constant and those of the next order do not vanish.
---
 finat/fiat_elements.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 1f20818..1dd1ab2 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -110,6 +110,13 @@ class FiatElement(FiniteElementBase):
         # dealing with transformations between physical
         # and reference space).
         index_shape = (self._element.space_dimension(),)
+        # Only a CiarletElement reports the degree of the polynomial space
+        # that contains its basis: e.g. serendipity-type elements contain
+        # polynomials of higher degree.
+        if isinstance(self._element, FIAT.CiarletElement):
+            degree = self.degree
+        else:
+            degree = np.inf
         for alpha, fiat_table in fiat_result.items():
             if isinstance(fiat_table, Exception):
                 result[alpha] = gem.Failure(self.index_shape + self.value_shape, fiat_table)
@@ -122,10 +129,10 @@ class FiatElement(FiniteElementBase):
 
             exprs = []
             for table in table_roll:
-                if derivative == self.degree and not self.complex.is_macrocell():
+                if derivative == degree and not self.complex.is_macrocell():
                     # Make sure numerics satisfies theory
                     exprs.append(gem.Literal(table[0]))
-                elif derivative > self.degree:
+                elif derivative > degree:
                     # Make sure numerics satisfies theory
                     assert np.allclose(table, 0.0)
                     exprs.append(gem.Literal(np.zeros(self.index_shape)))
-- 
2.43.0


From a5e701ef3d373c1cd9e30d08a6c91286efbd29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 02/35] fix: derive closure degrees of freedom from the
 element's own attachment

Elements that drop constraint degrees of freedom reported closures of the
underlying FIAT element, with indices beyond their space dimension.
---
 finat/fiat_elements.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 1dd1ab2..445fe92 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -67,9 +67,6 @@ class FiatElement(FiniteElementBase):
     def entity_dofs(self):
         return self._element.entity_dofs()
 
-    def entity_closure_dofs(self):
-        return self._element.entity_closure_dofs()
-
     @property
     def entity_permutations(self):
         return self._element.entity_permutations()
-- 
2.43.0


From 56cf41218b79ced3cdad68d4ccf4626f7af6fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 03/35] fix: integrate over the subcells of macroelements to
 compute support

A rule on the unsplit cell may have all its points outside the subcells where
a basis function of a macroelement does not vanish.
---
 finat/finiteelementbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finat/finiteelementbase.py b/finat/finiteelementbase.py
index 64a6399..977078c 100644
--- a/finat/finiteelementbase.py
+++ b/finat/finiteelementbase.py
@@ -84,7 +84,8 @@ class FiniteElementBase(metaclass=ABCMeta):
             beta = self.get_indices()
             zeta = self.get_value_indices()
 
-            entity_cell = self.cell.construct_subelement(entity_dim)
+            # Integrate over each subcell of a macroelement
+            entity_cell = self.complex.construct_subcomplex(entity_dim)
             quad = make_quadrature(entity_cell, (2*numpy.array(self.degree)).tolist())
 
             eps = 1.e-8  # Is this a safe value?
-- 
2.43.0


From eca4610730b8652af635c501986a437ec2718ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:10 +0000
Subject: [PATCH 04/35] fix: take the support of tensor-valued and
 discontinuous elements from the base element

Integrating failed for elements over nested products and over flattened
products of unequal degrees, whose support is known.
---
 finat/discontinuous.py       |  3 +++
 finat/tensorfiniteelement.py | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/finat/discontinuous.py b/finat/discontinuous.py
index f5d15ae..0b2ebd7 100644
--- a/finat/discontinuous.py
+++ b/finat/discontinuous.py
@@ -40,6 +40,9 @@ class DiscontinuousElement(FiniteElementBase):
     def entity_dofs(self):
         return self._entity_dofs
 
+    def entity_support_dofs(self):
+        return self.element.entity_support_dofs()
+
     @cached_property
     def entity_permutations(self):
         # Return entity_permutations of the base finite element if it only
diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index c0a8aa9..2349139 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -69,10 +69,8 @@ class TensorFiniteElement(FiniteElementBase):
     def formdegree(self):
         return self._base_element.formdegree
 
-    @cached_property
-    def _entity_dofs(self):
+    def _expand_dofs(self, base_dofs):
         dofs = {}
-        base_dofs = self._base_element.entity_dofs()
         ndof = int(numpy.prod(self._shape, dtype=int))
 
         def expand(dofs):
@@ -92,6 +90,14 @@ class TensorFiniteElement(FiniteElementBase):
                              for k, d in base_dofs[dim].items())
         return dofs
 
+    @cached_property
+    def _entity_dofs(self):
+        return self._expand_dofs(self._base_element.entity_dofs())
+
+    @cached_property
+    def _entity_support_dofs(self):
+        return self._expand_dofs(self._base_element.entity_support_dofs())
+
     def entity_dofs(self):
         return self._entity_dofs
 
-- 
2.43.0


From 4b8f464bd2a864769d959f8de380855a34902d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 05/35] fix: point evaluation of tensor products on entities
 with a vertex factor

An empty gem.ListTensor cannot be built, so evaluating a product (or
flattened) element at run-time coordinates on any entity with a vertex
factor, e.g. every facet of a quadrilateral, raised AssertionError.
---
 finat/tensor_product.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/tensor_product.py b/finat/tensor_product.py
index de3708f..63dafd8 100644
--- a/finat/tensor_product.py
+++ b/finat/tensor_product.py
@@ -160,6 +160,10 @@ class TensorProductElement(FiniteElementBase):
         slices = TensorProductCell._split_slices(point_dims)
         point_factors = []
         for s in slices:
+            if s.start == s.stop:
+                # A vertex has no coordinates
+                point_factors.append(gem.Literal(numpy.zeros(0)))
+                continue
             point_factors.append(gem.ListTensor(
                 [gem.Indexed(point, (i,))
                  for i in range(s.start, s.stop)]
-- 
2.43.0


From 31ac3f45dccd78e18ee07388e61c3dbe8d769a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 06/35] fix: dual evaluation of transposed tensor elements
 follows the basis ordering

index_shape of a transposed TensorFiniteElement lists the tensor indices
first, and so does its dual_basis, but dual_evaluation returned the scalar
basis indices first.
---
 finat/tensorfiniteelement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finat/tensorfiniteelement.py b/finat/tensorfiniteelement.py
index 2349139..a8411a4 100644
--- a/finat/tensorfiniteelement.py
+++ b/finat/tensorfiniteelement.py
@@ -208,6 +208,8 @@ class TensorFiniteElement(FiniteElementBase):
         # a minimal memory footprint, although the operation count
         # does appear to be minimal.
         evaluation = gem.optimise.contraction(evaluation)
+        if self._transpose:
+            return evaluation, tensor_vi + scalar_i
         return evaluation, scalar_i + tensor_vi
 
     @property
-- 
2.43.0


From 429319a6503da98088f3b07035b2e9b09ab59bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 07/35] fix: per-direction quadrature degrees on hexahedra

make_quadrature accepts a tuple of degrees on quadrilaterals and product
cells, but compared the tuple with 0 on hexahedra and raised TypeError.
Treat hexahedra as products, as quadrilaterals are.
---
 finat/quadrature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finat/quadrature.py b/finat/quadrature.py
index ec6def1..8a60a2f 100644
--- a/finat/quadrature.py
+++ b/finat/quadrature.py
@@ -5,7 +5,7 @@ import gem
 import numpy
 from FIAT.quadrature import GaussLegendreQuadratureLineRule
 from FIAT.quadrature_schemes import create_quadrature as fiat_scheme
-from FIAT.reference_element import LINE, QUADRILATERAL, TENSORPRODUCT
+from FIAT.reference_element import HEXAHEDRON, LINE, QUADRILATERAL, TENSORPRODUCT
 from gem.utils import cached_property
 
 from finat.point_set import GaussLegendrePointSet, PointSet, TensorPointSet
@@ -36,7 +36,7 @@ def make_quadrature(ref_el, degree, scheme="default"):
                       for c, d in zip(ref_el.cells, degree)]
         return TensorProductQuadratureRule(quad_rules, ref_el=ref_el)
 
-    if ref_el.get_shape() == QUADRILATERAL:
+    if ref_el.get_shape() in (QUADRILATERAL, HEXAHEDRON):
         return make_quadrature(ref_el.product, degree, scheme)
 
     if degree < 0:
-- 
2.43.0


From 1a47236c38523f8165f05e12fd0071ce5a0d01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 08/35] fix: almost_equal of single-point and unknown point
 sets

TensorPointSet.almost_equal asks its factors, and QuadratureElement asks
its rule, but PointSingleton and UnknownPointSet had no almost_equal.
---
 finat/point_set.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/finat/point_set.py b/finat/point_set.py
index 63ab8dc..ffead8c 100644
--- a/finat/point_set.py
+++ b/finat/point_set.py
@@ -65,6 +65,12 @@ class PointSingleton(AbstractPointSet):
     def expression(self):
         return gem.Literal(self.point)
 
+    def almost_equal(self, other, tolerance=1e-12):
+        """Approximate numerical equality of point sets"""
+        return type(self) is type(other) and \
+            self.point.shape == other.point.shape and \
+            numpy.allclose(self.point, other.point, rtol=0, atol=tolerance)
+
 
 class UnknownPointsArray():
     """A placeholder for a set of unknown points with appropriate length
@@ -119,6 +125,11 @@ class UnknownPointSet(AbstractPointSet):
     def expression(self):
         return gem.partial_indexed(self._points_expr, self.indices)
 
+    def almost_equal(self, other, tolerance=1e-12):
+        """Point sets of unknown locations are equal when they are given by
+        the same expression"""
+        return type(self) is type(other) and self._points_expr == other._points_expr
+
 
 class PointSet(AbstractPointSet):
     """A basic point set with no internal structure representing a vector of
-- 
2.43.0


From 701662c905c593d26c9bdb62e663a334283a1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:59 +0000
Subject: [PATCH 09/35] fix: expression of a product of zero-dimensional point
 sets

An empty gem.ListTensor cannot be built, so the expression of the points of
a product of vertices raised AssertionError.
---
 finat/point_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finat/point_set.py b/finat/point_set.py
index ffead8c..959a61c 100644
--- a/finat/point_set.py
+++ b/finat/point_set.py
@@ -204,6 +204,9 @@ class TensorPointSet(AbstractPointSet):
         for point_set in self.factors:
             for i in range(point_set.dimension):
                 result.append(gem.Indexed(point_set.expression, (i,)))
+        if not result:
+            # Product of vertices: an empty gem.ListTensor cannot be built
+            return gem.Literal(numpy.zeros(0))
         return gem.ListTensor(result)
 
     def almost_equal(self, other, tolerance=1e-12):
-- 
2.43.0


From e1e75af8cc1d96f7fc56dc952c16a58531db8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 10/35] fix: raise, not return, NotImplementedError for
 unsupported restrictions

---
 finat/restricted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index cbd56b3..e81b3c6 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -26,7 +26,7 @@ def restrict(element, domain, take_closure):
         element.
     :raises ValueError: If the restricted element is empty.
     :returns: A new finat element."""
-    return NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
+    raise NotImplementedError(f"Don't know how to restrict element of type {type(element)}")
 
 
 @restrict.register(FiatElement)
-- 
2.43.0


From 489cfedacb382c4ac00b47d69c8d2f624354aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 11/35] fix: restriction of nested tensor products

---
 finat/restricted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index e81b3c6..28a5dd1 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -176,7 +176,7 @@ def restrict_tpe(element, domain, take_closure):
     restrictions = tuple(candidate
                          for candidate in chain(*(mis(len(factors), c)
                                                   for c in range(codim, upper)))
-                         if all(d <= factor.cell.get_dimension()
+                         if all(d <= factor.cell.get_spatial_dimension()
                                 for d, factor in zip(candidate, factors)))
     take_closure = False
     elements = []
@@ -184,7 +184,7 @@ def restrict_tpe(element, domain, take_closure):
         # Recurse, but don't take closure in recursion (since we
         # handled it already).
         new_factors = tuple(
-            restrict(factor, codim_to_r(codim, factor.cell.get_dimension()),
+            restrict(factor, codim_to_r(codim, factor.cell.get_spatial_dimension()),
                      take_closure)
             for factor, codim in zip(factors, decomposition))
         # If one of the factors was empty then the whole TPE is empty,
-- 
2.43.0


From b17f33504f204ba11e057dd436d0b98e8ce9ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:34 +0000
Subject: [PATCH 12/35] fix: keep discontinuous elements when the restriction
 domain is the cell

---
 finat/restricted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index 28a5dd1..91cec5b 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -56,7 +56,7 @@ def restrict_flattened_dimensions(element, domain, take_closure):
 @restrict.register(finat.DiscontinuousLagrange)
 @restrict.register(finat.Legendre)
 def restrict_discontinuous(element, domain, take_closure):
-    if domain == "interior":
+    if r_to_codim(domain, element.cell.get_spatial_dimension()) == 0:
         return element
     else:
         return null_element
-- 
2.43.0


From ab0ae05afad32e6c5b0a918aa005b25951bb1f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:57 +0000
Subject: [PATCH 13/35] fix: restricted mixed elements keep their value shape

---
 finat/restricted.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/finat/restricted.py b/finat/restricted.py
index 91cec5b..c9a6290 100644
--- a/finat/restricted.py
+++ b/finat/restricted.py
@@ -64,23 +64,11 @@ def restrict_discontinuous(element, domain, take_closure):
 
 @restrict.register(finat.EnrichedElement)
 def restrict_enriched(element, domain, take_closure):
-    if all(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):
-        # Mixed is handled by Enriched + MixedSubElement, we must
-        # restrict the subelements here because the transformation is
-        # nonlocal.
-        elements = tuple(restrict(e.element, domain, take_closure) for
-                         e in element.elements)
-        reconstruct = finat.mixed.MixedElement
-    elif not any(isinstance(e, finat.mixed.MixedSubElement) for e in element.elements):
-        elements = tuple(restrict(e, domain, take_closure)
-                         for e in element.elements)
-        reconstruct = finat.EnrichedElement
-    else:
-        raise NotImplementedError("Not expecting enriched with mixture of MixedSubElement and others")
-
+    elements = tuple(restrict(e, domain, take_closure)
+                     for e in element.elements)
     elements = tuple(e for e in elements if e is not null_element)
     if elements:
-        return reconstruct(elements)
+        return finat.EnrichedElement(elements)
     else:
         return null_element
 
@@ -113,7 +101,13 @@ def restrict_hdiv(element, domain, take_closure):
 
 @restrict.register(finat.mixed.MixedSubElement)
 def restrict_mixed(element, domain, take_closure):
-    raise AssertionError("Was expecting this to be handled inside EnrichedElement restriction")
+    # Restrict the subelement, but keep its place in the mixed value,
+    # including when other subelements vanish.
+    restricted = restrict(element.element, domain, take_closure)
+    if restricted is null_element:
+        return null_element
+    else:
+        return finat.mixed.MixedSubElement(restricted, element.size, element.offset)
 
 
 def r_to_codim(restriction, dim):
-- 
2.43.0


From 7030520bfcd55a01289c719cc3dd3639d7574f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 14/35] fix: DirectSerendipity.mapping is a property

---
 finat/direct_serendipity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd084a4..fd40051 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -125,6 +125,7 @@ class DirectSerendipity(DirectlyDefinedElement, FiniteElementBase):
     def point_evaluation(self, order, refcoords, entity=None):
         raise NotImplementedError("Not done yet, sorry!")
 
+    @property
     def mapping(self):
         return "physical"
 
-- 
2.43.0


From 33854d0ff0041ca8433aedf46555ea626f99ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 15/35] fix: linear tunnel functions in direct serendipity of
 degree >= 3

---
 finat/direct_serendipity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finat/direct_serendipity.py b/finat/direct_serendipity.py
index fd40051..e9dd529 100644
--- a/finat/direct_serendipity.py
+++ b/finat/direct_serendipity.py
@@ -373,8 +373,9 @@ def dsr_sym(ct, r, *, vs=None, sp=symbolics):
                       for e in ct[1]}
 
     ae = adjacent_edges
-    tunnel_R_edges = {e: ((lams[ae[e][0]] - lams[ae[e][1]])
-                          / (lams[ae[e][0]] + lams[ae[e][1]]))
+    # This has to be linear: dividing by the sum of the two loses P_r (and
+    # the polynomial edge traces) unless the quad is a parallelogram.
+    tunnel_R_edges = {e: lams[ae[e][0]] - lams[ae[e][1]]
                       for e in range(4)}
     edge_nodes = []
     for ed in range(4):
-- 
2.43.0


From d3e6fb97591b71b46084a6d4c0fd65dfb88893b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:47 +0000
Subject: [PATCH 16/35] fix: WithMapping can be pickled and copied

---
 finat/ufl/hdivcurl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index ed18803..bc31155 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -170,6 +170,9 @@ class WithMapping(FiniteElementBase):
 
     def __getattr__(self, attr):
         """Doc."""
+        if attr == "wrapee":
+            # Not initialised yet, e.g. while un-pickling or copying
+            raise AttributeError(attr)
         try:
             return getattr(self.wrapee, attr)
         except AttributeError:
-- 
2.43.0


From a7b9ffd68935bbe669496300eca5a738f9814feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:47 +0000
Subject: [PATCH 17/35] fix: reconstruct_from_elements with another number of
 elements

---
 finat/ufl/mixedelement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index e1dd1cc..95131e9 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -83,7 +83,8 @@ class MixedElement(FiniteElementBase):
 
     def reconstruct_from_elements(self, *elements):
         """Reconstruct a mixed element from new subelements."""
-        if all(a == b for (a, b) in zip(elements, self._sub_elements)):
+        if (len(elements) == len(self._sub_elements)
+                and all(a == b for (a, b) in zip(elements, self._sub_elements))):
             return self
         return MixedElement(*elements)
 
-- 
2.43.0


From 77cce6bc4a16bb5d8668596be890b77152c9ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:47 +0000
Subject: [PATCH 18/35] fix: identity of symmetric tensor elements does not
 depend on dict order

---
 finat/ufl/mixedelement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 95131e9..71a1b69 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -397,6 +397,8 @@ class TensorElement(MixedElement):
         else:
             if not isinstance(symmetry, dict):
                 raise ValueError("Expecting symmetry to be None (unset), True, or dict.")
+            # The order of insertion is not part of the element's identity
+            symmetry = dict(sorted(symmetry.items()))
 
         # Validate indices in symmetry dict
         for i, j in symmetry.items():
-- 
2.43.0


From 864711a091c297394dd837038e112f725437a0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 19/35] fix: embedded degrees of KMV, BDMCE, BDMCF and elements
 without a degree

The superdegree bounds the degree of the space, which for KMV includes
higher degree bubbles and for BDMCE/BDMCF one degree more than complete.
Bernardi-Raugel and Guzman-Neilan bubbles need no degree.
---
 finat/ufl/elementlist.py   | 6 ++++++
 finat/ufl/finiteelement.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/finat/ufl/elementlist.py b/finat/ufl/elementlist.py
index 172eb78..5598fb2 100644
--- a/finat/ufl/elementlist.py
+++ b/finat/ufl/elementlist.py
@@ -465,4 +465,10 @@ def canonical_element_description(family, cell, order, form_degree):
     embedded_degree = order
     if any(bubble in family for bubble in ("Guzman-Neilan", "Bernardi-Raugel")):
         embedded_degree = tdim
+    elif family in ("BDMCE", "BDMCF") and isinstance(order, int):
+        # The space includes derivatives of polynomials of degree order + 2
+        embedded_degree = order + 1
+    elif family == "Kong-Mulder-Veldhuizen" and isinstance(order, int) and order > 1:
+        # The bubbles are of higher degree than the rest of the space
+        embedded_degree = order + (1 if tdim == 2 and order < 5 else 2)
     return family, short_name, order, reference_value_shape, sobolev_space, mapping, embedded_degree
diff --git a/finat/ufl/finiteelement.py b/finat/ufl/finiteelement.py
index 36c3d92..6ac9417 100644
--- a/finat/ufl/finiteelement.py
+++ b/finat/ufl/finiteelement.py
@@ -240,6 +240,8 @@ class FiniteElement(FiniteElementBase):
     def embedded_subdegree(self):
         """Return embedded subdegree."""
         subdegree = self.degree()
+        if subdegree is None:
+            return self._embedded_degree
         if not isinstance(subdegree, int):
             subdegree = min(subdegree)
         if isinstance(self._embedded_degree, int):
@@ -250,6 +252,8 @@ class FiniteElement(FiniteElementBase):
     def embedded_superdegree(self):
         """Return embedded superdegree."""
         superdegree = self.degree()
+        if superdegree is None:
+            return self._embedded_degree
         if not isinstance(superdegree, int):
             superdegree = max(superdegree)
         if isinstance(self._embedded_degree, int):
-- 
2.43.0


From 722a986badb117cfaeb688c38cf7aa2d9ae6f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:02 +0000
Subject: [PATCH 20/35] fix: embedded degrees of restricted elements and nested
 tensor products

The restriction of a tensor product reported a tuple, and a product with
a product as factor raised TypeError.
---
 finat/ufl/restrictedelement.py    | 10 ++++++++++
 finat/ufl/tensorproductelement.py |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 797cca2..398cfa8 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -111,3 +111,13 @@ class RestrictedElement(FiniteElementBase):
     def variant(self):
         """Doc."""
         return self._element.variant()
+
+    @property
+    def embedded_subdegree(self):
+        """Return embedded subdegree."""
+        return self._element.embedded_subdegree
+
+    @property
+    def embedded_superdegree(self):
+        """Return embedded superdegree."""
+        return self._element.embedded_superdegree
diff --git a/finat/ufl/tensorproductelement.py b/finat/ufl/tensorproductelement.py
index 760626f..1bb1553 100644
--- a/finat/ufl/tensorproductelement.py
+++ b/finat/ufl/tensorproductelement.py
@@ -130,9 +130,9 @@ class TensorProductElement(FiniteElementBase):
     @property
     def embedded_superdegree(self):
         """Doc."""
-        return sum(self.degree())
+        return sum(e.embedded_superdegree for e in self._sub_elements)
 
     @property
     def embedded_subdegree(self):
         """Doc."""
-        return min(self.degree())
+        return min(e.embedded_subdegree for e in self._sub_elements)
-- 
2.43.0


From 4c003a8fc2802c1c40eae9407f109a864fd43774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:45 +0000
Subject: [PATCH 21/35] fix: degrees of mixed and enriched elements with nested
 tensor products

The maximum is componentwise also for nested tuples: vectors of nested
tensor products raised ValueError and sums compared lexicographically.
---
 finat/ufl/enrichedelement.py   |  9 +++------
 finat/ufl/finiteelementbase.py | 13 +++++++++++++
 finat/ufl/mixedelement.py      |  4 ++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index a054885..e446223 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -11,7 +11,7 @@
 # Modified by Massimiliano Leoni, 2016
 # Modified by Matthew Scroggs, 2023
 
-from finat.ufl.finiteelementbase import FiniteElementBase
+from finat.ufl.finiteelementbase import FiniteElementBase, max_degree
 
 
 class EnrichedElementBase(FiniteElementBase):
@@ -25,11 +25,8 @@ class EnrichedElementBase(FiniteElementBase):
         if not all(e.cell == cell for e in elements[1:]):
             raise ValueError("Cell mismatch for sub elements of enriched element.")
 
-        if isinstance(elements[0].degree(), int):
-            degrees = {e.degree() for e in elements} - {None}
-            degree = max(degrees) if degrees else None
-        else:
-            degree = tuple(map(max, zip(*[e.degree() for e in elements])))
+        degrees = {e.degree() for e in elements} - {None}
+        degree = max_degree(degrees) if degrees else None
 
         # We can allow the scheme not to be defined, but all defined
         # should be equal
diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index 3a84f90..a4c48ad 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -20,6 +20,19 @@ from ufl.finiteelement import AbstractFiniteElement
 from ufl.utils.sequences import product
 
 
+def max_degree(degrees):
+    """Maximum of (nested tuples of) degrees, componentwise."""
+    degrees = list(degrees)
+    tuples = [d for d in degrees if isinstance(d, tuple)]
+    if not tuples:
+        return max(degrees)
+    if len({len(d) for d in tuples}) > 1:
+        raise ValueError(f"Degrees {degrees} do not have the same structure.")
+    # A scalar degree applies to all directions
+    return tuple(max_degree(d[i] if isinstance(d, tuple) else d for d in degrees)
+                 for i in range(len(tuples[0])))
+
+
 class FiniteElementBase(AbstractFiniteElement):
     """Base class for all finite elements."""
     __slots__ = ("_family", "_cell", "_degree", "_quad_scheme",
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 71a1b69..1bdfa8f 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -15,11 +15,11 @@ import numpy as np
 
 from ufl.cell import as_cell
 from finat.ufl.finiteelement import FiniteElement
-from finat.ufl.finiteelementbase import FiniteElementBase
+from finat.ufl.finiteelementbase import FiniteElementBase, max_degree
 from ufl.permutation import compute_indices
 from ufl.pullback import MixedPullback, SymmetricPullback
 from ufl.utils.indexflattening import flatten_multiindex, shape_to_strides, unflatten_index
-from ufl.utils.sequences import max_degree, product
+from ufl.utils.sequences import product
 
 
 class MixedElement(FiniteElementBase):
-- 
2.43.0


From 4eeb64d716faaa07f6f997549305ad8abda526ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:45 +0000
Subject: [PATCH 22/35] fix: bubble elements of nominal degree 0 are not
 cellwise constant

---
 finat/ufl/finiteelementbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index a4c48ad..97f7e02 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -132,7 +132,7 @@ class FiniteElementBase(AbstractFiniteElement):
 
     def is_cellwise_constant(self, component=None):
         """Return whether the basis functions of this element is spatially constant over each cell."""
-        return self._is_globally_constant() or self.degree() == 0
+        return self._is_globally_constant() or self.degree() == self.embedded_superdegree == 0
 
     @property
     def reference_value_shape(self):
-- 
2.43.0


From b999b296e0b9d124548a040bae737a233083a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 23/35] fix: Sobolev spaces of mixed elements, sums and
 products with anisotropic spaces

Mixed elements of incomparable spaces took the space of the first part,
sums with an anisotropic space raised TypeError, and products forgot the
anisotropy of their factors.
---
 finat/ufl/enrichedelement.py      | 18 ++----------------
 finat/ufl/finiteelementbase.py    | 23 +++++++++++++++++++++++
 finat/ufl/mixedelement.py         |  4 ++--
 finat/ufl/tensorproductelement.py | 13 ++++++-------
 4 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/finat/ufl/enrichedelement.py b/finat/ufl/enrichedelement.py
index e446223..16830fd 100644
--- a/finat/ufl/enrichedelement.py
+++ b/finat/ufl/enrichedelement.py
@@ -11,7 +11,7 @@
 # Modified by Massimiliano Leoni, 2016
 # Modified by Matthew Scroggs, 2023
 
-from finat.ufl.finiteelementbase import FiniteElementBase, max_degree
+from finat.ufl.finiteelementbase import FiniteElementBase, common_sobolev_space, max_degree
 
 
 class EnrichedElementBase(FiniteElementBase):
@@ -58,21 +58,7 @@ class EnrichedElementBase(FiniteElementBase):
     @property
     def sobolev_space(self):
         """Return the underlying Sobolev space."""
-        elements = [e for e in self._elements]
-        if all(e.sobolev_space == elements[0].sobolev_space
-               for e in elements):
-            return elements[0].sobolev_space
-        else:
-            # Find smallest shared Sobolev space over all sub elements
-            spaces = [e.sobolev_space for e in elements]
-            superspaces = [{s} | set(s.parents) for s in spaces]
-            intersect = set.intersection(*superspaces)
-            for s in intersect.copy():
-                for parent in s.parents:
-                    intersect.discard(parent)
-
-            sobolev_space, = intersect
-            return sobolev_space
+        return common_sobolev_space(e.sobolev_space for e in self._elements)
 
     def variant(self):
         """Doc."""
diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index 97f7e02..d8f12f8 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -17,6 +17,7 @@ from hashlib import md5
 from ufl import pullback
 from ufl.cell import AbstractCell, as_cell
 from ufl.finiteelement import AbstractFiniteElement
+from ufl.sobolevspace import DirectionalSobolevSpace, L2
 from ufl.utils.sequences import product
 
 
@@ -33,6 +34,28 @@ def max_degree(degrees):
                  for i in range(len(tuples[0])))
 
 
+def common_sobolev_space(spaces):
+    """Smallest Sobolev space containing all the given ones."""
+    spaces = list(spaces)
+    if all(s == spaces[0] for s in spaces):
+        return spaces[0]
+
+    directional = [s for s in spaces if isinstance(s, DirectionalSobolevSpace)]
+    if directional:
+        # Smoothness is required of all spaces in each direction
+        orders = tuple(min(s[i]._order for s in spaces)
+                       for i in range(len(directional[0]._orders)))
+        return DirectionalSobolevSpace(orders) if any(orders) else L2
+
+    superspaces = [{s} | set(s.parents) for s in spaces]
+    intersect = set.intersection(*superspaces)
+    for s in intersect.copy():
+        for parent in s.parents:
+            intersect.discard(parent)
+    sobolev_space, = intersect
+    return sobolev_space
+
+
 class FiniteElementBase(AbstractFiniteElement):
     """Base class for all finite elements."""
     __slots__ = ("_family", "_cell", "_degree", "_quad_scheme",
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 1bdfa8f..8446b27 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -15,7 +15,7 @@ import numpy as np
 
 from ufl.cell import as_cell
 from finat.ufl.finiteelement import FiniteElement
-from finat.ufl.finiteelementbase import FiniteElementBase, max_degree
+from finat.ufl.finiteelementbase import FiniteElementBase, common_sobolev_space, max_degree
 from ufl.permutation import compute_indices
 from ufl.pullback import MixedPullback, SymmetricPullback
 from ufl.utils.indexflattening import flatten_multiindex, shape_to_strides, unflatten_index
@@ -117,7 +117,7 @@ class MixedElement(FiniteElementBase):
     @property
     def sobolev_space(self):
         """Doc."""
-        return max(e.sobolev_space for e in self._sub_elements)
+        return common_sobolev_space(e.sobolev_space for e in self._sub_elements)
 
     def mapping(self):
         """Doc."""
diff --git a/finat/ufl/tensorproductelement.py b/finat/ufl/tensorproductelement.py
index 1bb1553..56ee8c1 100644
--- a/finat/ufl/tensorproductelement.py
+++ b/finat/ufl/tensorproductelement.py
@@ -79,19 +79,18 @@ class TensorProductElement(FiniteElementBase):
     @property
     def sobolev_space(self):
         """Return the underlying Sobolev space of the TensorProductElement."""
-        elements = self._sub_elements
-        if all(e.sobolev_space == elements[0].sobolev_space
-               for e in elements):
-            return elements[0].sobolev_space
+        spaces = [e.sobolev_space for e in self._sub_elements]
+        if (all(s == spaces[0] for s in spaces)
+                and not isinstance(spaces[0], DirectionalSobolevSpace)):
+            return spaces[0]
         else:
             # Generate a DirectionalSobolevSpace which contains
             # continuity information parametrized by spatial index
             orders = []
-            for e in elements:
+            for e, s in zip(self._sub_elements, spaces):
                 # TODO: is this the right value for e_dim
                 e_dim = e.cell.topological_dimension()
-                e_order = (e.sobolev_space._order,) * e_dim
-                orders.extend(e_order)
+                orders.extend(s[i]._order for i in range(e_dim))
             return DirectionalSobolevSpace(orders)
 
     @property
-- 
2.43.0


From d3e82ab2ecb760d55bc508a94bd4e8838e67d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 24/35] fix: discontinuous Lagrange without a degree and
 printed names on cubes

DG on a quadrilateral without a degree raised TypeError, and equal
elements were printed as CG or Q depending on the name they were given.
---
 finat/ufl/elementlist.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/finat/ufl/elementlist.py b/finat/ufl/elementlist.py
index 5598fb2..eda02ab 100644
--- a/finat/ufl/elementlist.py
+++ b/finat/ufl/elementlist.py
@@ -420,17 +420,18 @@ def canonical_element_description(family, cell, order, form_degree):
 
     # Accept CG/DG on all kind of cells, but use Q/DQ on "product" cells
     if cellname in set(cubes) - set(simplices) or isinstance(cell, TensorProductCell):
+        # (these have no short names of their own)
         if family == "Lagrange":
-            family = "Q"
+            family, short_name = "Q", None
         elif family == "Discontinuous Lagrange":
-            if order >= 1:
+            if order is not None and order >= 1:
                 warnings.warn("Discontinuous Lagrange element requested on %s, creating DQ element." % cell.cellname())
-            family = "DQ"
+            family, short_name = "DQ", None
         elif family == "Discontinuous Lagrange L2":
-            if order >= 1:
+            if order is not None and order >= 1:
                 warnings.warn(f"Discontinuous Lagrange L2 element requested on {cell.cellname()}, "
                               "creating DQ L2 element.")
-            family = "DQ L2"
+            family, short_name = "DQ L2", None
 
     # Validate cellname if a valid cell is specified
     if not (cellname is None or cellname in cellnames):
-- 
2.43.0


From 072eb8878ea23df09c00a4b0d5df138404770561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 25/35] fix: numbering of symmetric tensor components given by
 later or chained components

---
 finat/ufl/mixedelement.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index 8446b27..eeba70a 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -402,7 +402,7 @@ class TensorElement(MixedElement):
 
         # Validate indices in symmetry dict
         for i, j in symmetry.items():
-            if len(i) != len(j):
+            if not len(i) == len(j) == len(shape):
                 raise ValueError("Non-matching length of symmetry index tuples.")
             for k in range(len(i)):
                 if not (i[k] >= 0 and j[k] >= 0 and i[k] < shape[k] and j[k] < shape[k]):
@@ -423,8 +423,13 @@ class TensorElement(MixedElement):
 
         # Update mapping for symmetry
         for index in indices:
-            if index in symmetry:
-                sub_element_mapping[index] = sub_element_mapping[symmetry[index]]
+            # Components may be identified through one another
+            representative = index
+            for _ in symmetry:
+                representative = symmetry.get(representative, representative)
+            if representative in symmetry:
+                raise ValueError("Symmetry does not lead to an independent component.")
+            sub_element_mapping[index] = sub_element_mapping[representative]
         flattened_sub_element_mapping = [sub_element_mapping[index] for i,
                                          index in enumerate(indices)]
 
@@ -465,14 +470,7 @@ class TensorElement(MixedElement):
             for e in self.sub_elements:
                 if e.reference_value_shape != sub_element_value_shape:
                     raise ValueError("Sub-elements must all have the same value size")
-            symmetry = {}
-            n = 0
-            for i in np.ndindex(self._shape):
-                if i in self._symmetry and self._symmetry[i] in symmetry:
-                    symmetry[i] = symmetry[self._symmetry[i]]
-                else:
-                    symmetry[i] = n
-                    n += 1
+            symmetry = {i: self._sub_element_mapping[i] for i in np.ndindex(self._shape)}
             return SymmetricPullback(self, symmetry)
 
         return self._sub_element.pullback
-- 
2.43.0


From c870a27b16c308ea8836832cc59f7a8eff7073b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:22 +0000
Subject: [PATCH 26/35] fix: component lookup in vector, tensor and mixed
 elements

The lookup of value components called value_shape methods that no longer
exist and the checks were called without the domain; Mixed.symmetry,
extract_component and degree(component) always raised. Use the pull back's
value shape, pass the domain consistently, and let vectors and tensors look
up their multi-indexed reference components.
---
 finat/ufl/finiteelementbase.py |  8 +++++--
 finat/ufl/hdivcurl.py          |  6 ++---
 finat/ufl/mixedelement.py      | 41 +++++++++++++++++-----------------
 finat/ufl/restrictedelement.py |  4 ++--
 4 files changed, 31 insertions(+), 28 deletions(-)

diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index d8f12f8..a91bc9e 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -167,7 +167,7 @@ class FiniteElementBase(AbstractFiniteElement):
         """Return the integer product of the reference value shape."""
         return product(self.reference_value_shape)
 
-    def symmetry(self):  # FIXME: different approach
+    def symmetry(self, domain=None):  # FIXME: different approach
         r"""Return the symmetry dict.
 
         This is a mapping :math:`c_0 \\to c_1`
@@ -177,9 +177,13 @@ class FiniteElementBase(AbstractFiniteElement):
         """
         return {}
 
+    def _value_shape(self, domain):
+        """Return the shape of the value space on a physical domain."""
+        return self.pullback.physical_value_shape(self, domain)
+
     def _check_component(self, domain, i):
         """Check that component index i is valid."""
-        sh = self.value_shape(domain.geometric_dimension())
+        sh = self._value_shape(domain)
         r = len(sh)
         if not (len(i) == r and all(j < k for (j, k) in zip(i, sh))):
             raise ValueError(
diff --git a/finat/ufl/hdivcurl.py b/finat/ufl/hdivcurl.py
index bc31155..294d43d 100644
--- a/finat/ufl/hdivcurl.py
+++ b/finat/ufl/hdivcurl.py
@@ -183,8 +183,8 @@ class WithMapping(FiniteElementBase):
         """Doc."""
         return f"WithMapping({repr(self.wrapee)}, '{self._mapping}')"
 
-    def value_shape(self, domain):
-        """Doc."""
+    def _value_shape(self, domain):
+        """Return the shape of the value space on a physical domain."""
         gdim = domain.geometric_dimension()
         mapping = self.mapping()
         if mapping in {"covariant Piola", "contravariant Piola"}:
@@ -192,7 +192,7 @@ class WithMapping(FiniteElementBase):
         elif mapping in {"double covariant Piola", "double contravariant Piola"}:
             return (gdim, gdim)
         else:
-            return self.wrapee.value_shape(domain)
+            return self.wrapee._value_shape(domain)
 
     @property
     def reference_value_shape(self):
diff --git a/finat/ufl/mixedelement.py b/finat/ufl/mixedelement.py
index eeba70a..ebcde88 100644
--- a/finat/ufl/mixedelement.py
+++ b/finat/ufl/mixedelement.py
@@ -100,17 +100,19 @@ class MixedElement(FiniteElementBase):
         # Base index of the current subelement into mixed value
         j = 0
         for e in self._sub_elements:
-            sh = e.value_shape(domain)
+            sh = e._value_shape(domain)
             st = shape_to_strides(sh)
             # Map symmetries of subelement into index space of this
             # element
-            for c0, c1 in e.symmetry().items():
-                j0 = flatten_multiindex(c0, st) + j
-                j1 = flatten_multiindex(c1, st) + j
-                sm[(j0,)] = (j1,)
+            for c0, c1 in e.symmetry(domain).items():
+                # The symmetry applies to all components of a block
+                for tail in np.ndindex(sh[len(c0):]):
+                    j0 = flatten_multiindex(c0 + tail, st) + j
+                    j1 = flatten_multiindex(c1 + tail, st) + j
+                    sm[(j0,)] = (j1,)
             # Update base index for next element
             j += product(sh)
-        if j != product(self.value_shape(domain)):
+        if j != product(self._value_shape(domain)):
             raise ValueError("Size mismatch in symmetry algorithm.")
         return sm or {}
 
@@ -143,17 +145,17 @@ class MixedElement(FiniteElementBase):
         """
         if isinstance(i, int):
             i = (i,)
-        self._check_component(i)
+        self._check_component(domain, i)
 
         # Select between indexing modes
-        if len(self.value_shape(domain)) == 1:
+        if len(self._value_shape(domain)) == 1:
             # Indexing into a long vector of flattened subelement
             # shapes
             j, = i
 
             # Find subelement for this index
             for sub_element_index, e in enumerate(self._sub_elements):
-                sh = e.value_shape(domain)
+                sh = e._value_shape(domain)
                 si = product(sh)
                 if j < si:
                     break
@@ -173,13 +175,13 @@ class MixedElement(FiniteElementBase):
             component = i[1:]
         return (sub_element_index, component)
 
-    def extract_component(self, i):
+    def extract_component(self, domain, i):
         """Recursively extract component index relative to a (simple) element.
 
         and that element for given value component index.
         """
-        sub_element_index, component = self.extract_subelement_component(i)
-        return self._sub_elements[sub_element_index].extract_component(component)
+        sub_element_index, component = self.extract_subelement_component(domain, i)
+        return self._sub_elements[sub_element_index].extract_component(domain, component)
 
     def extract_subelement_reference_component(self, i):
         """Extract direct subelement index and subelement relative.
@@ -190,10 +192,8 @@ class MixedElement(FiniteElementBase):
             i = (i,)
         self._check_reference_component(i)
 
-        # Select between indexing modes
-        assert len(self.reference_value_shape) == 1
         # Indexing into a long vector of flattened subelement shapes
-        j, = i
+        j = flatten_multiindex(i, shape_to_strides(self.reference_value_shape))
 
         # Find subelement for this index
         for sub_element_index, e in enumerate(self._sub_elements):
@@ -223,7 +223,7 @@ class MixedElement(FiniteElementBase):
         if component is None:
             return all(e.is_cellwise_constant() for e in self.sub_elements)
         else:
-            i, e = self.extract_component(component)
+            i, e = self.extract_reference_component(component)
             return e.is_cellwise_constant()
 
     def degree(self, component=None):
@@ -231,7 +231,7 @@ class MixedElement(FiniteElementBase):
         if component is None:
             return self._degree  # from FiniteElementBase, computed as max of subelements in __init__
         else:
-            i, e = self.extract_component(component)
+            i, e = self.extract_reference_component(component)
             return e.degree()
 
     @property
@@ -491,16 +491,15 @@ class TensorElement(MixedElement):
         """Doc."""
         return self._flattened_sub_element_mapping
 
-    def extract_subelement_component(self, i):
+    def extract_subelement_component(self, domain, i):
         """Extract direct subelement index and subelement relative.
 
         component index for a given component index.
         """
         if isinstance(i, int):
             i = (i,)
-        self._check_component(i)
+        self._check_component(domain, i)
 
-        i = self.symmetry().get(i, i)
         l = len(self._shape)  # noqa: E741
         ii = i[:l]
         jj = i[l:]
@@ -509,7 +508,7 @@ class TensorElement(MixedElement):
         k = self._sub_element_mapping[ii]
         return (k, jj)
 
-    def symmetry(self):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
diff --git a/finat/ufl/restrictedelement.py b/finat/ufl/restrictedelement.py
index 398cfa8..5774218 100644
--- a/finat/ufl/restrictedelement.py
+++ b/finat/ufl/restrictedelement.py
@@ -82,13 +82,13 @@ class RestrictedElement(FiniteElementBase):
         return "<%s>|_{%s}" % (self._element.shortstr(),
                                self._restriction_domain)
 
-    def symmetry(self):
+    def symmetry(self, domain=None):
         r"""Return the symmetry dict, which is a mapping :math:`c_0 \\to c_1`.
 
         meaning that component :math:`c_0` is represented by component
         :math:`c_1`.  A component is a tuple of one or more ints.
         """
-        return self._element.symmetry()
+        return self._element.symmetry(domain)
 
     @property
     def num_sub_elements(self):
-- 
2.43.0


From ccbcb3e28d1a2133a502ede7a4b6b03be3c1cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:47 +0000
Subject: [PATCH 27/35] fix: translate symengine piecewise expressions and
 boolean constants

---
 finat/sympy2gem.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/finat/sympy2gem.py b/finat/sympy2gem.py
index 29add87..36dae2c 100644
--- a/finat/sympy2gem.py
+++ b/finat/sympy2gem.py
@@ -4,11 +4,13 @@ import numpy
 import sympy
 try:
     import symengine
+    from symengine.lib.symengine_wrapper import BooleanAtom
 except ImportError:
     class Mock:
         def __getattribute__(self, name):
             return Mock
     symengine = Mock()
+    BooleanAtom = Mock
 
 import gem
 
@@ -44,6 +46,7 @@ def sympy2gem_pow(node, self):
 
 @sympy2gem.register(sympy.logic.boolalg.BooleanTrue)
 @sympy2gem.register(sympy.logic.boolalg.BooleanFalse)
+@sympy2gem.register(BooleanAtom)
 @sympy2gem.register(bool)
 def sympy2gem_boolean(node, self):
     return gem.Literal(bool(node))
@@ -132,8 +135,12 @@ def sympy2gem_le(node, self):
 def sympy2gem_conditional(node, self):
     expr = None
     pieces = []
-    for v, c in node.args:
-        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue)) and c:
+    args = node.args
+    if isinstance(node, symengine.Piecewise):
+        # symengine flattens the pairs of value and condition
+        args = zip(args[::2], args[1::2])
+    for v, c in args:
+        if isinstance(c, (bool, numpy.bool, sympy.logic.boolalg.BooleanTrue, BooleanAtom)) and c:
             expr = self(v)
             break
         pieces.append((v, c))
-- 
2.43.0


From 5c6b52c62c85a8d87adb40466dc22c226c0dd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:47 +0000
Subject: [PATCH 28/35] fix: keep integers beyond 64 bits real when translating
 symbolic expressions

---
 finat/sympy2gem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finat/sympy2gem.py b/finat/sympy2gem.py
index 36dae2c..56f8e65 100644
--- a/finat/sympy2gem.py
+++ b/finat/sympy2gem.py
@@ -56,7 +56,8 @@ def sympy2gem_boolean(node, self):
 @sympy2gem.register(symengine.Integer)
 @sympy2gem.register(int)
 def sympy2gem_integer(node, self):
-    return gem.Literal(int(node))
+    # NumPy has no integers of arbitrary size: literals are floats anyway
+    return gem.Literal(float(int(node)))
 
 
 @sympy2gem.register(sympy.Float)
-- 
2.43.0


From 61bf9d7ed50adc02932712c02be48564db2ef1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:47 +0000
Subject: [PATCH 29/35] fix: do not take a union or restriction of mixed
 elements for a mixed element

---
 finat/enriched.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/finat/enriched.py b/finat/enriched.py
index 29e42fe..8233239 100644
--- a/finat/enriched.py
+++ b/finat/enriched.py
@@ -90,7 +90,14 @@ class EnrichedElement(FiniteElementBase):
         # Avoid circular import dependency
         from finat.mixed import MixedSubElement
 
-        return all(isinstance(e, MixedSubElement) for e in self.elements)
+        if not all(isinstance(e, MixedSubElement) for e in self.elements):
+            return False
+        # The elements of a mixed element occupy consecutive parts of
+        # the value, unlike those of a union of mixed elements.
+        sizes = [numpy.prod(e.element.value_shape, dtype=int) for e in self.elements]
+        *offsets, size = numpy.cumsum([0] + sizes)
+        return all(e.offset == offset and e.size == size
+                   for e, offset in zip(self.elements, offsets))
 
     def _compose_evaluations(self, results):
         keys, = set(map(frozenset, results))
-- 
2.43.0


From 4d0373b14e17facbca3534574440ff01a8e9f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:45 +0000
Subject: [PATCH 30/35] fix: refuse negative component indices

extract_component and friends accepted them: (1, -1) on a vector of
vector-valued elements was taken to be a component of the first part.
---
 finat/ufl/finiteelementbase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finat/ufl/finiteelementbase.py b/finat/ufl/finiteelementbase.py
index a91bc9e..5ef7fff 100644
--- a/finat/ufl/finiteelementbase.py
+++ b/finat/ufl/finiteelementbase.py
@@ -185,7 +185,7 @@ class FiniteElementBase(AbstractFiniteElement):
         """Check that component index i is valid."""
         sh = self._value_shape(domain)
         r = len(sh)
-        if not (len(i) == r and all(j < k for (j, k) in zip(i, sh))):
+        if not (len(i) == r and all(0 <= j < k for (j, k) in zip(i, sh))):
             raise ValueError(
                 f"Illegal component index {i} (value rank {len(i)}) "
                 f"for element (value rank {r}).")
@@ -211,7 +211,7 @@ class FiniteElementBase(AbstractFiniteElement):
         """Check that reference component index i is valid."""
         sh = self.reference_value_shape
         r = len(sh)
-        if not (len(i) == r and all(j < k for (j, k) in zip(i, sh))):
+        if not (len(i) == r and all(0 <= j < k for (j, k) in zip(i, sh))):
             raise ValueError(
                 f"Illegal component index {i} (value rank {len(i)}) "
                 f"for element (value rank {r}).")
-- 
2.43.0


From e942fdda1d3de3487ffccb3ec25fe163d93f078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:45 +0000
Subject: [PATCH 31/35] fix: degree of flattened products with different
 degrees per direction

FlattenedDimensions.degree raised ValueError unless the degree was the same
in all directions.
---
 finat/cube.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/finat/cube.py b/finat/cube.py
index 39aeccd..69c9d58 100644
--- a/finat/cube.py
+++ b/finat/cube.py
@@ -9,6 +9,14 @@ from gem.utils import cached_property
 from finat.finiteelementbase import FiniteElementBase
 
 
+def flatten_degree(degree):
+    """Scalar degrees in a tuple tree of degrees."""
+    if isinstance(degree, tuple):
+        return [k for d in degree for k in flatten_degree(d)]
+    else:
+        return [degree]
+
+
 class FlattenedDimensions(FiniteElementBase):
     """Class for elements on quadrilaterals and hexahedra.  Wraps a tensor
     product element on a tensor product cell, and flattens its entity
@@ -35,8 +43,8 @@ class FlattenedDimensions(FiniteElementBase):
 
     @property
     def degree(self):
-        unique_degree, = set(self.product.degree)
-        return unique_degree
+        # The degree may differ between the directions
+        return max(flatten_degree(self.product.degree))
 
     @property
     def formdegree(self):
-- 
2.43.0


From f8987c3e387259ece6b89a81b7ff8c31277a6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:59 +0000
Subject: [PATCH 32/35] fix: tensor product quadrature rules from an iterator
 keep their orientation maps

---
 finat/quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/quadrature.py b/finat/quadrature.py
index 8a60a2f..da233ed 100644
--- a/finat/quadrature.py
+++ b/finat/quadrature.py
@@ -127,7 +127,7 @@ class TensorProductQuadratureRule(AbstractQuadratureRule):
         self.factors = tuple(factors)
         self._intrinsic_orientation_permutation_map_tuple = tuple(
             m
-            for factor in factors
+            for factor in self.factors
             for m in factor._intrinsic_orientation_permutation_map_tuple
         )
 
-- 
2.43.0


From 3343f15d89ee48ee747010812a8bed125958dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:59 +0000
Subject: [PATCH 33/35] fix: refuse to dual evaluate functions of another shape
 than the element's value

---
 finat/finiteelementbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finat/finiteelementbase.py b/finat/finiteelementbase.py
index 977078c..0322c2b 100644
--- a/finat/finiteelementbase.py
+++ b/finat/finiteelementbase.py
@@ -262,7 +262,7 @@ class FiniteElementBase(metaclass=ABCMeta):
         expr = sum_factorise(sum_indices, factors)
         # NOTE: any shape indices in the expression are because the
         # expression is tensor valued.
-        assert expr.shape == Q.shape[len(Q.shape)-len(expr.shape):]
+        assert expr.shape == self.value_shape
         shape_indices = gem.indices(len(expr.shape))
         basis_indices = gem.indices(len(Q.shape) - len(expr.shape))
         Qi = Q[basis_indices + shape_indices]
-- 
2.43.0


From c8c298e0ee2b90277d639d151b0721ddb2583f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:51 +0000
Subject: [PATCH 34/35] fix: degree of BrezziDouglasMariniCube elements is that
 of the space

The degree of an element is that of the embedding polynomial space, but the
nominal degree k of these elements is only that of the complete polynomials:
the space includes curls of polynomials of degree k + 2.
---
 finat/fiat_elements.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/finat/fiat_elements.py b/finat/fiat_elements.py
index 445fe92..0ea1fa2 100644
--- a/finat/fiat_elements.py
+++ b/finat/fiat_elements.py
@@ -457,6 +457,11 @@ class BrezziDouglasMariniCubeEdge(VectorFiatElement):
     def __init__(self, cell, degree):
         super().__init__(FIAT.BrezziDouglasMariniCubeEdge(cell, degree))
 
+    @property
+    def degree(self):
+        # The nominal degree is that of the complete polynomials only
+        return self._element.degree() + 1
+
     @property
     def entity_permutations(self):
         raise NotImplementedError(f"entity_permutations not yet implemented for {type(self)}")
@@ -466,6 +471,11 @@ class BrezziDouglasMariniCubeFace(VectorFiatElement):
     def __init__(self, cell, degree):
         super().__init__(FIAT.BrezziDouglasMariniCubeFace(cell, degree))
 
+    @property
+    def degree(self):
+        # The nominal degree is that of the complete polynomials only
+        return self._element.degree() + 1
+
     @property
     def entity_permutations(self):
         raise NotImplementedError(f"entity_permutations not yet implemented for {type(self)}")
-- 
2.43.0


From 88f9c08893f7c7fa43b5541926977a72c306da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:10 +0000
Subject: [PATCH 35/35] fix: RuntimeTabulated has a cell complex

It was None, so products of such elements had no complex at all.
---
 finat/runtime_tabulated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finat/runtime_tabulated.py b/finat/runtime_tabulated.py
index cc629fb..87cb064 100644
--- a/finat/runtime_tabulated.py
+++ b/finat/runtime_tabulated.py
@@ -48,6 +48,10 @@ class RuntimeTabulated(FiniteElementBase):
     def cell(self):
         pass  # set at initialization
 
+    @property
+    def complex(self):
+        return self.cell
+
     @cached_property
     def degree(self):
         pass  # set at initialization
-- 
2.43.0

