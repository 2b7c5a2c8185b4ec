From 03bef9efef1a5d5c8ea3c4fdc7132ffcf8951ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 01/24] fix: map sub-entities of non-UFC simplices correctly

Simplex cells other than the UFC ones had no construct_subelement, so
get_entity_transform silently fell back to a constant (vertex) map for
every edge and face of DefaultTriangle, DefaultTetrahedron and the
Intrepid cells, and elements with facet moments were built from wrong
degrees of freedom.
---
 FIAT/reference_element.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 662a668..dda1124 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -408,13 +408,7 @@ class Simplex(Cell):
             assert entity == 0
             return lambda point: point
 
-        try:
-            subcell = self.construct_subelement(dim)
-        except NotImplementedError:
-            # Special case for 1D elements.
-            x_c, = self.get_vertices_of_subcomplex(topology[0][entity])
-            return lambda x: x_c
-
+        subcell = self.construct_subelement(dim)
         subdim = subcell.get_spatial_dimension()
 
         assert subdim == celldim - codim
@@ -442,6 +436,19 @@ class Simplex(Cell):
 
         return lambda x: offset + C.dot(x)
 
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        if dimension == self.get_spatial_dimension():
+            return self
+        elif dimension == 0:
+            return Point()
+        else:
+            return self.get_facet_element().construct_subelement(dimension)
+
     def get_dimension(self):
         """Returns the subelement dimension of the cell.  Same as the
         spatial dimension."""
-- 
2.43.0


From f3fa0c83b40075434fd2c67681b54e6077c14788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 02/24] fix: project() iterated over the keys of the tabulation
 dict

PolynomialSet.tabulate returns a dict keyed by derivative multi-index;
project() multiplied the keys instead of the values of the members.
---
 FIAT/polynomial_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/polynomial_set.py b/FIAT/polynomial_set.py
index 9bf0b71..bfe91f3 100644
--- a/FIAT/polynomial_set.py
+++ b/FIAT/polynomial_set.py
@@ -185,7 +185,7 @@ def project(f, U, Q):
     pts = Q.get_points()
     wts = Q.get_weights()
     f_at_qps = [f(x) for x in pts]
-    U_at_qps = U.tabulate(pts)
+    U_at_qps = U.tabulate(pts)[(0,) * U.get_reference_element().get_spatial_dimension()]
     coeffs = numpy.array([sum(wts * f_at_qps * phi) for phi in U_at_qps])
     return coeffs
 
-- 
2.43.0


From 70d476e721307554cbe01420769228bf9c226daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 03/24] fix: store the component of tensor-product Frobenius
 moments as a tuple

Every consumer of a functional's point dictionary expects component
tuples; the bare integer made the functional unusable.
---
 FIAT/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 90c59c9..76dc34e 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -175,7 +175,7 @@ class TensorProductElement(FiniteElement):
                         pt_dict = {}
                         pt_old = Anode.get_point_dict()
                         for pt in pt_old:
-                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, sd-1)]
+                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, (sd-1,))]
                         # THE FOLLOWING IS PROBABLY CORRECT BUT UNTESTED
                         shp = (sd,)
                         nodes.append(functional.Functional(ref_el, shp, pt_dict, {}, "FrobeniusIntegralMoment"))
-- 
2.43.0


From 4142bf495986ff873e803f39264bd7c7c03e1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 04/24] fix: rotate the second factor in Hdiv/Hcurl

When the vector-valued factor comes second and has the other Piola type,
the rotated values were computed and then discarded (and the first
factor's dimension was never bound).
---
 FIAT/hdivcurl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FIAT/hdivcurl.py b/FIAT/hdivcurl.py
index 4ac6f5e..30133bd 100644
--- a/FIAT/hdivcurl.py
+++ b/FIAT/hdivcurl.py
@@ -102,6 +102,7 @@ def Hdiv(element):
                     temp_perp[:, 1, :] = -temp_old[:, 0, :]
                     temp[:, :Asd, :] = temp_perp[:, :, :]
                 elif element.B.mapping()[0] == "covariant piola":
+                    Asd = self.A.get_reference_element().get_spatial_dimension()
                     Bsd = self.B.get_reference_element().get_spatial_dimension()
                     if not Bsd == 2:
                         raise ValueError("Must be 2d shape to automatically convert covariant to contravariant")
@@ -109,7 +110,7 @@ def Hdiv(element):
                     # second element, so (..., 0, x2, -x1)
                     temp_perp[:, 0, :] = temp_old[:, 1, :]
                     temp_perp[:, 1, :] = -temp_old[:, 0, :]
-                    temp[:, Asd:, :] = temp_old[:, :, :]
+                    temp[:, Asd:, :] = temp_perp[:, :, :]
                 else:
                     raise ValueError("Hdiv covariant piola couldn't find an existing CovPi subelement")
             new_result[alpha] = temp
@@ -229,9 +230,10 @@ def Hcurl(element):
                         raise ValueError("Must be 2d shape to automatically convert contravariant to covariant")
                     temp_perp = numpy.zeros(temp_old.shape, dtype=temp_old.dtype)
                     # second element, so (..., 0, -x2, x1)
+                    Asd = self.A.get_reference_element().get_spatial_dimension()
                     temp_perp[:, 0, :] = -temp_old[:, 1, :]
                     temp_perp[:, 1, :] = temp_old[:, 0, :]
-                    temp[:, Asd:, :] = temp_old[:, :, :]
+                    temp[:, Asd:, :] = temp_perp[:, :, :]
                 else:
                     raise ValueError("Hcurl contravariant piola couldn't find an existing CovPi subelement")
             new_result[alpha] = temp
-- 
2.43.0


From 1e9e85921b0f8a42e284e3af235d7eb5e9d6b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 05/24] fix: sign of line expansion derivatives on reversed
 intervals

The chain rule factor is the slope of the map to (-1, 1), which is
negative when the first vertex lies to the right of the second.
---
 FIAT/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/expansions.py b/FIAT/expansions.py
index a5fc112..70a59a0 100644
--- a/FIAT/expansions.py
+++ b/FIAT/expansions.py
@@ -177,7 +177,7 @@ class LineExpansionSet(object):
         psitilde_as_derivs = jacobi.eval_jacobi_deriv_batch(0, 0, n, ref_pts)
 
         # Jacobi polynomials defined on [-1, 1], first derivatives need scaling
-        psitilde_as_derivs *= 2.0 / self.ref_el.volume()
+        psitilde_as_derivs *= self.A[0, 0]
 
         results = numpy.zeros((n + 1, len(pts)), "d")
         for k in range(0, n + 1):
-- 
2.43.0


From adbc815cbba873cb1e553d46f7e657803ba6128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 06/24] fix: PointNormalSecondDerivative used the weights of
 the first derivative

---
 FIAT/functional.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 44711ca..4b46bd7 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -268,12 +268,13 @@ class PointNormalSecondDerivative(Functional):
                 alpha[i] += 1
                 alpha[j] += 1
                 alphas.append(tuple(alpha))
-                tau[cur] = n[i]*n[j]
+                # mixed derivatives occur twice in the double sum
+                tau[cur] = n[i]*n[j] if i == j else 2*n[i]*n[j]
                 cur += 1
 
         self.tau = tau
         self.alphas = alphas
-        dpt_dict = {pt: [(n[i], alphas[i], tuple()) for i in range(sd)]}
+        dpt_dict = {pt: [(tau[i], alphas[i], tuple()) for i in range(len(alphas))]}
 
         Functional.__init__(self, ref_el, tuple(), {}, dpt_dict, "PointNormalDeriv")
 
-- 
2.43.0


From 1feef8631ee6a5da9cd527d752209fe7fabbd56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 07/24] fix: TensorBidirectionalMomentInnerProductEvaluation
 could not be built

map() and list.append() were called with the wrong arguments; the weight
function is scalar, tabulated at the quadrature points.
---
 FIAT/functional.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index 4b46bd7..d0dcd68 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -716,11 +716,10 @@ class TensorBidirectionalMomentInnerProductEvaluation(Functional):
         qpts, qwts = Q.get_points(), Q.get_weights()
 
         pt_dict = {}
-        for k, pt in enumerate(map(tuple(qpts))):
+        for k, pt in enumerate(map(tuple, qpts)):
             pt_dict[pt] = []
             for i, j in index_iterator((sd, sd)):
-                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[i, j, k]),
-                                   (i, j))
+                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[k], (i, j)))
 
         shp = (sd, sd)
         super().__init__(ref_el, shp, pt_dict, {}, "TensorBidirectionalMomentInnerProductEvaluation")
-- 
2.43.0


From d6c4123d7bb680316f5e57ddffb9a67a95fe9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 08/24] fix: tensor products with a vector-valued factor of
 length other than 2

tabulate() hard-coded two components and returned arrays of the wrong
shape for a vector-valued factor on an interval.
---
 FIAT/tensor_product.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 76dc34e..2ddd8fa 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -307,13 +307,14 @@ class TensorProductElement(FiniteElement):
                                        Atab[alpha[0:Asdim]][..., j],
                                        Btab[alpha[Asdim:Asdim+Bsdim]][..., j])
                         for j in range(npoints)])
-                    assert temp.shape[1] % 2 == 0
+                    vdim, = self.A.value_shape()
+                    assert temp.shape[1] % vdim == 0
                     temp2 = temp.reshape((temp.shape[0],
-                                          temp.shape[1]//2,
-                                          2,
+                                          temp.shape[1]//vdim,
+                                          vdim,
                                           temp.shape[2]))\
                         .transpose(0, 2, 1, 3)\
-                        .reshape((temp.shape[0], 2, -1))\
+                        .reshape((temp.shape[0], vdim, -1))\
                         .transpose(2, 1, 0)
                     result[alpha] = temp2
                 elif A_valuedim == 0 and B_valuedim == 1:
@@ -327,10 +328,11 @@ class TensorProductElement(FiniteElement):
                         Atab[alpha[0:Asdim]][..., j],
                         Btab[alpha[Asdim:Asdim+Bsdim]][..., j])
                         for j in range(len(Atab[alpha[0:Asdim]][0]))])
-                    assert temp.shape[2] % 2 == 0
+                    vdim, = self.B.value_shape()
+                    assert temp.shape[2] % vdim == 0
                     temp2 = temp.reshape((temp.shape[0], temp.shape[1],
-                                          temp.shape[2]//2, 2))\
-                        .reshape((temp.shape[0], -1, 2))\
+                                          temp.shape[2]//vdim, vdim))\
+                        .reshape((temp.shape[0], -1, vdim))\
                         .transpose(1, 2, 0)
                     result[alpha] = temp2
         return result
-- 
2.43.0


From 816322af95baabe66ae0a045651f1aa86efda64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 09/24] fix: constant derivatives of Bernstein polynomials

When the derivative order equals the degree, the derivative of the
Bernstein polynomial with the same exponents is n!, not 1.
---
 FIAT/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 7fe6cfd..c39466f 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -135,7 +135,7 @@ def bernstein_db(points, ks, alpha=None):
     if any(k < 0 for k in ls):
         return numpy.zeros(len(points))
     elif all(k == 0 for k in ls):
-        return numpy.ones(len(points))
+        return math.factorial(ks.sum()) * numpy.ones(len(points))
     else:
         # Calculate coefficient
         coeff = math.factorial(ks.sum())
-- 
2.43.0


From 9b2f77f57706a9f43daa51f93c60b6ff97f6d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 10/24] fix: entity maps of nested tensor-product cells

The coordinates were split by the (possibly nested) entity dimensions
instead of by their totals, so get_entity_transform raised TypeError.
---
 FIAT/reference_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index dda1124..03de286 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -740,7 +740,7 @@ class TensorProductCell(Cell):
         sct = [c.get_entity_transform(d, i)
                for c, d, i in zip(self.cells, dim, alpha)]
 
-        slices = TensorProductCell._split_slices(dim)
+        slices = TensorProductCell._split_slices([tuple_sum(d) for d in dim])
 
         def transform(point):
             return list(chain(*[t(point[s])
-- 
2.43.0


From 96d3937d70959a2758e5c161d4b1b3127972e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 11/24] fix: IntegralMomentOfNormalNormalEvaluation took the
 normal component of a vector

It is documented as the moment of n^T tau n of a tensor field.
---
 FIAT/functional.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index d0dcd68..dbf1e27 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -784,12 +784,14 @@ class IntegralMomentOfNormalNormalEvaluation(Functional):
     def __init__(self, ref_el, Q, P_at_qpts, facet):
         # scaling on the normal is ok because edge length then weights
         # the reference element quadrature appropriately
-        n = ref_el.compute_scaled_normal(facet)
+        n = ref_el.compute_normal(facet)
+        scaled_n = ref_el.compute_scaled_normal(facet)
         sd = ref_el.get_spatial_dimension()
         transform = ref_el.get_entity_transform(sd - 1, facet)
         pts = tuple(map(lambda p: tuple(transform(p)), Q.get_points()))
         weights = Q.get_weights()
         pt_dict = OrderedDict()
         for pt, wgt, phi in zip(pts, weights, P_at_qpts):
-            pt_dict[pt] = [(wgt*phi*n[i], (i, )) for i in range(sd)]
-        super().__init__(ref_el, (sd, ), pt_dict, {}, "IntegralMomentOfScaledNormalEvaluation")
+            pt_dict[pt] = [(wgt*phi*n[i]*scaled_n[j], (i, j))
+                           for i, j in index_iterator((sd, sd))]
+        super().__init__(ref_el, (sd, sd), pt_dict, {}, "IntegralMomentOfNormalNormalEvaluation")
-- 
2.43.0


From 58351df2b339efbc5bf3c64c3ec3b209f991393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 12/24] fix: tabulate enriched elements of any value shape

The result array was sized by the number of components, so enriched
tensor-valued elements, and vectors of length one, could not be tabulated.
---
 FIAT/enriched.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/FIAT/enriched.py b/FIAT/enriched.py
index 97ac5c5..9e93073 100644
--- a/FIAT/enriched.py
+++ b/FIAT/enriched.py
@@ -89,8 +89,7 @@ class EnrichedElement(FiniteElement):
         """Return tabulated values of derivatives up to given order of
         basis functions at given points."""
 
-        num_components = numpy.prod(self.value_shape())
-        table_shape = (self.space_dimension(), num_components, len(points))
+        table_shape = (self.space_dimension(),) + self.value_shape() + (len(points),)
 
         table = {}
         irange = slice(0)
@@ -103,12 +102,8 @@ class EnrichedElement(FiniteElement):
             for dtuple in etable.keys():
 
                 if dtuple not in table:
-                    if num_components == 1:
-                        table[dtuple] = numpy.zeros((self.space_dimension(), len(points)),
-                                                    dtype=etable[dtuple].dtype)
-                    else:
-                        table[dtuple] = numpy.zeros(table_shape,
-                                                    dtype=etable[dtuple].dtype)
+                    table[dtuple] = numpy.zeros(table_shape,
+                                                dtype=etable[dtuple].dtype)
 
                 table[dtuple][irange][:] = etable[dtuple]
 
-- 
2.43.0


From 8df3cec0946881d4276f01efa326e56b6805f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 13/24] fix: match flattened entities by their vertices

Flattening the product of an interval and a quadrilateral attached the
degrees of freedom to the wrong edges, faces of the hexahedron, and a
triangular prism was silently taken for a hexahedron.
---
 FIAT/tensor_product.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 2ddd8fa..15b0cd4 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -8,7 +8,7 @@
 
 import numpy
 from FIAT.finite_element import FiniteElement
-from FIAT.reference_element import TensorProductCell, UFCQuadrilateral, UFCHexahedron, flatten_entities, compute_unflattening_map
+from FIAT.reference_element import TensorProductCell, UFCQuadrilateral, UFCHexahedron
 from FIAT.dual_set import DualSet
 from FIAT.polynomial_set import mis
 from FIAT import dual_set
@@ -381,16 +381,25 @@ class FlattenedDimensions(FiniteElement):
         else:
             raise ValueError("Illegal element dimension %s" % dim)
 
+        # Construct unflattening map for passing correct values to tabulate().
+        # Entities are matched by their vertices: the entities of the product
+        # may be numbered differently from those of the flattened cell.
+        product_entities = {frozenset(vertices): (d, e)
+                            for d, entities in element.ref_el.get_topology().items()
+                            for e, vertices in entities.items()}
+        self.unflattening_map = {(d, e): product_entities[frozenset(vertices)]
+                                 for d, entities in ref_el.get_topology().items()
+                                 for e, vertices in entities.items()}
+
         entity_ids = element.dual.entity_ids
+        flat_entity_ids = {d: {} for d in ref_el.get_topology()}
+        for (d, e), (product_d, product_e) in self.unflattening_map.items():
+            flat_entity_ids[d][e] = entity_ids[product_d][product_e]
 
-        flat_entity_ids = flatten_entities(entity_ids)
         dual = DualSet(nodes, ref_el, flat_entity_ids)
         super(FlattenedDimensions, self).__init__(ref_el, dual, element.get_order(), element.get_formdegree(), element._mapping)
         self.element = element
 
-        # Construct unflattening map for passing correct values to tabulate()
-        self.unflattening_map = compute_unflattening_map(self.element.ref_el.get_topology())
-
     def degree(self):
         """Return the degree of the (embedding) polynomial space."""
         return self.element.degree()
-- 
2.43.0


From 137e1a56f462dd0e18b11d464a2eee2f4db0b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 14/24] fix: Bernstein elements on simplices whose entities
 list unsorted vertices

---
 FIAT/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index c39466f..3016263 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -25,7 +25,7 @@ class BernsteinDualSet(DualSet):
                       for dim, entities in topology.items()}
 
         # Calculate inverse topology
-        inverse_topology = {vertices: (dim, entity_i)
+        inverse_topology = {tuple(sorted(vertices)): (dim, entity_i)
                             for dim, entities in topology.items()
                             for entity_i, vertices in entities.items()}
 
-- 
2.43.0


From ec95f20a3399f072b1c873b50aabf5bdd9a8de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 15/24] fix: values of facet trace elements when derivatives
 are requested too

---
 FIAT/hdiv_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 0f9ee66..381899f 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -201,7 +201,7 @@ class HDivTrace(FiniteElement):
                 # Retrieve values by tabulating the DG element
                 element = self.dg_elements[facet_sd]
                 nf = element.space_dimension()
-                nonzerovals, = element.tabulate(order, new_points).values()
+                nonzerovals, = element.tabulate(0, new_points).values()
                 indices = slice(nf * unique_facet, nf * (unique_facet + 1))
 
         else:
-- 
2.43.0


From 2a5a1f894ae48a47567e9d299e9e785f62ea0164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 16/24] fix: facet trace elements on simplices with other than
 UFC facet numbering

---
 FIAT/hdiv_trace.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 381899f..5fd5f47 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -184,7 +184,7 @@ class HDivTrace(FiniteElement):
             # Attempt to identify which facet (if any) the given points are on
             vertices = self.ref_el.vertices
             coordinates = barycentric_coordinates(points, vertices)
-            unique_facet, success = extract_unique_facet(coordinates)
+            opposite_vertex, success = extract_unique_facet(coordinates)
 
             # If not successful, return NaNs
             if not success:
@@ -195,12 +195,17 @@ class HDivTrace(FiniteElement):
 
             # Otherwise, extract non-zero values and insertion indices
             else:
+                # The facet opposite to a vertex is the one not containing it
+                element = self.dg_elements[facet_sd]
+                nf = element.space_dimension()
+                facets = self.ref_el.get_topology()[facet_sd]
+                unique_facet, = [i for i in facets if opposite_vertex not in facets[i]]
+
                 # Map points to the reference facet
-                new_points = map_to_reference_facet(points, vertices, unique_facet)
+                new_points = np.dot(coordinates[:, facets[unique_facet]],
+                                    element.get_reference_element().get_vertices())
 
                 # Retrieve values by tabulating the DG element
-                element = self.dg_elements[facet_sd]
-                nf = element.space_dimension()
                 nonzerovals, = element.tabulate(0, new_points).values()
                 indices = slice(nf * unique_facet, nf * (unique_facet + 1))
 
-- 
2.43.0


From 7e23aca0c8b4c509bb105bad25f533cce1a062c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 17/24] fix: reject Bernstein elements on non-simplices and of
 degree below 1

---
 FIAT/bernstein.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 3016263..1df8db1 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -12,6 +12,7 @@ import numpy
 from FIAT.finite_element import FiniteElement
 from FIAT.dual_set import DualSet
 from FIAT.polynomial_set import mis
+from FIAT.reference_element import POINT, LINE, TRIANGLE, TETRAHEDRON
 
 
 class BernsteinDualSet(DualSet):
@@ -50,6 +51,10 @@ class Bernstein(FiniteElement):
     """A finite element with Bernstein polynomials as basis functions."""
 
     def __init__(self, ref_el, degree):
+        if ref_el.get_shape() not in (POINT, LINE, TRIANGLE, TETRAHEDRON):
+            raise ValueError("Bernstein elements are only defined on simplices.")
+        if degree < 1:
+            raise ValueError("Bernstein elements start at degree 1.")
         dual = BernsteinDualSet(ref_el, degree)
         k = 0  # 0-form
         super(Bernstein, self).__init__(ref_el, dual, degree, k)
-- 
2.43.0


From cccece6dccf5815970a158b06dcf9b1c98c11f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 18/24] fix: match the whole variant string

---
 FIAT/check_format_variant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/check_format_variant.py b/FIAT/check_format_variant.py
index 14c5ba5..32ad2ad 100644
--- a/FIAT/check_format_variant.py
+++ b/FIAT/check_format_variant.py
@@ -9,7 +9,7 @@ def check_format_variant(variant, degree, element):
         warnings.warn('Variant of ' + element + ' element will change from point evaluation to integral evaluation.'
                       ' You should project into variant="integral"', DeprecationWarning)
 
-    match = re.match(r"^integral(?:\((\d+)\))?$", variant)
+    match = re.fullmatch(r"integral(?:\((\d+)\))?", variant)
     if match:
         variant = "integral"
         quad_degree, = match.groups()
-- 
2.43.0


From 33c6b5bde0a49c07a14d889e4825eda26358b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 19/24] fix: derivatives of elements on a point

---
 FIAT/polynomial_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FIAT/polynomial_set.py b/FIAT/polynomial_set.py
index bfe91f3..bf194a7 100644
--- a/FIAT/polynomial_set.py
+++ b/FIAT/polynomial_set.py
@@ -26,6 +26,8 @@ def mis(m, n):
         return [(n,)]
     elif n == 0:
         return [tuple([0] * m)]
+    elif m == 0:
+        return []
     else:
         return [tuple([n - i] + list(foo))
                 for i in range(n + 1)
-- 
2.43.0


From 7d898e6d1f91c7a4e7240a324cb4812d2ee365a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:27 +0000
Subject: [PATCH 20/24] fix: DiscontinuousElement.get_num_members passes its
 argument on

---
 FIAT/discontinuous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/discontinuous.py b/FIAT/discontinuous.py
index fbb4d2b..e37547a 100644
--- a/FIAT/discontinuous.py
+++ b/FIAT/discontinuous.py
@@ -79,4 +79,4 @@ class DiscontinuousElement(CiarletElement):
 
     def get_num_members(self, arg):
         "Return number of members of the expansion set."
-        return self._element.get_num_members()
+        return self._element.get_num_members(arg)
-- 
2.43.0


From 1412649b3dce9694dd8a0e207c48844fa74bf617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:01 +0000
Subject: [PATCH 21/24] fix: quadrature weights on cells of negative
 orientation

The weights of a rule mapped to a cell were scaled by the determinant of the
affine map, which is negative for a cell whose vertices are listed with the
other orientation; the measure of the cell scales with its absolute value.
---
 FIAT/quadrature.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FIAT/quadrature.py b/FIAT/quadrature.py
index a93b73c..1fec031 100644
--- a/FIAT/quadrature.py
+++ b/FIAT/quadrature.py
@@ -51,7 +51,7 @@ class GaussJacobiQuadratureLineRule(QuadratureRule):
 
         mapping = lambda x: numpy.dot(A, x) + b
 
-        scale = numpy.linalg.det(A)
+        scale = abs(numpy.linalg.det(A))
 
         xs = tuple([tuple(mapping(x_ref)[0]) for x_ref in xs_ref])
         ws = tuple([scale * w for w in ws_ref])
@@ -88,7 +88,7 @@ class GaussLobattoLegendreQuadratureLineRule(QuadratureRule):
 
         mapping = lambda x: numpy.dot(A, x) + b
 
-        scale = numpy.linalg.det(A)
+        scale = abs(numpy.linalg.det(A))
 
         xs = tuple([tuple(mapping(x_ref)[0]) for x_ref in xs_ref])
         ws = tuple([scale * w for w in ws_ref])
@@ -115,7 +115,7 @@ class GaussLegendreQuadratureLineRule(QuadratureRule):
 
         mapping = lambda x: numpy.dot(A, x) + b
 
-        scale = numpy.linalg.det(A)
+        scale = abs(numpy.linalg.det(A))
 
         xs = tuple([tuple(mapping(x_ref)[0]) for x_ref in xs_ref])
         ws = tuple([scale * w for w in ws_ref])
@@ -172,7 +172,7 @@ class RadauQuadratureLineRule(QuadratureRule):
 
         mapping = lambda x: numpy.dot(A, x) + b
 
-        scale = numpy.linalg.det(A)
+        scale = abs(numpy.linalg.det(A))
 
         xs = tuple([tuple(mapping(x_ref)[0]) for x_ref in xs_ref])
         ws = tuple([scale * w for w in ws_ref])
@@ -198,7 +198,7 @@ class CollapsedQuadratureTriangleRule(QuadratureRule):
                                                      ref_el.get_vertices())
         mapping = lambda x: numpy.dot(A, x) + b
 
-        scale = numpy.linalg.det(A)
+        scale = abs(numpy.linalg.det(A))
 
         pts = tuple([tuple(mapping(x)) for x in pts_ref])
 
@@ -226,7 +226,7 @@ class CollapsedQuadratureTetrahedronRule(QuadratureRule):
                                                      ref_el.get_vertices())
         mapping = lambda x: numpy.dot(A, x) + b
 
-        scale = numpy.linalg.det(A)
+        scale = abs(numpy.linalg.det(A))
 
         pts = tuple([tuple(mapping(x)) for x in pts_ref])
 
-- 
2.43.0


From 000c79ee3e1a7acac05d69a2e9d4548cdf7fa13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:56 +0000
Subject: [PATCH 22/24] fix: KMV schemes on cells other than the UFC ones

---
 FIAT/quadrature_schemes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/FIAT/quadrature_schemes.py b/FIAT/quadrature_schemes.py
index fc83a68..66cbcee 100644
--- a/FIAT/quadrature_schemes.py
+++ b/FIAT/quadrature_schemes.py
@@ -28,10 +28,12 @@ Background on the schemes:
 # Last changed: 2011-04-19
 
 # NumPy
-from numpy import array, arange, float64
+from numpy import array, arange, dot, float64
+from numpy.linalg import det
 
 # FIAT
-from FIAT.reference_element import QUADRILATERAL, HEXAHEDRON, TENSORPRODUCT, UFCTriangle, UFCTetrahedron
+from FIAT.reference_element import (QUADRILATERAL, HEXAHEDRON, TENSORPRODUCT, UFCTriangle, UFCTetrahedron,
+                                    make_affine_mapping)
 from FIAT.quadrature import QuadratureRule, make_quadrature, make_tensor_product_quadrature
 
 
@@ -105,6 +107,13 @@ def _kmv_lump_scheme(ref_el, degree):
     else:
         raise ValueError("Dimension not supported")
 
+    if ref_el.get_vertices() != T.get_vertices():
+        # The tables below are for the UFC cell: map them to the given cell.
+        rule = _kmv_lump_scheme(T, degree)
+        A, b = make_affine_mapping(T.get_vertices(), ref_el.get_vertices())
+        pts = [tuple(dot(A, p) + b) for p in rule.pts]
+        return QuadratureRule(ref_el, pts, abs(det(A)) * rule.wts)
+
     if degree == 1:
         x = ref_el.vertices
         w = arange(sd + 1, dtype=float64)
-- 
2.43.0


From 126cd94b1b55cf5dca1c82ddc3f4cc3d8a172426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 23/24] fix: quadrature elements on points (cells without
 coordinates)

---
 FIAT/quadrature_element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/quadrature_element.py b/FIAT/quadrature_element.py
index d71e59c..0457bc9 100644
--- a/FIAT/quadrature_element.py
+++ b/FIAT/quadrature_element.py
@@ -52,7 +52,7 @@ class QuadratureElement(FiniteElement):
             raise ValueError("Derivatives are not defined on a QuadratureElement.")
 
         # Check that incoming points are equal to the quadrature points.
-        if len(points) != len(self._points) or abs(numpy.array(points) - self._points).max() > 1e-12:
+        if len(points) != len(self._points) or abs(numpy.array(points) - self._points).max(initial=0.0) > 1e-12:
             raise AssertionError("Mismatch of quadrature points!")
 
         # Return the identity matrix of size len(self._points).
-- 
2.43.0


From 9fd39aee763098f54055c8d2a0cea698cb88a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:30 +0000
Subject: [PATCH 24/24] fix: face functions of hexahedral serendipity elements
 ordered alike on every face

---
 FIAT/serendipity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/serendipity.py b/FIAT/serendipity.py
index 74b158e..4bcf483 100644
--- a/FIAT/serendipity.py
+++ b/FIAT/serendipity.py
@@ -227,7 +227,7 @@ def f_lambda_0(i, dim, dx, dy, dz, x_mid, y_mid, z_mid):
     else:
         FL = tuple([leg(j, y_mid) * leg(k-4-j, z_mid) * dy[0] * dy[1] * dz[0] * dz[1] * a
                     for a in dx for k in range(4, i + 1) for j in range(k-3)] +
-                   [leg(j, z_mid) * leg(k-4-j, x_mid) * dx[0] * dx[1] * dz[0] * dz[1] * b
+                   [leg(j, x_mid) * leg(k-4-j, z_mid) * dx[0] * dx[1] * dz[0] * dz[1] * b
                     for b in dy for k in range(4, i + 1) for j in range(k-3)] +
                    [leg(j, x_mid) * leg(k-4-j, y_mid) * dx[0] * dx[1] * dy[0] * dy[1] * c
                     for c in dz for k in range(4, i + 1) for j in range(k-3)])
-- 
2.43.0

