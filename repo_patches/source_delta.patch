From 9359157c7a5ac6a1b8bdfaef9cf47a9b25e23632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 01/33] fix: map sub-entities of Default and Intrepid simplices
 onto the cell

construct_subelement was missing for these cells, and get_entity_transform
then silently returned a map onto a single vertex (or raised KeyError), so
that tabulation on edges and faces and every integral moment on a facet were
wrong. Moments that are defined by quadrature on the UFC interval map it to
the edge explicitly.
---
 FIAT/bell.py              | 11 +++++++----
 FIAT/functional.py        | 13 +++++++++++--
 FIAT/hdiv_trace.py        |  7 +++++--
 FIAT/reference_element.py | 41 ++++++++++++++++++++++++++++++++++-----
 4 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/FIAT/bell.py b/FIAT/bell.py
index 2603d3a..8e20f39 100644
--- a/FIAT/bell.py
+++ b/FIAT/bell.py
@@ -8,8 +8,10 @@
 # functionals.  The first 18 basis functions are the reference element
 # bfs, but the extra three are used in the transformation theory.
 
+import numpy
+
 from FIAT import finite_element, polynomial_set, dual_set, functional
-from FIAT.reference_element import TRIANGLE, ufc_simplex
+from FIAT.reference_element import TRIANGLE, default_simplex, make_affine_mapping
 
 
 class BellDualSet(dual_set.DualSet):
@@ -51,10 +53,11 @@ class BellDualSet(dual_set.DualSet):
         # we need an edge quadrature rule for the moment
         from FIAT.quadrature_schemes import create_quadrature
         from FIAT.jacobi import eval_jacobi
-        rline = ufc_simplex(1)
+        rline = ref_el.construct_subelement(1)
         q1d = create_quadrature(rline, 8)
-        q1dpts = q1d.get_points()
-        leg4_at_qpts = eval_jacobi(0, 0, 4, 2.0*q1dpts - 1)
+        A, b = make_affine_mapping(rline.get_vertices(), default_simplex(1).get_vertices())
+        q1dpts = numpy.dot(q1d.get_points(), A.T) + b
+        leg4_at_qpts = eval_jacobi(0, 0, 4, q1dpts)
 
         imond = functional.IntegralMomentOfNormalDerivative
         entity_ids[1] = {}
diff --git a/FIAT/functional.py b/FIAT/functional.py
index 44711ca..f213e95 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -38,6 +38,15 @@ def index_iterator(shp):
                 yield [i] + foo
 
 
+def interval_to_edge_transform(cell, edge):
+    """Returns the affine mapping of point coordinates from the UFC interval
+    to the given edge of a cell, whichever reference interval the cell uses
+    for its own edges."""
+    verts = cell.get_vertices_of_subcomplex(cell.get_topology()[1][edge])
+    v0, v1 = map(numpy.array, verts)
+    return lambda x: v0 + x[0] * (v1 - v0)
+
+
 class Functional(object):
     r"""Abstract class representing a linear functional.
     All FIAT functionals are discrete in the sense that
@@ -349,7 +358,7 @@ class IntegralLegendreDirectionalMoment(Functional):
         Q = GaussLegendreQuadratureLineRule(interval(), quadpoints)
         legendre = numpy.polynomial.legendre.legval(2*Q.get_points()-1, [0]*mom_deg + [1])
         f_at_qpts = numpy.array([s*legendre[i] for i in range(quadpoints)])
-        fmap = cell.get_entity_transform(sd-1, entity)
+        fmap = interval_to_edge_transform(cell, entity)
         mappedqpts = [fmap(pt) for pt in Q.get_points()]
         mappedQ = QuadratureRule(cell, mappedqpts, Q.get_weights())
         qwts = mappedQ.wts
@@ -400,7 +409,7 @@ class IntegralLegendreBidirectionalMoment(Functional):
         f_at_qpts = numpy.array([s1s2T*legendre[i] for i in range(quadpoints)])
 
         # Map the quadrature points
-        fmap = cell.get_entity_transform(sd-1, entity)
+        fmap = interval_to_edge_transform(cell, entity)
         mappedqpts = [fmap(pt) for pt in Q.get_points()]
         mappedQ = QuadratureRule(cell, mappedqpts, Q.get_weights())
 
diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 0f9ee66..9be22c3 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -10,7 +10,8 @@ from FIAT.dual_set import DualSet
 from FIAT.finite_element import FiniteElement
 from FIAT.functional import PointEvaluation
 from FIAT.polynomial_set import mis
-from FIAT.reference_element import (ufc_simplex, POINT,
+from FIAT.reference_element import (DefaultSimplex, IntrepidSimplex,
+                                    ufc_simplex, POINT,
                                     LINE, QUADRILATERAL,
                                     TRIANGLE, TETRAHEDRON,
                                     TENSORPRODUCT)
@@ -63,7 +64,9 @@ class HDivTrace(FiniteElement):
                 "Number of specified degrees must be equal to the number of cells."
             )
         else:
-            if ref_el.get_shape() not in [TRIANGLE, TETRAHEDRON, QUADRILATERAL]:
+            # The facet maps below follow the UFC facet numbering
+            if (ref_el.get_shape() not in [TRIANGLE, TETRAHEDRON, QUADRILATERAL]
+                    or isinstance(ref_el, (DefaultSimplex, IntrepidSimplex))):
                 raise NotImplementedError(
                     "Trace element on a %s not implemented" % type(ref_el)
                 )
diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index 662a668..b03d9ba 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -475,6 +475,37 @@ class UFCSimplex(Simplex):
         return result
 
 
+class DefaultSimplex(Simplex):
+    """Abstract class for the default reference simplices on (-1, 1)."""
+
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        return Point() if dimension == 0 else default_simplex(dimension)
+
+
+class IntrepidSimplex(Simplex):
+    """Abstract class for the Intrepid reference simplices."""
+
+    def construct_subelement(self, dimension):
+        """Constructs the reference element of a cell subentity
+        specified by subelement dimension.
+
+        :arg dimension: subentity dimension (integer)
+        """
+        if dimension == self.get_spatial_dimension():
+            return self
+        elif dimension == 2:
+            return IntrepidTriangle()
+        else:
+            # I think the UFC interval is equivalent to what the
+            # IntrepidInterval would be.
+            return ufc_simplex(dimension)
+
+
 class Point(Simplex):
     """This is the reference point."""
 
@@ -493,7 +524,7 @@ class Point(Simplex):
         return self
 
 
-class DefaultLine(Simplex):
+class DefaultLine(DefaultSimplex):
     """This is the reference line with vertices (-1.0,) and (1.0,)."""
 
     def __init__(self):
@@ -518,7 +549,7 @@ class UFCInterval(UFCSimplex):
         super(UFCInterval, self).__init__(LINE, verts, topology)
 
 
-class DefaultTriangle(Simplex):
+class DefaultTriangle(DefaultSimplex):
     """This is the reference triangle with vertices (-1.0,-1.0),
     (1.0,-1.0), and (-1.0,1.0)."""
 
@@ -555,7 +586,7 @@ class UFCTriangle(UFCSimplex):
         return n / numpy.linalg.norm(n)
 
 
-class IntrepidTriangle(Simplex):
+class IntrepidTriangle(IntrepidSimplex):
     """This is the Intrepid triangle with vertices (0,0),(1,0),(0,1)"""
 
     def __init__(self):
@@ -574,7 +605,7 @@ class IntrepidTriangle(Simplex):
         return UFCInterval()
 
 
-class DefaultTetrahedron(Simplex):
+class DefaultTetrahedron(DefaultSimplex):
     """This is the reference tetrahedron with vertices (-1,-1,-1),
     (1,-1,-1),(-1,1,-1), and (-1,-1,1)."""
 
@@ -603,7 +634,7 @@ class DefaultTetrahedron(Simplex):
         return DefaultTriangle()
 
 
-class IntrepidTetrahedron(Simplex):
+class IntrepidTetrahedron(IntrepidSimplex):
     """This is the reference tetrahedron with vertices (0,0,0),
     (1,0,0),(0,1,0), and (0,0,1) used in the Intrepid project."""
 
-- 
2.43.0


From a2c18c73109c71094bff5f5e97d18c95aa23fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 02/33] fix: entity transforms, normals and flattening of
 nested tensor product cells

The sub-entity dimension of a nested factor is itself a tuple; slicing points
and comparing dimensions with it raised TypeError/ValueError.
---
 FIAT/reference_element.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index b03d9ba..f9027a0 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -764,7 +764,7 @@ class TensorProductCell(Cell):
         sct = [c.get_entity_transform(d, i)
                for c, d, i in zip(self.cells, dim, alpha)]
 
-        slices = TensorProductCell._split_slices(dim)
+        slices = TensorProductCell._split_slices([tuple_sum(d) for d in dim])
 
         def transform(point):
             return list(chain(*[t(point[s])
@@ -779,7 +779,8 @@ class TensorProductCell(Cell):
         """Returns the unit normal in infinity norm to facet_i of
         subelement dimension facet_dim."""
         assert len(facet_dim) == len(self.get_dimension())
-        indicator = numpy.array(self.get_dimension()) - numpy.array(facet_dim)
+        indicator = numpy.array([tuple_sum(d) - tuple_sum(fd)
+                                 for d, fd in zip(self.get_dimension(), facet_dim)])
         (cell_i,), = numpy.nonzero(indicator)
 
         n = []
@@ -1069,14 +1070,14 @@ def is_hypercube(cell):
 def flatten_reference_cube(ref_el):
     """This function flattens a Tensor Product hypercube to the corresponding UFC hypercube"""
     flattened_cube = {2: UFCQuadrilateral(), 3: UFCHexahedron()}
-    if numpy.sum(ref_el.get_dimension()) <= 1:
+    if tuple_sum(ref_el.get_dimension()) <= 1:
         # Just return point/interval cell arguments
         return ref_el
     else:
         # Handle cases where cell is a quad/cube constructed from a tensor product or
         # an already flattened element
         if is_hypercube(ref_el):
-            return flattened_cube[numpy.sum(ref_el.get_dimension())]
+            return flattened_cube[tuple_sum(ref_el.get_dimension())]
         else:
             raise TypeError('Invalid cell type')
 
-- 
2.43.0


From ecdc7d28807f1017bd071e96a4bc81b03b94af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 03/33] fix: Hdiv/Hcurl of a product whose second factor has to
 be rotated

The rotated values were computed and then ignored, and an undefined offset
was used to place them (NameError).
---
 FIAT/hdivcurl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/hdivcurl.py b/FIAT/hdivcurl.py
index 4ac6f5e..8427074 100644
--- a/FIAT/hdivcurl.py
+++ b/FIAT/hdivcurl.py
@@ -109,7 +109,7 @@ def Hdiv(element):
                     # second element, so (..., 0, x2, -x1)
                     temp_perp[:, 0, :] = temp_old[:, 1, :]
                     temp_perp[:, 1, :] = -temp_old[:, 0, :]
-                    temp[:, Asd:, :] = temp_old[:, :, :]
+                    temp[:, -Bsd:, :] = temp_perp[:, :, :]
                 else:
                     raise ValueError("Hdiv covariant piola couldn't find an existing CovPi subelement")
             new_result[alpha] = temp
@@ -231,7 +231,7 @@ def Hcurl(element):
                     # second element, so (..., 0, -x2, x1)
                     temp_perp[:, 0, :] = -temp_old[:, 1, :]
                     temp_perp[:, 1, :] = temp_old[:, 0, :]
-                    temp[:, Asd:, :] = temp_old[:, :, :]
+                    temp[:, -Bsd:, :] = temp_perp[:, :, :]
                 else:
                     raise ValueError("Hcurl contravariant piola couldn't find an existing CovPi subelement")
             new_result[alpha] = temp
-- 
2.43.0


From 391e0190b2fbc06f715f52389c265f8352f44afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/33] fix: Hdiv/Hcurl publish no stale functionals for scalar
 or rotated products

Only point evaluations were replaced, and only for scalar products: integral
moments of scalar factors, and the functionals of a rotated vector-valued
factor, stayed in a dual basis to which the new basis is not dual.
---
 FIAT/hdivcurl.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/FIAT/hdivcurl.py b/FIAT/hdivcurl.py
index 8427074..e19fa74 100644
--- a/FIAT/hdivcurl.py
+++ b/FIAT/hdivcurl.py
@@ -117,17 +117,11 @@ def Hdiv(element):
 
     newelement.tabulate = types.MethodType(tabulate, newelement)
 
-    # splat any PointEvaluation functionals.
+    # splat the functionals of scalar-valued and of rotated elements.
     # they become a nasty mix of internal and external component DOFs
-    if newelement._oldmapping == "affine":
-        oldnodes = newelement.dual.nodes
-        newnodes = []
-        for node in oldnodes:
-            if isinstance(node, functional.PointEvaluation):
-                newnodes.append(functional.Functional(None, None, None, {}, "Undefined"))
-            else:
-                newnodes.append(node)
-        newelement.dual.nodes = newnodes
+    if newelement._oldmapping != newelement._mapping:
+        newelement.dual.nodes = [functional.Functional(None, None, None, {}, "Undefined")
+                                 for node in newelement.dual.nodes]
 
     return newelement
 
@@ -239,16 +233,10 @@ def Hcurl(element):
 
     newelement.tabulate = types.MethodType(tabulate, newelement)
 
-    # splat any PointEvaluation functionals.
+    # splat the functionals of scalar-valued and of rotated elements.
     # they become a nasty mix of internal and external component DOFs
-    if newelement._oldmapping == "affine":
-        oldnodes = newelement.dual.nodes
-        newnodes = []
-        for node in oldnodes:
-            if isinstance(node, functional.PointEvaluation):
-                newnodes.append(functional.Functional(None, None, None, {}, "Undefined"))
-            else:
-                newnodes.append(node)
-        newelement.dual.nodes = newnodes
+    if newelement._oldmapping != newelement._mapping:
+        newelement.dual.nodes = [functional.Functional(None, None, None, {}, "Undefined")
+                                 for node in newelement.dual.nodes]
 
     return newelement
-- 
2.43.0


From 5b5c2259552df1b4052219e8fd7d8990a80972b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 05/33] fix: components and shape of functionals on tensor
 product elements

The padding component of a product with FrobeniusIntegralMoment was not a
tuple, and the product of a scalar integral moment claimed vector values.
---
 FIAT/tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 90c59c9..8ba5821 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -175,7 +175,7 @@ class TensorProductElement(FiniteElement):
                         pt_dict = {}
                         pt_old = Anode.get_point_dict()
                         for pt in pt_old:
-                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, sd-1)]
+                            pt_dict[pt+_first_point(Bnode)] = pt_old[pt] + [(0.0, (sd-1,))]
                         # THE FOLLOWING IS PROBABLY CORRECT BUT UNTESTED
                         shp = (sd,)
                         nodes.append(functional.Functional(ref_el, shp, pt_dict, {}, "FrobeniusIntegralMoment"))
@@ -192,7 +192,7 @@ class TensorProductElement(FiniteElement):
                         for pt in pt_old:
                             pt_dict[pt+_first_point(Bnode)] = pt_old[pt]
                         # THE FOLLOWING IS PROBABLY CORRECT BUT UNTESTED
-                        shp = (sd,)
+                        shp = (sd,) if Anode.target_shape else ()
                         nodes.append(functional.Functional(ref_el, shp, pt_dict, {}, "IntegralMoment"))
                     else:
                         raise NotImplementedError("unsupported functional type")
-- 
2.43.0


From 342a67b8d3a6fb62496acfe478fda163c62bbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 06/33] fix: tensor product elements with a factor of three or
 more components

The number of components of the vector-valued factor was hard-coded as 2.
---
 FIAT/tensor_product.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 8ba5821..4a9af09 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -307,13 +307,14 @@ class TensorProductElement(FiniteElement):
                                        Atab[alpha[0:Asdim]][..., j],
                                        Btab[alpha[Asdim:Asdim+Bsdim]][..., j])
                         for j in range(npoints)])
-                    assert temp.shape[1] % 2 == 0
+                    ncomp, = self.A.value_shape()
+                    assert temp.shape[1] % ncomp == 0
                     temp2 = temp.reshape((temp.shape[0],
-                                          temp.shape[1]//2,
-                                          2,
+                                          temp.shape[1]//ncomp,
+                                          ncomp,
                                           temp.shape[2]))\
                         .transpose(0, 2, 1, 3)\
-                        .reshape((temp.shape[0], 2, -1))\
+                        .reshape((temp.shape[0], ncomp, -1))\
                         .transpose(2, 1, 0)
                     result[alpha] = temp2
                 elif A_valuedim == 0 and B_valuedim == 1:
@@ -327,10 +328,11 @@ class TensorProductElement(FiniteElement):
                         Atab[alpha[0:Asdim]][..., j],
                         Btab[alpha[Asdim:Asdim+Bsdim]][..., j])
                         for j in range(len(Atab[alpha[0:Asdim]][0]))])
-                    assert temp.shape[2] % 2 == 0
+                    ncomp, = self.B.value_shape()
+                    assert temp.shape[2] % ncomp == 0
                     temp2 = temp.reshape((temp.shape[0], temp.shape[1],
-                                          temp.shape[2]//2, 2))\
-                        .reshape((temp.shape[0], -1, 2))\
+                                          temp.shape[2]//ncomp, ncomp))\
+                        .reshape((temp.shape[0], -1, ncomp))\
                         .transpose(1, 2, 0)
                     result[alpha] = temp2
         return result
-- 
2.43.0


From 13a86f6bd213fcf57b4e462ad342ae8d61dcbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 07/33] fix: tabulate enriched elements with tensor values

The table was allocated with one flattened component axis.
---
 FIAT/enriched.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/FIAT/enriched.py b/FIAT/enriched.py
index 97ac5c5..9e93073 100644
--- a/FIAT/enriched.py
+++ b/FIAT/enriched.py
@@ -89,8 +89,7 @@ class EnrichedElement(FiniteElement):
         """Return tabulated values of derivatives up to given order of
         basis functions at given points."""
 
-        num_components = numpy.prod(self.value_shape())
-        table_shape = (self.space_dimension(), num_components, len(points))
+        table_shape = (self.space_dimension(),) + self.value_shape() + (len(points),)
 
         table = {}
         irange = slice(0)
@@ -103,12 +102,8 @@ class EnrichedElement(FiniteElement):
             for dtuple in etable.keys():
 
                 if dtuple not in table:
-                    if num_components == 1:
-                        table[dtuple] = numpy.zeros((self.space_dimension(), len(points)),
-                                                    dtype=etable[dtuple].dtype)
-                    else:
-                        table[dtuple] = numpy.zeros(table_shape,
-                                                    dtype=etable[dtuple].dtype)
+                    table[dtuple] = numpy.zeros(table_shape,
+                                                dtype=etable[dtuple].dtype)
 
                 table[dtuple][irange][:] = etable[dtuple]
 
-- 
2.43.0


From 2463e2fe1ccbb5141bd463531a8149ca332ccde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 08/33] fix: broken elements report nodality and members of the
 original element

is_nodal() was always True, get_num_members() dropped its argument and the
attributes used by wrapping elements (ref_el) were missing.
---
 FIAT/discontinuous.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/FIAT/discontinuous.py b/FIAT/discontinuous.py
index fbb4d2b..da09f26 100644
--- a/FIAT/discontinuous.py
+++ b/FIAT/discontinuous.py
@@ -22,10 +22,14 @@ class DiscontinuousElement(CiarletElement):
 
         new_entity_ids[dim][0] = list(range(element.space_dimension()))
         # re-initialise the dual, so entity_closure_dofs is recalculated
-        self.dual = DualSet(element.dual_basis(), element.get_reference_element(), new_entity_ids)
+        ref_el = element.get_reference_element()
+        dual = DualSet(element.dual_basis(), ref_el, new_entity_ids)
 
         # fully discontinuous
-        self.formdegree = element.get_reference_element().get_spatial_dimension()
+        formdegree = ref_el.get_spatial_dimension()
+
+        # the nodal basis is that of the original element
+        super(CiarletElement, self).__init__(ref_el, dual, element.get_order(), formdegree, element._mapping)
 
     def degree(self):
         "Return the degree of the (embedding) polynomial space."
@@ -79,4 +83,8 @@ class DiscontinuousElement(CiarletElement):
 
     def get_num_members(self, arg):
         "Return number of members of the expansion set."
-        return self._element.get_num_members()
+        return self._element.get_num_members(arg)
+
+    def is_nodal(self):
+        "True if primal and dual bases of the original element are orthogonal."
+        return self._element.is_nodal()
-- 
2.43.0


From 2c6324ccface9a9e1857119ea5d883eb936ba943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 09/33] fix: flattened elements return, not raise, what the
 product element returns

---
 FIAT/tensor_product.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/FIAT/tensor_product.py b/FIAT/tensor_product.py
index 4a9af09..048508d 100644
--- a/FIAT/tensor_product.py
+++ b/FIAT/tensor_product.py
@@ -415,21 +415,21 @@ class FlattenedDimensions(FiniteElement):
     def get_nodal_basis(self):
         """Return the nodal basis, encoded as a PolynomialSet object,
         for the finite element."""
-        raise self.element.get_nodal_basis()
+        return self.element.get_nodal_basis()
 
     def get_coeffs(self):
         """Return the expansion coefficients for the basis of the
         finite element."""
-        raise self.element.get_coeffs()
+        return self.element.get_coeffs()
 
     def dmats(self):
         """Return dmats: expansion coefficients for basis function
         derivatives."""
-        raise self.element.dmats()
+        return self.element.dmats()
 
     def get_num_members(self, arg):
         """Return number of members of the expansion set."""
-        raise self.element.get_num_members(arg)
+        return self.element.get_num_members(arg)
 
     def is_nodal(self):
         # This element is nodal iff unflattened element is nodal.
-- 
2.43.0


From 14452dc1c75d8d55f988c63d9acdaa2f4dc49a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 10/33] fix: second normal derivative, tensor moment and
 normal-normal moment functionals

PointNormalSecondDerivative used the components of the normal as weights and
left out the mixed derivatives, TensorBidirectionalMomentInnerProductEvaluation
raised TypeError, and IntegralMomentOfNormalNormalEvaluation evaluated v.n
instead of n^T tau n.
---
 FIAT/functional.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index f213e95..da54aff 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -277,12 +277,12 @@ class PointNormalSecondDerivative(Functional):
                 alpha[i] += 1
                 alpha[j] += 1
                 alphas.append(tuple(alpha))
-                tau[cur] = n[i]*n[j]
+                tau[cur] = n[i]*n[j] if i == j else 2*n[i]*n[j]
                 cur += 1
 
         self.tau = tau
         self.alphas = alphas
-        dpt_dict = {pt: [(n[i], alphas[i], tuple()) for i in range(sd)]}
+        dpt_dict = {pt: [(tau[i], alphas[i], tuple()) for i in range(len(alphas))]}
 
         Functional.__init__(self, ref_el, tuple(), {}, dpt_dict, "PointNormalDeriv")
 
@@ -724,11 +724,11 @@ class TensorBidirectionalMomentInnerProductEvaluation(Functional):
         qpts, qwts = Q.get_points(), Q.get_weights()
 
         pt_dict = {}
-        for k, pt in enumerate(map(tuple(qpts))):
+        for k, pt in enumerate(map(tuple, qpts)):
             pt_dict[pt] = []
             for i, j in index_iterator((sd, sd)):
-                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[i, j, k]),
-                                   (i, j))
+                pt_dict[pt].append((qwts[k] * wvT[i][j] * f_at_qpts[i, j, k],
+                                    (i, j)))
 
         shp = (sd, sd)
         super().__init__(ref_el, shp, pt_dict, {}, "TensorBidirectionalMomentInnerProductEvaluation")
@@ -791,7 +791,7 @@ class IntegralMomentOfNormalNormalEvaluation(Functional):
     :arg facet: which facet.
     """
     def __init__(self, ref_el, Q, P_at_qpts, facet):
-        # scaling on the normal is ok because edge length then weights
+        # scaling one of the normals is ok because edge length then weights
         # the reference element quadrature appropriately
         n = ref_el.compute_scaled_normal(facet)
         sd = ref_el.get_spatial_dimension()
@@ -799,6 +799,8 @@ class IntegralMomentOfNormalNormalEvaluation(Functional):
         pts = tuple(map(lambda p: tuple(transform(p)), Q.get_points()))
         weights = Q.get_weights()
         pt_dict = OrderedDict()
+        unit_n = n / numpy.linalg.norm(n)
         for pt, wgt, phi in zip(pts, weights, P_at_qpts):
-            pt_dict[pt] = [(wgt*phi*n[i], (i, )) for i in range(sd)]
-        super().__init__(ref_el, (sd, ), pt_dict, {}, "IntegralMomentOfScaledNormalEvaluation")
+            pt_dict[pt] = [(wgt*phi*n[i]*unit_n[j], (i, j))
+                           for i, j in index_iterator((sd, sd))]
+        super().__init__(ref_el, (sd, sd), pt_dict, {}, "IntegralMomentOfNormalNormalEvaluation")
-- 
2.43.0


From 734b1e92ab9de9e5314f043c5c1d58e09efc78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 11/33] fix: entity_support_dofs of tensor-valued elements

Only the last component axis was summed, and comparing the result raised
ValueError.
---
 FIAT/finite_element.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FIAT/finite_element.py b/FIAT/finite_element.py
index f7d1b02..c3f794d 100644
--- a/FIAT/finite_element.py
+++ b/FIAT/finite_element.py
@@ -233,8 +233,9 @@ def entity_support_dofs(elem, entity_dim):
         # Ints contains the square of the basis functions
         # integrated over the facet.
         if elem.value_shape():
-            # Vector-valued functions.
-            ints = numpy.dot(numpy.einsum("...ij,...ij->...j", vals, vals), weights)
+            # Vector- or tensor-valued functions.
+            components = tuple(range(1, vals.ndim - 1))
+            ints = numpy.dot(numpy.sum(vals**2, axis=components), weights)
         else:
             ints = numpy.dot(vals**2, weights)
 
-- 
2.43.0


From f1f75279e6d21b039c582ac7adbe59add455fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 12/33] fix: target shape of the moments of divergences

They act on vector and tensor fields but claimed scalar ones, so that a dual
set starting with one of them (e.g. a restriction of Mardal-Tai-Winther to the
interior) could not be built.
---
 FIAT/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index da54aff..b7fc790 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -462,7 +462,7 @@ class IntegralMomentOfDivergence(Functional):
         for j, pt in enumerate(dpts):
             dpt_dict[tuple(pt)] = [(qwts[j]*f_at_qpts[j], alphas[i], (i,)) for i in range(sd)]
 
-        super().__init__(ref_el, tuple(), {}, dpt_dict,
+        super().__init__(ref_el, (sd,), {}, dpt_dict,
                          "IntegralMomentOfDivergence")
 
 
@@ -489,7 +489,7 @@ class IntegralMomentOfTensorDivergence(Functional):
         for q, pt in enumerate(dpts):
             dpt_dict[tuple(pt)] = [(qwts[q]*f_at_qpts[i, q], alphas[j], (i, j)) for i in range(2) for j in range(2)]
 
-        super().__init__(ref_el, tuple(), {}, dpt_dict,
+        super().__init__(ref_el, (sd, sd), {}, dpt_dict,
                          "IntegralMomentOfDivergence")
 
 
-- 
2.43.0


From 167fd4e0e0c1f03aeb413fcc60eb2cef6aa34339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 13/33] fix: Bernstein derivatives whose order equals the
 degree

---
 FIAT/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 7fe6cfd..051d523 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -135,7 +135,7 @@ def bernstein_db(points, ks, alpha=None):
     if any(k < 0 for k in ls):
         return numpy.zeros(len(points))
     elif all(k == 0 for k in ls):
-        return numpy.ones(len(points))
+        return numpy.full(len(points), float(math.factorial(ks.sum())))
     else:
         # Calculate coefficient
         coeff = math.factorial(ks.sum())
-- 
2.43.0


From 632460377c06f9405695da530045cbf65a137749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 14/33] fix: Bernstein elements on cells that list the vertices
 of an entity out of order

---
 FIAT/bernstein.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index 051d523..b825bc4 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -25,7 +25,7 @@ class BernsteinDualSet(DualSet):
                       for dim, entities in topology.items()}
 
         # Calculate inverse topology
-        inverse_topology = {vertices: (dim, entity_i)
+        inverse_topology = {tuple(sorted(vertices)): (dim, entity_i)
                             for dim, entities in topology.items()
                             for entity_i, vertices in entities.items()}
 
-- 
2.43.0


From 7f7486557a2caca62221dda56803fd2b41411478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 15/33] fix: KMV quadrature scheme on reference cells other
 than the unit simplices

---
 FIAT/quadrature_schemes.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/FIAT/quadrature_schemes.py b/FIAT/quadrature_schemes.py
index fc83a68..7ece489 100644
--- a/FIAT/quadrature_schemes.py
+++ b/FIAT/quadrature_schemes.py
@@ -28,10 +28,12 @@ Background on the schemes:
 # Last changed: 2011-04-19
 
 # NumPy
-from numpy import array, arange, float64
+from numpy import array, arange, float64, dot
+from numpy.linalg import det
 
 # FIAT
-from FIAT.reference_element import QUADRILATERAL, HEXAHEDRON, TENSORPRODUCT, UFCTriangle, UFCTetrahedron
+from FIAT.reference_element import (QUADRILATERAL, HEXAHEDRON, TENSORPRODUCT, UFCTriangle, UFCTetrahedron,
+                                    make_affine_mapping)
 from FIAT.quadrature import QuadratureRule, make_quadrature, make_tensor_product_quadrature
 
 
@@ -105,6 +107,13 @@ def _kmv_lump_scheme(ref_el, degree):
     else:
         raise ValueError("Dimension not supported")
 
+    if ref_el != T:
+        # The points below are those of the unit element: map them
+        A, b = make_affine_mapping(T.get_vertices(), ref_el.get_vertices())
+        rule = _kmv_lump_scheme(T, degree)
+        x = [tuple(dot(A, pt) + b) for pt in rule.pts]
+        return QuadratureRule(ref_el, x, abs(det(A)) * rule.wts)
+
     if degree == 1:
         x = ref_el.vertices
         w = arange(sd + 1, dtype=float64)
-- 
2.43.0


From 8d95891b30ab45f8fb0eb3cf8e40aa0c1ef815d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 16/33] fix: lobatto does not overwrite the recursion
 coefficients it is given

---
 FIAT/orthopoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 58ae24d..fe094ad 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -93,9 +93,9 @@ def lobatto(alpha, beta, xl1, xl2):
     xl = np.array((xl1, xl2))
     ab = solve(C, xl)
 
-    alphal = alpha
+    alphal = np.array(alpha)
     alphal[-1] = ab[0]
-    betal = beta
+    betal = np.array(beta)
     betal[-1] = ab[1]
     x, w = gauss(alphal, betal)
     return x, w
-- 
2.43.0


From 6638f7049283016b8bf5313fdb7cea6c65744c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 17/33] fix: recursion coefficients for N = 1 are arrays as for
 every other N

---
 FIAT/orthopoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index fe094ad..a8339ec 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -127,8 +127,8 @@ def rec_jacobi(N, a, b):
     mu = 2 ** (a + b + 1) * gamma(a + 1) * gamma(b + 1) / gamma(a + b + 2)
 
     if N == 1:
-        alpha = nu
-        beta = mu
+        alpha = np.array([nu])
+        beta = np.array([mu])
     else:
         n = np.arange(1.0, N)
         nab = 2 * n + a + b
-- 
2.43.0


From 4faa3a0d58571d7c80fc3520f3c514b50985ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 18/33] fix: mod_chebyshev with more moments than it needs

---
 FIAT/orthopoly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index a8339ec..dc45ce0 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -342,7 +342,7 @@ def mod_chebyshev(N, mom, alpham, betam):
     alpha[0] = alpham[0] + mom[1] / mom[0]
     beta[0] = mom[0]
 
-    sig[1, :] = mom
+    sig[1, :] = mom[:2 * N]
 
     for n in range(2, N + 1):
         for m in range(n - 1, 2 * N - n + 1):
-- 
2.43.0


From a2d7e8b9e7836e25fcc4bee761ccb2c314758be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 19/33] fix: normalized Jacobi polynomials and their
 derivatives

---
 FIAT/orthopoly.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index dc45ce0..1da0434 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -233,9 +233,10 @@ def jacobi(N, a, b, x, NOPT=1):
                        d * P[:, k - 2]) / (k2 * (k + apb) * g2)
 
     if NOPT == 2:
-        k = np.arange(N + 1)
-        pnorm = 2 ** (apb + 1) * gamma(k + a + 1) * gamma(k + b + 1) / \
-            ((2 * k + a + b + 1) * (gamma(k + 1) * gamma(k + a + b + 1)))
+        # For k = 0, (apb + 1) * gamma(apb + 1) = gamma(apb + 2)
+        pnorm = [2 ** (apb + 1) * gamma(k + a + 1) * gamma(k + b + 1) /
+                 (gamma(k + 1) * ((2 * k + apb + 1) * gamma(k + apb + 1) if k else gamma(apb + 2)))
+                 for k in range(N + 1)]
         P *= 1 / np.sqrt(pnorm)
     return P
 
@@ -254,8 +255,10 @@ def jacobiD(N, a, b, x, NOPT=1):
         Px = z
     else:
 
-        Px = 0.5 * np.hstack((z, jacobi(N - 1, a + 1, b + 1, x, NOPT) *
-                              ((a + b + 2 + np.arange(N)))))
+        # The norms of P_n^(a,b) and of its derivative differ by a factor of sqrt(n * (n + a + b + 1))
+        n = np.arange(1, N + 1)
+        scale = 0.5 * (a + b + 1 + n) if NOPT != 2 else np.sqrt(n * (n + a + b + 1))
+        Px = np.hstack((z, jacobi(N - 1, a + 1, b + 1, x, NOPT) * scale))
     return Px
 
 
-- 
2.43.0


From 8f9e297f877fc21524b5f555884d83851891d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 20/33] fix: mm_log for an integral parameter given as a float

---
 FIAT/orthopoly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 1da0434..54e9fd2 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -280,6 +280,8 @@ def mm_log(N, a):
 
     if a <= -1:
         raise ValueError('Parameter a must be greater than -1')
+    if a == int(a):
+        a = int(a)
 
     prod = lambda z: reduce(lambda x, y: x * y, z, 1)
 
-- 
2.43.0


From d9513983094208913b34b86d33f63e177acded34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 21/33] fix: Lobatto rules for weights that are not symmetric

---
 FIAT/orthopoly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/orthopoly.py b/FIAT/orthopoly.py
index 54e9fd2..3e7891d 100644
--- a/FIAT/orthopoly.py
+++ b/FIAT/orthopoly.py
@@ -84,9 +84,9 @@ def lobatto(alpha, beta, xl1, xl2):
     en = np.zeros(n)
     en[-1] = 1
     A1 = np.vstack((np.sqrt(beta), alpha - xl1))
-    J1 = np.diag(A1[0, 1:-1], 1) + np.diag(A1[1, 1:]) + np.diag(A1[0, 1:-1], -1)
+    J1 = np.diag(A1[0, 1:-1], 1) + np.diag(A1[1, :-1]) + np.diag(A1[0, 1:-1], -1)
     A2 = np.vstack((np.sqrt(beta), alpha - xl2))
-    J2 = np.diag(A2[0, 1:-1], 1) + np.diag(A2[1, 1:]) + np.diag(A2[0, 1:-1], -1)
+    J2 = np.diag(A2[0, 1:-1], 1) + np.diag(A2[1, :-1]) + np.diag(A2[0, 1:-1], -1)
     g1 = solve(J1, en)
     g2 = solve(J2, en)
     C = np.array(((1, -g1[-1]), (1, -g2[-1])))
-- 
2.43.0


From b38323a8f69ab2303224cd7ac7007db08e3bbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 22/33] fix: line expansion functions at points with integer
 coordinates

---
 FIAT/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/expansions.py b/FIAT/expansions.py
index a5fc112..b49d213 100644
--- a/FIAT/expansions.py
+++ b/FIAT/expansions.py
@@ -160,7 +160,7 @@ class LineExpansionSet(object):
             ref_pts = numpy.array([self.mapping(pt) for pt in pts])
             psitilde_as = jacobi.eval_jacobi_batch(0, 0, n, ref_pts)
 
-            results = numpy.zeros((n + 1, len(pts)), type(pts[0][0]))
+            results = numpy.zeros((n + 1, len(pts)), ref_pts.dtype)
             for k in range(n + 1):
                 results[k, :] = psitilde_as[k, :] * math.sqrt(k + 0.5)
 
-- 
2.43.0


From 42d9656fa4663d86eb93339d5e46405dcb575ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 23/33] fix: project onto a polynomial set

---
 FIAT/polynomial_set.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/FIAT/polynomial_set.py b/FIAT/polynomial_set.py
index 9bf0b71..2f60410 100644
--- a/FIAT/polynomial_set.py
+++ b/FIAT/polynomial_set.py
@@ -184,10 +184,11 @@ def project(f, U, Q):
     """
     pts = Q.get_points()
     wts = Q.get_weights()
-    f_at_qps = [f(x) for x in pts]
-    U_at_qps = U.tabulate(pts)
-    coeffs = numpy.array([sum(wts * f_at_qps * phi) for phi in U_at_qps])
-    return coeffs
+    sd = U.get_reference_element().get_spatial_dimension()
+    f_at_qps = numpy.array([f(x) for x in pts])
+    U_at_qps = U.tabulate(pts)[tuple([0] * sd)]
+    gram = numpy.dot(U_at_qps * wts, numpy.transpose(U_at_qps))
+    return numpy.linalg.solve(gram, numpy.dot(U_at_qps, wts * f_at_qps))
 
 
 def form_matrix_product(mats, alpha):
-- 
2.43.0


From 632d73bd3d1b1da01033c3a451dc0340c88de7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 24/33] fix: eval_jacobi_batch at integer points

---
 FIAT/jacobi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/jacobi.py b/FIAT/jacobi.py
index ab78a1e..35741a7 100644
--- a/FIAT/jacobi.py
+++ b/FIAT/jacobi.py
@@ -49,7 +49,7 @@ def eval_jacobi_batch(a, b, n, xs):
     Returns a two-dimensional array of points, where the
     rows correspond to the Jacobi polynomials and the
     columns correspond to the points."""
-    result = numpy.zeros((n + 1, len(xs)), xs.dtype)
+    result = numpy.zeros((n + 1, len(xs)), numpy.result_type(xs.dtype, float))
     # hack to make sure AD type is propogated through
     for ii in range(result.shape[1]):
         result[0, ii] = 1.0 + xs[ii, 0] - xs[ii, 0]
-- 
2.43.0


From 2509878d2d8e863ad573bdd26f07f88c1b5527c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 25/33] fix: trace element tabulation without an entity for
 positive derivative orders

---
 FIAT/hdiv_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/hdiv_trace.py b/FIAT/hdiv_trace.py
index 9be22c3..e4e3944 100644
--- a/FIAT/hdiv_trace.py
+++ b/FIAT/hdiv_trace.py
@@ -204,7 +204,7 @@ class HDivTrace(FiniteElement):
                 # Retrieve values by tabulating the DG element
                 element = self.dg_elements[facet_sd]
                 nf = element.space_dimension()
-                nonzerovals, = element.tabulate(order, new_points).values()
+                nonzerovals, = element.tabulate(0, new_points).values()
                 indices = slice(nf * unique_facet, nf * (unique_facet + 1))
 
         else:
-- 
2.43.0


From d931b9d90a60b724a3cda3225b2eecf8d6aaf5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 26/33] fix: calling an integral moment of a component on a
 vector-valued function

---
 FIAT/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index b7fc790..c8bf9b8 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -313,7 +313,7 @@ class IntegralMoment(Functional):
         """Evaluate the functional on the function fn."""
         pts = list(self.pt_dict.keys())
         wts = numpy.array([foo[0][0] for foo in list(self.pt_dict.values())])
-        result = numpy.dot([fn(p) for p in pts], wts)
+        result = numpy.tensordot(wts, [fn(p) for p in pts], axes=(0, 0))
 
         if self.comp:
             result = result[self.comp]
-- 
2.43.0


From 17d7df7cb0bdc090b04a54f8b6b35dee4a91b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 27/33] fix: direct call of a partial derivative of order zero

---
 FIAT/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FIAT/functional.py b/FIAT/functional.py
index c8bf9b8..0b29ac5 100644
--- a/FIAT/functional.py
+++ b/FIAT/functional.py
@@ -238,8 +238,8 @@ class PointDerivative(Functional):
         X = sympy.DeferredVector('x')
         dX = numpy.asarray([X[i] for i in range(len(x))])
 
-        dvars = tuple(d for d, a in zip(dX, self.alpha)
-                      for count in range(a))
+        # with explicit counts, so that no variables means no differentiation
+        dvars = tuple(zip(dX, self.alpha))
 
         return sympy.diff(fn(X), *dvars).evalf(subs=dict(zip(dX, x)))
 
-- 
2.43.0


From 6f2a5d9e0f04b0179bbbdc82bdbbc92280cb091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 28/33] fix: dual sets whose derivative degrees of freedom all
 have order zero

---
 FIAT/dual_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/dual_set.py b/FIAT/dual_set.py
index 215048b..46f072b 100644
--- a/FIAT/dual_set.py
+++ b/FIAT/dual_set.py
@@ -114,7 +114,7 @@ class DualSet(object):
 
         # Tabulate the derivative values that are needed
         max_deriv_order = max([ell.max_deriv_order for ell in self.nodes])
-        if max_deriv_order > 0:
+        if dpts_to_ells:
             dpts = list(dpts_to_ells.keys())
             # It's easiest/most efficient to get derivatives of the
             # expansion set through the polynomial set interface.
-- 
2.43.0


From a02fa084450a17617580008eeda255b6e8c8ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 29/33] fix: reject Bernstein elements of degree below one or
 on cells that are not simplices

---
 FIAT/bernstein.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FIAT/bernstein.py b/FIAT/bernstein.py
index b825bc4..8fbbd29 100644
--- a/FIAT/bernstein.py
+++ b/FIAT/bernstein.py
@@ -12,6 +12,7 @@ import numpy
 from FIAT.finite_element import FiniteElement
 from FIAT.dual_set import DualSet
 from FIAT.polynomial_set import mis
+from FIAT.reference_element import Simplex
 
 
 class BernsteinDualSet(DualSet):
@@ -50,6 +51,10 @@ class Bernstein(FiniteElement):
     """A finite element with Bernstein polynomials as basis functions."""
 
     def __init__(self, ref_el, degree):
+        if not isinstance(ref_el, Simplex):
+            raise ValueError("Bernstein elements are only defined on simplices.")
+        if degree < 1:
+            raise ValueError("Bernstein elements require degree >= 1, got %d." % degree)
         dual = BernsteinDualSet(ref_el, degree)
         k = 0  # 0-form
         super(Bernstein, self).__init__(ref_el, dual, degree, k)
-- 
2.43.0


From 480bdc1474ba0032d9ea5d6db46c801e6e8376b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:53 +0000
Subject: [PATCH 30/33] fix: reject nodal enrichment by linearly dependent
 bases when rounding hides it

---
 FIAT/nodal_enriched.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FIAT/nodal_enriched.py b/FIAT/nodal_enriched.py
index eebb2eb..9fccd4e 100644
--- a/FIAT/nodal_enriched.py
+++ b/FIAT/nodal_enriched.py
@@ -79,6 +79,11 @@ class NodalEnrichedElement(CiarletElement):
         super(NodalEnrichedElement, self).__init__(poly_set, dual_set, order,
                                                    formdegree=formdegree, mapping=mapping)
 
+        # Rounding errors can hide the singularity from the inversion
+        if np.linalg.matrix_rank(self.V) < len(self.V):
+            raise np.linalg.LinAlgError("The bases of the elements given for construction of "
+                                        "NodalEnrichedElement are linearly dependent")
+
 
 def _merge_coeffs(coeffss):
     # Number of bases members
-- 
2.43.0


From 86f37dcd77385a64375c08e7f37e8055bd2031aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 31/33] fix: Simplex.make_points accepted entities the cell
 does not have

---
 FIAT/reference_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FIAT/reference_element.py b/FIAT/reference_element.py
index f9027a0..341e691 100644
--- a/FIAT/reference_element.py
+++ b/FIAT/reference_element.py
@@ -355,6 +355,8 @@ class Simplex(Cell):
         """Constructs a lattice of points on the entity_id:th
         facet of dimension dim.  Order indicates how many points to
         include in each direction."""
+        if dim in self.get_topology() and entity_id not in self.get_topology()[dim]:
+            raise ValueError("illegal entity")
         if dim == 0:
             return (self.get_vertices()[entity_id], )
         elif 0 < dim < self.get_spatial_dimension():
-- 
2.43.0


From 0554d4f1b5143cebafa8e62727751d1590999ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 32/33] fix: barycentric interpolation snapped points within
 1e-8 of a node to the node

---
 FIAT/barycentric_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FIAT/barycentric_interpolation.py b/FIAT/barycentric_interpolation.py
index ceee2f1..17eaf41 100644
--- a/FIAT/barycentric_interpolation.py
+++ b/FIAT/barycentric_interpolation.py
@@ -31,7 +31,7 @@ def barycentric_interpolation(xsrc, xdst, order=0):
     numpy.fill_diagonal(D, numpy.diag(D) - numpy.sum(D, axis=0))
 
     I = numpy.add.outer(-xsrc, xdst)
-    idx = numpy.argwhere(numpy.isclose(I, 0.0E0, 1E-14))
+    idx = numpy.argwhere(numpy.isclose(I, 0.0E0, rtol=0.0E0, atol=1E-14))
     I[idx[:, 0], idx[:, 1]] = 1.0E0
     I = 1.0E0 / I
     I *= w[:, None]
-- 
2.43.0


From 7dce68d16ef0a347bb9267ba4238223a0d981489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 33/33] fix: entity supports of basis functions that are small
 on the whole cell

---
 FIAT/finite_element.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/FIAT/finite_element.py b/FIAT/finite_element.py
index c3f794d..78f91c6 100644
--- a/FIAT/finite_element.py
+++ b/FIAT/finite_element.py
@@ -217,29 +217,33 @@ def entity_support_dofs(elem, entity_dim):
     ref_el = elem.get_reference_element()
     dim = ref_el.get_spatial_dimension()
 
-    entity_cell = ref_el.construct_subelement(entity_dim)
-    quad = create_quadrature(entity_cell, max(2*elem.degree(), 1))
-    weights = quad.get_weights()
+    def square_integrals(entity_dim, entity):
+        """Integrate the square of the basis functions on an entity."""
+        entity_cell = ref_el.construct_subelement(entity_dim)
+        quad = create_quadrature(entity_cell, max(2*elem.degree(), 1))
+        weights = quad.get_weights()
 
-    eps = 1.e-8  # Is this a safe value?
-
-    result = {}
-    for f in elem.entity_dofs()[entity_dim].keys():
-        entity_transform = ref_el.get_entity_transform(entity_dim, f)
+        entity_transform = ref_el.get_entity_transform(entity_dim, entity)
         points = list(map(entity_transform, quad.get_points()))
 
-        # Integrate the square of the basis functions on the facet.
         vals = numpy.double(elem.tabulate(0, points)[(0,) * dim])
         # Ints contains the square of the basis functions
         # integrated over the facet.
         if elem.value_shape():
             # Vector- or tensor-valued functions.
             components = tuple(range(1, vals.ndim - 1))
-            ints = numpy.dot(numpy.sum(vals**2, axis=components), weights)
+            return numpy.dot(numpy.sum(vals**2, axis=components), weights)
         else:
-            ints = numpy.dot(vals**2, weights)
+            return numpy.dot(vals**2, weights)
 
-        result[f] = [dof for dof, i in enumerate(ints) if i > eps]
+    # Basis functions that are small on the whole cell (such as those
+    # dual to high derivatives) are measured relative to their size.
+    eps = 1.e-8 * numpy.fmin(square_integrals(ref_el.get_dimension(), 0), 1.0)
+
+    result = {}
+    for f in elem.entity_dofs()[entity_dim].keys():
+        ints = square_integrals(entity_dim, f)
+        result[f] = [dof for dof, i in enumerate(ints) if i > eps[dof]]
 
     cache[entity_dim] = result
     return result
-- 
2.43.0

