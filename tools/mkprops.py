import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("P01","Degrees of freedom and basis functions are dual, for every nodal element",
"For every element that reports itself nodal, on every reference cell, degree and variant it accepts, applying its i-th published degree of freedom (its published list of points, derivative multi-indices, components and weights) to its j-th tabulated basis function gives 1 if i = j and 0 otherwise. There are exactly as many degrees of freedom as basis functions, and applying them to any function of the element's space and summing the basis functions with those values reproduces that function everywhere. Excepted are degrees of freedom published as undefined placeholders (some products) and the degrees of freedom of mixed elements, documented to act on the parts only.",
["configurations","inputs"],"all nodal families x reference cells x degrees x variants; all functions in the space",
"The unit tests check duality for fixed low degrees on UFC cells only and never apply the degrees of freedom to an independently evaluated function; the quantifier is over every family, cell, degree, variant and function.",
["FIAT/finite_element.py","FIAT/dual_set.py","FIAT/functional.py","FIAT/polynomial_set.py","FIAT/lagrange.py","FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/argyris.py"],
[("generalised Vandermonde inversion","FIAT/finite_element.py CiarletElement.__init__"),("Riesz representation of the dual set","FIAT/dual_set.py DualSet.to_riesz")],
["tabulate","dual_basis","is_nodal"])

add("P02","Every element spans exactly its advertised function space",
"The tabulated basis functions of every element are linearly independent and span exactly the function space its definition advertises for that cell and degree - no function missing and none extra: full scalar, vector or symmetric-tensor polynomials of the given degree, or the classical Raviart-Thomas, Nedelec, Brezzi-Douglas-Fortin-Marini, bubble, Kong-Mulder-Veldhuizen, serendipity, tensor-product and DPC spaces. The reported dimension and value shape match the tabulated arrays. The reported degree is an upper bound for the polynomial degree of the basis functions (per direction on tensor-product cells).",
["configurations","inputs"],"all families x reference cells x degrees x variants; all evaluation points",
"Tests compare dimensions or a few values at fixed degrees; that a basis spans the whole space and nothing else for every degree and cell needs an independent description of each space.",
["FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/nedelec_second_kind.py","FIAT/brezzi_douglas_marini.py","FIAT/brezzi_douglas_fortin_marini.py","FIAT/regge.py","FIAT/hellan_herrmann_johnson.py","FIAT/serendipity.py","FIAT/kong_mulder_veldhuizen.py","FIAT/discontinuous_pc.py","FIAT/polynomial_set.py","FIAT/expansions.py"],
[("primal space constructors","FIAT/*.py, e.g. RTSpace, NedelecSpace2D, bubble and serendipity builders"),("set union by SVD","FIAT/polynomial_set.py polynomial_set_union_normalized")],
["tabulate","space_dimension","value_shape","degree"])

add("P03","Tabulated derivatives are the true partial derivatives of the basis",
"Tabulating any element up to derivative order n returns one table for every multi-index of total order 0 to n and no others, and each table holds the exact mixed partial derivative, in reference coordinates and in the matching multi-index position, of the order-zero basis functions at the given points. This holds for every element, derivative order, and set of points, including cell vertices, edges, faces and points outside the cell, and including orders above the polynomial degree, where the tables vanish. The tables of lower orders do not depend on the maximal order requested.",
["configurations","inputs"],"all element configurations x derivative orders x point sets (interior, boundary, vertices, exterior)",
"Tests check first derivatives of a few elements at a handful of points; mixed and higher derivatives, exceptional points and most families are not reached.",
["FIAT/polynomial_set.py","FIAT/expansions.py","FIAT/bernstein.py","FIAT/serendipity.py","FIAT/tensor_product.py","FIAT/finite_element.py","FIAT/jacobi.py","FIAT/barycentric_interpolation.py"],
[("differentiation matrices","FIAT/polynomial_set.py ONPolynomialSet / PolynomialSet.tabulate"),("symbolic or closed-form differentiation","FIAT/serendipity.py, FIAT/bernstein.py")],
["tabulate"])

add("P04","Quadrature created for a degree integrates every polynomial of that degree",
"For every reference cell (interval, triangle, tetrahedron on each supported reference geometry, quadrilateral, hexahedron and tensor-product cells, with a single or per-direction degree) and every non-negative requested degree and scheme, the created quadrature rule integrates every polynomial up to that degree exactly over the cell (up to rounding). Its weights sum to the cell's volume, it has as many points as weights, and all its points lie in the cell.",
["configurations","inputs"],"all cells x requested degrees x schemes; all polynomials up to the degree",
"Tests integrate a few monomials on UFC cells for selected degrees; a rule table with one wrong digit or a wrong degree-to-points mapping at one degree passes them.",
["FIAT/quadrature_schemes.py","FIAT/quadrature.py"],
[("scheme selection and hard-coded tables","FIAT/quadrature_schemes.py create_quadrature"),("collapsed Gauss-Jacobi rules","FIAT/quadrature.py")],
["create_quadrature","get_points","get_weights"])

add("P05","Named quadrature families have their classical points, weights and exactness",
"Every named rule - Gauss-Jacobi for any weight exponents, Gauss-Legendre, Gauss-Lobatto-Legendre, left and right Gauss-Radau, collapsed rules on triangles and tetrahedra, tensor-product rules, the face rule embedded in a tetrahedron, and the mass-lumping rules - has the number of points asked for, contains the endpoints (or other nodes) it is defined by, has positive weights summing to the measure of its domain, and is exact to its classical degree, on every reference geometry. The same holds for the supporting orthogonal-polynomial routines: recurrence coefficients, Gauss and Lobatto rules, and Jacobi polynomial values and derivatives agree with their mathematical definitions for all degrees and parameters.",
["inputs","configurations"],"number of points, weight exponents, reference geometries, parameter and argument values",
"Tests sample exactness of a few rules at few sizes; the recurrences and Newton iterations must be right for every size and parameter.",
["FIAT/quadrature.py","FIAT/orthopoly.py","FIAT/jacobi.py","FIAT/quadrature_schemes.py"],
[("Newton iteration and recurrences","FIAT/quadrature.py compute_gauss_jacobi_points; FIAT/orthopoly.py gauss, lobatto"),("Jacobi recurrences","FIAT/jacobi.py")])

add("P06","Elements sharing degrees of freedom across a facet are conforming",
"On two affine cells sharing a facet, with vertices ordered by global number, a function assembled by identifying the degrees of freedom attached to shared vertices, edges and faces (in their published order) and using the element's declared mapping has the interelement continuity of its family: full values for H1 families, normal components for H(div), tangential components for H(curl), tangential-tangential (Regge) or normal-normal (Hellan-Herrmann-Johnson) components for tensor families. On the reference cell, the basis functions not attached to the closure of a facet have vanishing trace of that kind on the facet (including values and normal derivatives for the C1 families).",
["configurations","inputs"],"conforming families x degrees x variants x facet pairs x affine geometries x coefficient vectors",
"No test assembles two cells; orientation or numbering errors only appear for particular facet pairs, higher degrees or particular entities.",
["FIAT/lagrange.py","FIAT/nedelec.py","FIAT/nedelec_second_kind.py","FIAT/raviart_thomas.py","FIAT/brezzi_douglas_marini.py","FIAT/regge.py","FIAT/hellan_herrmann_johnson.py","FIAT/serendipity.py","FIAT/bernstein.py","FIAT/kong_mulder_veldhuizen.py","FIAT/dual_set.py","FIAT/tensor_product.py"],
[("entity-wise dof placement and ordering","the dual set class of each family"),("entity transforms and tangents/normals","FIAT/reference_element.py")],
["tabulate","entity_dofs","mapping"])

add("P07","Degrees of freedom are partitioned over the cell's entities, with true supports",
"For every element, the entity-to-dof map has exactly the topological entities of its reference cell as keys and every degree of freedom appears under exactly one entity; all entities of equal kind carry the same number of degrees of freedom. The closure map of an entity is exactly the union over the entity and all its sub-entities, without duplicates. The entity support map lists exactly those basis functions that do not vanish identically on the entity.",
["configurations"],"all element configurations (including composite and tensor-product elements) x all entities",
"Tests check facet supports for a handful of tensor-product elements and a few counts; numbering errors of a single entity or degree go unnoticed.",
["FIAT/dual_set.py","FIAT/finite_element.py","FIAT/tensor_product.py","FIAT/mixed.py","FIAT/enriched.py","FIAT/restricted.py","FIAT/discontinuous.py","FIAT/reference_element.py"],
[("closure construction","FIAT/dual_set.py make_entity_closure_ids"),("entity ids built by each family","entity_ids in each dual set")],
["entity_dofs","entity_closure_dofs","entity_support_dofs"])

add("P08","Tabulating on a sub-entity equals tabulating on the cell at the mapped points",
"For every element and every sub-entity (vertex, edge, face, interior, or product entity) of its reference cell, tabulating at points given in the entity's own reference coordinates returns, for all derivative orders, the same tables as tabulating on the whole cell at the images of those points under the entity-to-cell map. That map is affine and sends the entity's reference vertices to the entity's vertices in their listed order. Omitting the entity means the cell itself.",
["configurations","inputs"],"all element configurations x all entities x points x derivative orders",
"Tests tabulate on entities only for the trace element and two tensor-product cases.",
["FIAT/finite_element.py","FIAT/reference_element.py","FIAT/tensor_product.py","FIAT/bernstein.py","FIAT/serendipity.py","FIAT/quadrature_element.py","FIAT/discontinuous_pc.py","FIAT/enriched.py","FIAT/mixed.py"],
[("entity transform","FIAT/reference_element.py get_entity_transform of each cell class"),("entity argument handling","tabulate of each element class")],
["tabulate(order, points, entity)","get_entity_transform"])

add("P09","Reference cells have consistent geometry and topology",
"For every reference cell, the topology lists each sub-entity once with the right number of vertices, sub-entity and connectivity tables agree with vertex-set inclusion, volumes of the cell and of its sub-entities are their Euclidean measures, normals are orthogonal to their facet with the length of their convention (unit normal - twice unit for UFC tetrahedra; facet-volume scaled; outward reference normal), and tangents are the differences of the entity's vertices. Lattice points generated for an entity are the equally spaced points of that entity in lexicographic order, lying in it and only in it; affine maps between cells take vertices to vertices; point containment agrees with the barycentric definition within the given tolerance. Product cells, flattened quadrilaterals and hexahedra and cells looked up by name or dimension are consistent with their factors, including numbering of product entities.",
["configurations","inputs"],"all reference cells and product cells x entities x lattice degrees x points and tolerances",
"Tests check a few volumes, normals and connectivities of UFC cells; per-entity tables for all cell classes, degrees and dimension combinations are not exhausted.",
["FIAT/reference_element.py"],
[("cell classes","FIAT/reference_element.py Simplex, TensorProductCell, UFCQuadrilateral, UFCHexahedron"),("lattice and affine map helpers","FIAT/reference_element.py make_lattice, make_affine_mapping, flatten_entities, compute_unflattening_map")])

add("P10","Expansion bases are orthogonal, hierarchical and correctly differentiated",
"On every reference simplex and for every degree, the principal expansion functions are mutually L2-orthogonal with equal norms (unit norm on the biunit cell), their number is the dimension of the polynomial space, and the first functions of a higher-degree set equal the functions of the lower-degree set (so they span every lower-degree polynomial space in order). Their tabulated gradients and higher jets are their exact derivatives at every point, including vertices and collapsed edges. Vector and symmetric-tensor orthonormal sets are made of these functions component by component.",
["configurations","inputs"],"simplex geometries x degrees x points x derivative orders x value shapes",
"The only tests check orthonormality-like facts at one or two degrees.",
["FIAT/expansions.py","FIAT/jacobi.py","FIAT/polynomial_set.py"],
[("Karniadakis-Sherwin recurrences","FIAT/expansions.py"),("symbolic differentiation of recurrences","FIAT/expansions.py _tabulate_dpts")])

add("P11","Polynomial set algebra preserves spans, members and derivatives",
"Taking a subset of a polynomial set selects exactly those members in the requested order; the union of two sets spans exactly the sum of their spans with an orthonormal coefficient basis and no redundancy; projecting a function with a sufficient quadrature rule returns coefficients that reproduce it when it lies in the set. Multi-index enumeration yields every tuple of the given length and sum exactly once, in the documented descending order, and derivative tables of combined sets remain the derivatives of their members.",
["inputs","histories"],"polynomial sets (scalar, vector, symmetric tensor) x operation sequences x points",
"No test exercises these operations directly, although every vector element is built from them.",
["FIAT/polynomial_set.py","FIAT/expansions.py"],
[("take, union, project, multi-indices","FIAT/polynomial_set.py")])

add("P12","Tensor-product elements are products of their factors",
"The basis functions of the tensor product of two elements, including nested products and flattened quadrilateral and hexahedral forms, and all their derivatives on the cell and on every product entity, are the products of the factors' basis functions with the first factor varying slowest. The degrees of freedom on a product entity are exactly the pairs of degrees of freedom on the factor entities, and a product of point evaluations is the point evaluation at the combined point; degree, value shape, mapping, form degree and dimension follow from the factors. Flattening changes only how entities are numbered.",
["configurations","inputs"],"pairs and triples of factor elements x derivative orders x entities x points",
"Tests cover a few hand-chosen products of low degree elements at few points.",
["FIAT/tensor_product.py","FIAT/reference_element.py"],
[("outer product tabulation and dual construction","FIAT/tensor_product.py TensorProductElement"),("flattening","FIAT/tensor_product.py FlattenedDimensions")])

add("P13","H(div)/H(curl) wrappers place tensor-product components correctly",
"Wrapping an admissible tensor-product element for H(div) or H(curl) gives a vector-valued element with as many components as the cell dimension, whose basis functions and all derivatives on every entity are those of the wrapped product placed in the component(s) fixed by the form degrees of the factors, with the documented sign or rotation, and zero elsewhere. The wrapped element declares the contravariant (H(div)) or covariant (H(curl)) mapping, leaves the original element unchanged, and keeps dimension and entity numbering. Inadmissible form degrees and non-tensor-product elements are rejected with an error.",
["configurations","inputs"],"admissible factor pairs (0-forms to n-forms on intervals, triangles, quadrilaterals) x orders x entities x points",
"Tests check a handful of products at a few points, and some documented branches are never executed.",
["FIAT/hdivcurl.py","FIAT/tensor_product.py"],
[("component placement","FIAT/hdivcurl.py Hdiv, Hcurl")])

add("P14","Enriched, restricted, mixed, broken and bubble elements agree with their parts",
"An enriched element tabulates the concatenation of its parts' tables; a nodal enriched element spans the same space and is nodal; a restricted element tabulates exactly the selected basis functions, in the order of the entities they belong to (dimension, number, position), and selects, for a restriction to the interior, exactly the degrees of freedom of the cell, and for one to vertices, edges, faces or facets exactly those attached to entities of that or a lower dimension; bubble elements are the restriction of the Lagrange element to interior or facet degrees of freedom; a mixed element stacks its parts block-diagonally; a broken element tabulates as the original with all degrees of freedom moved to the cell interior. For all of them the entity numbering, value shape, mapping, degree and dimension follow from the parts, at all points, entities and derivative orders, and nested combinations behave likewise.",
["configurations","inputs"],"combinations and nestings of element configurations x index sets/domains x points x orders x entities",
"Tests construct a few combinations and check nodality or sizes only.",
["FIAT/enriched.py","FIAT/nodal_enriched.py","FIAT/restricted.py","FIAT/mixed.py","FIAT/discontinuous.py","FIAT/bubble.py"],
[("concatenation and index bookkeeping","FIAT/enriched.py, FIAT/mixed.py concatenate_entity_dofs, FIAT/restricted.py")])

add("P15","The facet trace element is defined facet by facet and only on facets",
"On each facet (simplicial, quadrilateral or tensor-product cell, any degree or per-direction degrees), tabulating the H(div) trace element on that facet gives the discontinuous Lagrange basis of the facet for the degrees of freedom attached to it and zero for all others. Tabulating without an entity at points lying on a single facet agrees with tabulating on that facet, and any request that is not well defined (points off the facets or on several facets, entities of wrong dimension, derivatives) yields the documented error or not-a-number marker rather than numbers. Dimension and entity numbering are the disjoint union over facets.",
["configurations","inputs"],"cells x degrees x facets x points on/off facets x orders x tolerance-scale perturbations",
"Tests use a fixed degree range and fixed points on a few facets.",
["FIAT/hdiv_trace.py"],
[("facet identification and tabulation","FIAT/hdiv_trace.py HDivTrace.tabulate, extract_unique_facet, map_to_reference_facet")])

add("P16","Functionals evaluate the quantity they document and match their matrix form",
"Every linear functional - point values, components, partial, normal and second normal derivatives, normal, scaled-normal and tangential components, inner products of tensors, and integral moments against functions, normals, tangents, faces, Legendre polynomials or of divergences - applied through its published points, weights, components and derivatives to any polynomial field gives the documented quantity. Its representation with respect to any polynomial set contracts with the coefficients of a member to the same value. Directly calling a functional, where supported, gives that value too.",
["inputs","configurations"],"functional kinds x entities x quadrature degrees x moment functions x polynomial fields",
"Functionals are only tested indirectly through elements, which are self-consistent even if a functional measures the wrong quantity; some are not used by any test.",
["FIAT/functional.py","FIAT/dual_set.py"],
[("functional classes","FIAT/functional.py"),("Riesz representation","FIAT/functional.py Functional.to_riesz; FIAT/dual_set.py DualSet.to_riesz")])

add("P17","Degrees of freedom measure the quantities their family defines",
"For each family the degrees of freedom attached to an entity depend only on the trace of the function on that entity that the family defines (values; values and derivatives up to the order stated for Hermite, Argyris, Bell and Morley; normal or tangential components; normal-normal or tangential components of tensors; moments with the stated test functions), so any field whose relevant trace vanishes on the entity gives zero there. Point-value families (Lagrange, discontinuous Lagrange, Gauss-Legendre, Gauss-Lobatto, Radau, Crouzeix-Raviart, Kong-Mulder-Veldhuizen, quadrature elements) place their nodes at the points their definition states, each node lying in the entity it is attached to.",
["configurations","inputs"],"families x degrees x variants x entities x polynomial fields",
"Element tests check self-consistency (duality), which holds for any set of independent functionals; what the functionals mean is checked only at one or two degrees.",
["FIAT/lagrange.py","FIAT/hermite.py","FIAT/argyris.py","FIAT/bell.py","FIAT/morley.py","FIAT/raviart_thomas.py","FIAT/nedelec.py","FIAT/nedelec_second_kind.py","FIAT/brezzi_douglas_marini.py","FIAT/arnold_winther.py","FIAT/mardal_tai_winther.py","FIAT/regge.py","FIAT/hellan_herrmann_johnson.py","FIAT/gauss_legendre.py","FIAT/gauss_lobatto_legendre.py","FIAT/gauss_radau.py","FIAT/kong_mulder_veldhuizen.py"],
[("dual set of each family","*DualSet / *Dual classes")],
["dual_basis","entity_dofs"])

add("P18","Elements form the discrete de Rham complex and interpolation commutes",
"Gradients of continuous Lagrange functions of degree k lie in the first-kind Nedelec space of order k, curls of Nedelec functions lie in Raviart-Thomas functions of order k, and divergences of Raviart-Thomas functions fill the discontinuous polynomials of degree k-1 (likewise along the second-kind/BDM sequence with degree dropping, and for the tensor-product families built with the H(div) and H(curl) wrappers), and each kernel is exactly the image of the previous map. For moment-based degrees of freedom, interpolating any polynomial field and then taking the divergence (or curl) equals the L2-projection (or interpolation) of its divergence (or curl), and the published interpolation of a field of sufficiently low degree reproduces it.",
["configurations","inputs"],"degrees x cell dimension x variants x polynomial fields",
"No test relates two families to each other; a space that is subtly wrong but of the right dimension passes all tests.",
["FIAT/lagrange.py","FIAT/nedelec.py","FIAT/nedelec_second_kind.py","FIAT/raviart_thomas.py","FIAT/brezzi_douglas_marini.py","FIAT/discontinuous_lagrange.py"],
[("compatible primal spaces and moments","FIAT/nedelec.py, FIAT/raviart_thomas.py, FIAT/brezzi_douglas_marini.py")])

add("P19","Results do not depend on call history, batching or input containers",
"Constructing elements, cells and quadrature rules and tabulating, querying dofs or supports, in any order, interleaving and repetition, always gives the same results as a fresh object, and never modifies arguments, previously returned results' sources or other objects built from the same parts. The table for a list of points is the concatenation of the tables of its pieces in that order, whether points are given as tuples, lists or arrays.",
["histories","inputs"],"operation histories over sets of objects sharing cells and sub-elements; permutations and splittings of point sets",
"Unit tests call each function once on a fresh object; caches and shared mutable state only show under histories.",
["FIAT/finite_element.py","FIAT/serendipity.py","FIAT/tensor_product.py","FIAT/enriched.py","FIAT/hdivcurl.py","FIAT/restricted.py","FIAT/reference_element.py","FIAT/quadrature.py","FIAT/orthopoly.py","FIAT/expansions.py"],
[("pure tabulation, support cache","FIAT/finite_element.py tabulate, entity_support_dofs"),("wrapping by copy","FIAT/hdivcurl.py, FIAT/discontinuous.py")])

add("P20","Invalid requests are rejected with an error instead of a wrong result",
"Requests outside an element's, cell's or rule's documented domain - degree below the minimum or unsupported, a reference cell of wrong shape, unknown variant or scheme or restriction domain, too low a quadrature degree for a variant, wrong value shapes or mappings in combinations, nodal enrichment with dependent degrees of freedom, negative quadrature degree, nonexistent entity - raise an exception at construction or call time. No such request returns an object or table. Every valid neighbour of such a request is accepted.",
["inputs","configurations"],"invalid and boundary-valid parameter combinations of all public constructors",
"Tests check a handful of raises for one parameter each.",
["FIAT/check_format_variant.py","FIAT/quadrature_schemes.py","FIAT/quadrature.py","FIAT/reference_element.py","FIAT/restricted.py","FIAT/enriched.py","FIAT/nodal_enriched.py","FIAT/hdiv_trace.py","FIAT/crouzeix_raviart.py","FIAT/argyris.py","FIAT/kong_mulder_veldhuizen.py"],
[("argument validation","constructors of each element, create_quadrature, parse of variant strings")])

add("P21","Pointwise duals reproduce every function of the element's space",
"For an element and a set of as many points as basis functions on which it is unisolvent, the computed pointwise dual consists of one functional per basis function, each a combination of point values (of all components where needed) at those points only, and applying them to the element's basis gives the identity. Hence any function of the space is recovered from its values at these points; a wrong number of points is rejected (for vector- and tensor-valued spaces whose dimension is no multiple of the number of components: every number).",
["inputs","configurations"],"elements x unisolvent point sets x functions of the space",
"Tests use two scalar elements with their own lattice points.",
["FIAT/pointwise_dual.py"],
[("inverse of the point-value matrix","FIAT/pointwise_dual.py compute_pointwise_dual")])

add("P22","Scalar bases equal their classical closed forms on every reference geometry",
"Bernstein functions equal the multinomial formula in barycentric coordinates (non-negative on the cell, summing to one); Lagrange-type bases equal the classical interpolation polynomials through their nodes and sum to one; the Taylor element measures the integral over the cell and the derivatives at its barycentre (degree 0: the constant); quadrature elements return the identity at their own points. One-dimensional Lagrange bases evaluated by barycentric interpolation agree with the interpolation polynomials at every point of the cell, including nodes and points extremely close to a node. The same point-value or Bernstein element built on different reference geometries of one shape gives bases related by the affine map between those geometries.",
["configurations","inputs"],"scalar families x degrees x reference geometries x points (including nodes and near-node points)",
"Tests compare a few tabulated numbers at degree one or two.",
["FIAT/bernstein.py","FIAT/lagrange.py","FIAT/barycentric_interpolation.py","FIAT/discontinuous_taylor.py","FIAT/quadrature_element.py","FIAT/gauss_lobatto_legendre.py","FIAT/gauss_legendre.py","FIAT/gauss_radau.py","FIAT/discontinuous_lagrange.py","FIAT/P0.py","FIAT/bubble.py","FIAT/crouzeix_raviart.py"],
[("closed-form evaluation","FIAT/bernstein.py tabulate; FIAT/barycentric_interpolation.py"),("affine mapping to the base cell","FIAT/expansions.py")])

add("P23","Tabulation at symbolic points gives expressions for the tables",
"Tabulating an element at points whose coordinates are SymPy expressions - symbols, components of a deferred vector, or affine expressions of them, in all or some coordinates, alone or together with numeric points, on the cell or on a sub-entity - returns, for every requested derivative order, tables of the same keys and shapes as at numeric points, whose entries involve no other symbols and, once numbers are substituted for the symbols, equal the tables at those numeric points. (Elements evaluated by barycentric interpolation - Gauss-Legendre and Gauss-Lobatto-Legendre, and combinations containing them - and trace and quadrature elements are outside this statement.)",
["inputs","configurations"],"elements of moderate degree x sub-entities x symbolic points x values of the symbols",
"One test tabulates one family at symbols; form compilers rely on it for every element.",
["FIAT/expansions.py","FIAT/polynomial_set.py","FIAT/bernstein.py","FIAT/serendipity.py","FIAT/tensor_product.py","FIAT/hdivcurl.py","FIAT/enriched.py","FIAT/mixed.py","FIAT/reference_element.py","FIAT/jacobi.py"],
[("tables of the points' own number type","FIAT/expansions.py, FIAT/jacobi.py recurrences"),("tables assembled with the dtype of their parts","FIAT/hdivcurl.py, FIAT/enriched.py, FIAT/mixed.py, FIAT/bernstein.py")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
