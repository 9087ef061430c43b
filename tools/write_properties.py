#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property list is maintained here)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


p("C01", "Basis tabulation of wrapped elements is the true basis and its derivatives",
  "For every element family implemented on top of the FIAT library, the code returned for evaluating the basis at a set of points computes, for every derivative multi-index up to the requested order, exactly the corresponding derivative of every basis function of that element's mathematical basis. The set of keys, the shape of each table (basis shape followed by value shape) and its free indices (only those of the point set) are as documented.",
  ["inputs", "configurations"],
  "every family x cell x degree x variant up to the bound, every entity of the reference cell, every derivative order up to degree+1, every kind of point set (explicit, collocated quadrature points, symbolic points, empty-dimensional)",
  "Tests look at a handful of elements at one point; no test checks derivatives, the high-order-derivative shortcut, sub-entity tabulation, or the collocated-point shortcut.",
  ["finat/fiat_elements.py", "finat/spectral.py", "finat/finiteelementbase.py", "finat/nodal_enriched.py", "finat/trace.py"],
  "FiatElement.basis_evaluation translates a FIAT tabulation into GEM literals, dropping tables for derivatives >= degree and using deltas when points coincide with nodes",
  ["finat/fiat_elements.py", "finat/spectral.py"])

p("C02", "Composite elements evaluate to the composition of their parts",
  "The basis of a tensor product, flattened, enriched, mixed, vector/tensor-valued, H(div)/H(curl)-wrapped, discontinuous or restricted-from-composite element, and all its derivatives, equals the defining combination (product, union, block, outer product with the identity, fixed vector/rotation wrapping) of its factors' bases, on the cell interior and on every entity of the cell. Basis ordering and value ordering are those implied by the element's published shapes.",
  ["programs", "inputs"],
  "every element expression tree built from a leaf alphabet and all composition operators up to the depth bound, every entity, every derivative order up to 2, plain and tensor-structured point sets",
  "No test evaluates a composite at more than one point on at most one entity; derivatives and nested compositions are untested.",
  ["finat/tensor_product.py", "finat/cube.py", "finat/enriched.py", "finat/mixed.py", "finat/tensorfiniteelement.py", "finat/hdivcurl.py", "finat/discontinuous.py"],
  "Composite.basis_evaluation merges factor tables over split entities, split point sets and split derivative multi-indices",
  ["finat/tensor_product.py", "finat/cube.py", "finat/enriched.py"])

p("C03", "Run-time point evaluation agrees with tabulation",
  "Evaluating an element at symbolic coordinates supplied at run time gives, once the coordinates are known, the same values and derivatives as evaluating the element at those points known in advance, for every entity, and preserves the free indices carried by the coordinates.",
  ["programs", "inputs"],
  "all elements of the leaf and composite alphabets that support point evaluation, all entities, derivative orders 0..2, all placements of free indices of the coordinate expression",
  "The single test checks only the free indices of scalar Lagrange, not the value of anything.",
  ["finat/fiat_elements.py", "finat/tensor_product.py", "finat/cube.py", "finat/enriched.py", "finat/tensorfiniteelement.py", "finat/hdivcurl.py", "finat/sympy2gem.py", "finat/mixed.py"],
  "point_evaluation derives the basis symbolically through FIAT and sympy and translates it node by node to GEM",
  ["finat/fiat_elements.py", "finat/sympy2gem.py"])

p("C04", "Degrees of freedom partition over the cell's entities",
  "Every degree of freedom of every element is attached to exactly one entity of the element's cell, the numbering follows the flattened basis shape, and closures contain exactly the degrees of freedom of the entity and its sub-entities. For composite elements the attachment is the one implied by the parts.",
  ["programs"],
  "all element expression trees up to the bound, every entity of the cell",
  "Tests never look at entity maps of composite elements.",
  ["finat/finiteelementbase.py", "finat/tensor_product.py", "finat/cube.py", "finat/enriched.py", "finat/mixed.py", "finat/tensorfiniteelement.py", "finat/discontinuous.py", "finat/hdivcurl.py"],
  "entity_dofs / entity_closure_dofs / space_dimension / index_shape composition rules",
  ["finat/finiteelementbase.py"])

p("C05", "Reported support is exactly where basis functions do not vanish",
  "For every entity of the cell, the degrees of freedom reported as supported on that entity are exactly those whose basis function does not vanish identically there.",
  ["programs"],
  "all element expression trees up to the bound, every entity of the cell",
  "No test calls the support computation; boundary conditions rely on it for every element.",
  ["finat/finiteelementbase.py", "finat/cube.py", "finat/tensorfiniteelement.py", "finat/quadrature.py"],
  "entity_support_dofs integrates the squared basis over each entity and thresholds",
  ["finat/finiteelementbase.py"])

p("C06", "Entity permutations describe the action of reorienting an entity",
  "For every entity and every orientation of it, the reported permutation is a permutation of that entity's degrees of freedom, the permutations form a homomorphic image of the entity's symmetry group, and applying it to the degrees of freedom of an entity equals re-mapping the entity by that orientation.",
  ["programs", "configurations"],
  "all element expression trees providing permutations, every entity, every orientation (including extrinsic swaps of tensor-product entities)",
  "No test touches permutations.",
  ["finat/tensor_product.py", "finat/cube.py", "finat/enriched.py", "finat/fiat_elements.py", "finat/mixed.py", "finat/tensorfiniteelement.py"],
  "entity_permutations composition over tensor-product orientations and direct sums",
  ["finat/tensor_product.py", "finat/enriched.py"])

p("C07", "Dual evaluation is dual to the basis",
  "Applying an element's dual basis to a function returns the element's nodal functionals of that function; in particular applied to each of the element's own basis functions it returns the Kronecker delta in the element's basis ordering, so interpolation is the identity on the element's space.",
  ["programs", "inputs"],
  "all elements (leaf and composite) that offer a dual basis, every basis function, plus polynomial functions up to the bound",
  "No unit test evaluates a dual basis.",
  ["finat/fiat_elements.py", "finat/finiteelementbase.py", "finat/tensor_product.py", "finat/cube.py", "finat/tensorfiniteelement.py", "finat/enriched.py", "finat/hdivcurl.py", "finat/quadrature_element.py", "finat/discontinuous.py"],
  "dual_basis builds a weight tensor and a point set; dual_evaluation contracts it with the evaluated function",
  ["finat/finiteelementbase.py", "finat/tensorfiniteelement.py"])

p("C08", "Quadrature rules integrate polynomials exactly up to the requested degree",
  "A quadrature rule made for a cell and degree integrates every polynomial of that (per-direction, when a tuple is given) degree over the reference cell exactly, with its weights matched to its points, whatever the cell is or how products of cells are nested.",
  ["inputs", "configurations"],
  "every cell (simplices, quadrilateral, hexahedron, products of them, nested products), every degree and degree tuple up to the bound, every scheme, every monomial up to the degree",
  "No test checks any integral.",
  ["finat/quadrature.py", "finat/point_set.py"],
  "make_quadrature dispatches on the cell, builds tensor-product rules and pairs weights with point indices",
  ["finat/quadrature.py"])

p("C09", "Point sets agree with themselves",
  "A point set's explicit coordinates, its symbolic expression with its free indices, and its dimension describe the same points in the same order, for products of point sets and single-point and empty-dimensional sets too, and approximate equality is symmetric and holds exactly between sets of the same kind and structure whose coordinates agree pointwise within the given tolerance.",
  ["inputs"],
  "all point sets up to 3 factors of up to 3 dimensions and 3 points over a small coordinate alphabet, all pairs for equality",
  "Point sets are only used indirectly at one point.",
  ["finat/point_set.py"],
  "points / indices / expression / almost_equal of each point set class",
  ["finat/point_set.py"])

p("C10", "A restricted element is the sub-basis attached to the chosen entities",
  "Restricting an element to the interior or to facets, faces, edges or vertices keeps exactly the basis functions attached to that part (for lower-dimensional domains, to the entities in its closure), in order, with matching entity attachment, values and duals; a restriction that leaves nothing, or that is not supported, is reported by an exception rather than by a bogus element.",
  ["programs"],
  "all element expression trees supporting restriction x all restriction domains x nested restrictions, all entities",
  "Tests check four flavours on a handful of elements, values at a single interior point; mixed, tensor-valued, enriched and wrapped elements and nested restrictions are untested.",
  ["finat/restricted.py", "finat/mixed.py", "finat/enriched.py", "finat/tensor_product.py"],
  "restrict single-dispatch over element classes with r_to_codim / codim sentinel factor combinations",
  ["finat/restricted.py"])

p("C11", "Physically mapped elements produce the physical nodal basis on every cell",
  "For every element whose basis is not preserved by the pullback, the basis returned for a given cell geometry is, after the element's pullback, the nodal basis of the same element defined directly on the physical cell (up to the documented scaling of derivative degrees of freedom by the vertex cell sizes).",
  ["inputs", "configurations"],
  "every physically mapped family, degree and variant; every non-degenerate affine cell with vertices on a small lattice up to translation, both orientations; every assignment of per-vertex cell sizes from a small alphabet",
  "Tests use one fixed triangle and tetrahedron, one orientation, unit cell sizes; orientation signs, skewed edges and cell-size dependence are not reached.",
  ["finat/physically_mapped.py", "finat/piola_mapped.py", "finat/argyris.py", "finat/bell.py", "finat/hermite.py", "finat/morley.py", "finat/hct.py", "finat/powell_sabin.py", "finat/aw.py", "finat/hz.py", "finat/mtw.py", "finat/johnson_mercier.py", "finat/alfeld_sorokina.py", "finat/arnold_qin.py", "finat/bernardi_raugel.py", "finat/christiansen_hu.py", "finat/guzman_neilan.py"],
  "basis_transformation builds the matrix relating reference and physical nodal bases from geometric callbacks",
  ["finat/physically_mapped.py"])

p("C12", "Neighbouring cells glue: assembled functions have the element's continuity",
  "When two cells of a mesh share an edge or face and degrees of freedom on shared entities are identified, the assembled function has the continuity the element promises (value and gradient continuity for C1 elements, normal components for H(div) and symmetric-stress elements, moments for nonconforming ones), for every pair of cell shapes, every vertex numbering of the mesh and every choice of vertex cell sizes.",
  ["configurations", "inputs"],
  "every two-cell patch with vertices on a small lattice x every ordering of global vertex numbers x per-vertex cell sizes from a small alphabet, for every element family",
  "No test considers more than one cell.",
  ["finat/physically_mapped.py", "finat/piola_mapped.py", "finat/argyris.py", "finat/bell.py", "finat/hct.py", "finat/morley.py", "finat/hermite.py", "finat/powell_sabin.py", "finat/aw.py", "finat/hz.py", "finat/mtw.py", "finat/johnson_mercier.py", "finat/direct_serendipity.py", "finat/fiat_elements.py", "finat/tensor_product.py", "finat/hdivcurl.py"],
  "per-cell basis transformation with globally consistent orientation of shared edges/faces",
  ["finat/physically_mapped.py", "finat/argyris.py"])

p("C13", "Element matrices of physically mapped elements are scale invariant",
  "If a mesh and its vertex cell sizes are scaled together, the values of the mapped basis functions at corresponding points are unchanged (scalar elements) or scale with the fixed power fixed by the pullback, so conditioning does not depend on the mesh size.",
  ["inputs", "configurations"],
  "every physically mapped scalar family x cells on a lattice x scale factors from a small alphabet, non-uniform vertex sizes",
  "Tests look at the mass diagonal on a uniformly scaled reference triangle only.",
  ["finat/physically_mapped.py", "finat/argyris.py", "finat/bell.py", "finat/hct.py", "finat/hermite.py", "finat/morley.py", "finat/powell_sabin.py"],
  "basis_transformation rescales columns of derivative degrees of freedom by powers of the cell size",
  ["finat/argyris.py", "finat/hermite.py"])

p("C14", "Direct serendipity: nodal, complete and conforming on every convex quad",
  "On every convex quadrilateral the direct serendipity element of degree r spans a space of full dimension containing all polynomials of degree r in physical coordinates, its functions are nodal at its published degrees of freedom, its restriction to an edge depends only on the degrees of freedom of that edge's closure, and reported derivatives are the derivatives of the reported values.",
  ["inputs", "configurations"],
  "every strictly convex quadrilateral with vertices on a small lattice (including parallelograms and trapezoids with parallel sides), degrees 1..5 (6 thorough), all entities, derivative orders up to 2 (3)",
  "The test checks nodality on one quadrilateral.",
  ["finat/direct_serendipity.py"],
  "symbolic construction of the basis from the physical vertices",
  ["finat/direct_serendipity.py"])

p("C15", "Element descriptions are values: equality, hash, repr and pickling agree",
  "Two element descriptions compare equal exactly when they describe the same element, equal descriptions hash equally (also across processes), evaluating the printed form or un-pickling gives back an equal description, and reconstructing with the same parameters is the identity while changing a parameter changes only what was asked.",
  ["programs"],
  "every pair of element description trees built from the leaf alphabet and all description combinators up to the depth bound; all reconstruct parameters",
  "Four tests look at hash consistency of a few elements; equality/representation clashes across combinators are untested.",
  ["finat/ufl/finiteelementbase.py", "finat/ufl/finiteelement.py", "finat/ufl/mixedelement.py", "finat/ufl/tensorproductelement.py", "finat/ufl/enrichedelement.py", "finat/ufl/restrictedelement.py", "finat/ufl/brokenelement.py", "finat/ufl/hdivcurl.py", "finat/ufl/elementlist.py"],
  "__repr__ is the identity on which __eq__ and __hash__ are built; reconstruct methods",
  ["finat/ufl"])

p("C16", "Element descriptions' metadata match the elements they denote",
  "The value shape, degree bounds, Sobolev space, pullback and canonical family reported by an element description are right for the element it denotes: aliases and exterior-calculus names denote the same element as their long names, the space is the weakest/strongest consistent with the parts, and the embedded superdegree is the degree of the smallest complete polynomial space containing the one actually implemented.",
  ["programs", "inputs"],
  "all registered families x cells x degrees x variants, all aliases and exterior-calculus names, all combinators to the depth bound",
  "No test covers aliases, tensor-product cells or the degree bounds.",
  ["finat/ufl/elementlist.py", "finat/ufl/finiteelement.py", "finat/ufl/finiteelementbase.py", "finat/ufl/tensorproductelement.py", "finat/ufl/enrichedelement.py", "finat/ufl/hdivcurl.py", "finat/ufl/restrictedelement.py", "finat/ufl/brokenelement.py", "finat/ufl/mixedelement.py"],
  "canonical_element_description, FiniteElement.__new__, Sobolev space combination and embedded degree rules",
  ["finat/ufl"])

p("C17", "Mixed and tensor descriptions decompose consistently into components",
  "The reference components of a mixed, vector or tensor element are those of its sub-elements in order; looking up a component finds the sub-element that owns it; and declared symmetries identify exactly the components they name, leaving as many independent components as sub-elements.",
  ["programs", "inputs"],
  "all vector/tensor/mixed descriptions over the leaf alphabet to the nesting bound, all shapes up to 3x3(x2), all symmetry maps from the alphabet, every component index",
  "No test constructs a symmetric tensor element or looks up a component.",
  ["finat/ufl/mixedelement.py", "finat/ufl/finiteelementbase.py"],
  "sub-element mapping, symmetry flattening, pullbacks, component extraction",
  ["finat/ufl/mixedelement.py"])

p("C18", "Element objects are immutable: answers never depend on call history",
  "Every query on an element object returns what a freshly built element would return, regardless of which queries on this element or on elements sharing its parts were made before, and results already handed out, as well as the arguments passed in, are never changed by later calls.",
  ["histories"],
  "all sequences of public queries up to the depth bound on elements and on pairs of elements sharing sub-objects",
  "Tests perform one query per element; caching and aliasing across calls is never exercised.",
  ["finat/fiat_elements.py", "finat/enriched.py", "finat/tensor_product.py", "finat/cube.py", "finat/tensorfiniteelement.py", "finat/physically_mapped.py", "finat/quadrature.py", "finat/point_set.py", "finat/restricted.py", "finat/quadrature_element.py", "finat/finiteelementbase.py", "finat/ufl/finiteelementbase.py", "finat/ufl/mixedelement.py"],
  "cached properties and shared dictionaries/arrays returned by reference",
  ["finat"])

p("C19", "Symbolic translation to tensor code preserves value",
  "Translating a symbolic scalar expression into tensor code preserves its value at every assignment of its symbols, for every supported node type, and unsupported nodes are rejected rather than mistranslated.",
  ["programs", "inputs"],
  "all expression trees up to the depth bound over the supported node alphabet in both symbolic back ends, all assignments from a small alphabet, bound symbols shared or renamed",
  "No test calls the translator directly.",
  ["finat/sympy2gem.py"],
  "sympy2gem single-dispatch over symbolic node types with memoisation",
  ["finat/sympy2gem.py"])

p("C20", "Quadrature elements are deltas at their own points and refuse anything else",
  "A quadrature element has one basis function per quadrature point which is one at that point and zero at the others; it refuses to be evaluated at other points, differentiated, or evaluated on a sub-entity, its dual returns point values, and the published points and weights are those of the rule.",
  ["inputs", "configurations"],
  "all cells x degrees x schemes, all candidate point sets from the alphabet (same, permuted, other degree, other cell), all entities and derivative orders up to 2",
  "Quadrature elements are untested.",
  ["finat/quadrature_element.py", "finat/quadrature.py", "finat/point_set.py"],
  "basis_evaluation returns a product of deltas between basis and point indices after comparing point sets",
  ["finat/quadrature_element.py"])

p("C21", "Run-time tabulated tables are named injectively and shaped correctly",
  "A run-time tabulated element asks for one table per combination of element parameters, side and derivative order, under a name no other combination asks for, of shape points by basis functions; its values, alone or as a factor of a product, are read from its own tables; and unsupported configurations are refused.",
  ["configurations", "inputs"],
  "all combinations of degree, variant, axis shift, side, continuity and derivative order from the alphabet, pairwise; all point-set kinds; all products of two and three factors",
  "Run-time tabulated elements are untested.",
  ["finat/runtime_tabulated.py"],
  "the name of the table variable encodes element, derivative, side and point indices",
  ["finat/runtime_tabulated.py"])

p("C22", "The FIAT twin of an element is the same element",
  "Wherever the FIAT library can compose the parts of a (not physically mapped) element, the element offers an equivalent FIAT element (mixed elements of a single part excepted); and whenever one is offered, both have the same cell, dimension, value shape and mapping, the same attachment of degrees of freedom to entities, the same points and weights for quadrature elements, and tabulate to the same values.",
  ["programs", "inputs"],
  "all element expression trees up to the bound that offer a twin, every entity, derivative orders 0..1",
  "Nothing compares the two.",
  ["finat/fiat_elements.py", "finat/tensor_product.py", "finat/cube.py", "finat/enriched.py", "finat/hdivcurl.py", "finat/mixed.py", "finat/discontinuous.py", "finat/tensorfiniteelement.py", "finat/quadrature_element.py", "finat/restricted.py"],
  "fiat_equivalent construction per class",
  ["finat"])

p("C23", "Generated code and descriptions are deterministic across processes",
  "Building the same element and asking the same queries in different processes yields identical observable answers and structurally identical generated expressions, whatever the iteration order of unordered collections, so that code caches and parallel processes agree.",
  ["configurations", "programs"],
  "every element of the alphabet x every query x every controlled iteration order of sets and hash seeds from the bound",
  "Tests run in one process with one hash seed; nothing compares processes.",
  ["finat/enriched.py", "finat/tensor_product.py", "finat/restricted.py", "finat/ufl/mixedelement.py", "finat/ufl/enrichedelement.py", "finat/ufl/tensorproductelement.py", "finat/sympy2gem.py"],
  "iteration over sets and dictionaries keyed by unordered collections while building expressions",
  ["finat"])

p("C24", "Ill-formed elements and requests are refused, well-formed ones are not",
  "An element description, element, quadrature rule, point set, restriction, component look-up or evaluation request that has no meaning (parts on different cells or with different value shapes added together, indices outside the value, symmetries that name no component, points or weights of the wrong shape, degrees without a rule, products that are not H(div)/H(curl), physically mapped elements without geometry, functions of another shape than the value, ...) raises an error and never yields an answer, and every request that is meaningful is answered with the shape it implies.",
  ["inputs", "programs"],
  "every constructor and query x every combination of arguments from the alphabets, well-formed and just outside the boundary",
  "Tests put a few wrong requests; between what is accepted and what is refused lies a boundary in many arguments, and a request that slips through silently produces a wrong discretisation.",
  ["finat/ufl/mixedelement.py", "finat/ufl/enrichedelement.py", "finat/ufl/tensorproductelement.py", "finat/ufl/hdivcurl.py", "finat/ufl/elementlist.py", "finat/enriched.py", "finat/mixed.py", "finat/tensor_product.py", "finat/hdivcurl.py", "finat/quadrature.py", "finat/point_set.py", "finat/quadrature_element.py", "finat/physically_mapped.py", "finat/finiteelementbase.py", "finat/restricted.py"],
  "argument validation in constructors and queries of elements, descriptions, point sets and quadrature rules",
  ["finat"])
p("C25", "The reported degree and cell complex describe the space of functions",
  "On every cell of the complex an element reports, all its basis functions are polynomials of the degree it reports (per direction in products, the largest of the parts in unions, the largest direction when flattened), so that the rule made for that complex at twice that degree integrates every product of two basis functions exactly; composites report the degree and subdivision of their parts, and elements that are not polynomial spaces refuse to name a degree.",
  ["inputs", "programs"],
  "every element and composite of the alphabet, macroelements and physically mapped elements in every position included x every cell of the reported complex x every basis function and component x every entry of the Gram matrix",
  "Tests compare the degree of a few elements with a number; nobody checks that the space lies inside what is reported, which decides the quadrature used for every integral.",
  ["finat/fiat_elements.py", "finat/enriched.py", "finat/tensor_product.py", "finat/cube.py", "finat/hdivcurl.py", "finat/mixed.py", "finat/tensorfiniteelement.py", "finat/discontinuous.py", "finat/direct_serendipity.py", "finat/runtime_tabulated.py", "finat/quadrature_element.py", "finat/quadrature.py"],
  "composition of degree and complex through the element tree",
  ["finat"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P))
