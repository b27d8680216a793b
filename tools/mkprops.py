import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("P01","Degree-of-freedom numbering is a partition on every element",
 "For every element, simple or composite, the map from the cell's sub-entities to degree-of-freedom numbers has exactly the cell's entities as keys and assigns every number from 0 to the space dimension minus one to exactly one entity; the space dimension equals the number of basis functions tabulated. Composite elements number their degrees of freedom as documented: consecutive blocks in element order for enriched and mixed elements, last-factor-fastest lexicographic order for tensor products (also after the tensor-product cell is flattened), and component-fastest (or component-slowest when transposed) for vector- and tensor-valued elements.",
 ["inputs","configurations"],"all cells, families, degrees, variants, numbers of sub-elements, tensor shapes and nesting of composites",
 "The tests build a handful of restricted and zany elements on one cell each; the numbering of composites is never compared with the block/lexicographic rule, and no test can cover all sub-element counts, shapes and dimensions.",
 ["finat/enriched.py","finat/tensor_product.py","finat/tensorfiniteelement.py","finat/cube.py","finat/discontinuous.py","finat/mixed.py","finat/fiat_elements.py","finat/quadrature_element.py"],
 [("block concatenation of DoF dicts","finat/enriched.py concatenate_entity_dofs"),("tensor product of DoF dicts","finat/tensor_product.py productise"),("component expansion","finat/tensorfiniteelement.py _entity_dofs"),("entity flattening","finat/cube.py _entity_dofs")])
p("P02","Tensor-product elements tabulate products of their factors",
 "Evaluating a tensor-product element at any points, on the cell or on any of its sub-entities and for any derivative order, gives for every derivative multi-index the product over the factors of each factor's corresponding derivative, evaluated at that factor's own coordinates on that factor's own sub-entity, with basis indices in factor order followed by value indices. This holds equally for point sets that are already factored, for unfactored point sets, for single points, for run-time coordinate expressions, and on flattened quadrilaterals and hexahedra, and the dual basis of the product is the product of the factors' dual bases.",
 ["inputs","configurations"],"all factor lists, factor cells, sub-entities, point sets and derivative orders",
 "Tests tabulate tensor products only inside one or two mass-matrix conditioning runs; sub-entity decoding, mixed derivatives and unfactored or singleton point sets are untested.",
 ["finat/tensor_product.py","finat/cube.py","finat/point_set.py"],
 [("merging factor tables","finat/tensor_product.py _merge_evaluations"),("entity decoding","finat/tensor_product.py _factor_entity"),("splitting point sets","finat/tensor_product.py factor_point_set"),("flattened product cells","finat/cube.py _unflatten_entity, basis_evaluation, point_evaluation")])
p("P03","Vector and tensor elements are the base element times the identity",
 "For a vector- or tensor-valued element built from a base element and a shape, the basis function with base index i and component index a has value component b equal to the base function i when a equals b and zero otherwise, for values and every derivative, with the documented ordering of basis and value indices in both layouts. Its dual basis is the base dual basis times the same identity, and dual evaluation of any function returns, for every basis index in the element's own index order, the base dual evaluation of the matching component.",
 ["inputs","configurations"],"all base elements, shapes of any rank, both orderings, all points, orders and functions",
 "No test builds a tensor-valued element and evaluates its dual; both index orders, rank-2 shapes and non-scalar base elements are untested.",
 ["finat/tensorfiniteelement.py"],
 [("tabulation","finat/tensorfiniteelement.py _tensorise"),("dual basis and evaluation","finat/tensorfiniteelement.py dual_basis, dual_evaluation"),("index layout","finat/tensorfiniteelement.py index_shape, value_shape")])
p("P04","Enriched and mixed elements concatenate their sub-elements exactly",
 "The basis functions of an enriched element are those of its sub-elements, flattened and concatenated in order, for values and all derivatives at any points and on any sub-entity. A mixed element places each sub-element's flattened value in its own consecutive block of the combined value vector, in order, and is zero in all other blocks; nesting enriched elements is associative and a one-element enrichment is that element.",
 ["inputs","configurations"],"all numbers, kinds and shapes of sub-elements, all points, entities and derivative orders",
 "Tests never tabulate a mixed element and enriched elements appear only in a few mass matrices.",
 ["finat/enriched.py","finat/mixed.py","finat/nodal_enriched.py"],
 [("concatenation of tables","finat/enriched.py _compose_evaluations"),("block placement","finat/mixed.py MixedElement, MixedSubElement._transform")])
p("P05","H(div) and H(curl) product elements embed factor values consistently",
 "The H(div) or H(curl) version of a tensor-product element maps each factor-product value to a physical-dimension vector by a fixed signed coordinate embedding that matches the globally consistent orientation of the reference cell (normals: leftward, upward and through the top; tangentials: rightward and upward; quarter-turn rotation when the base mapping is of the other Piola kind). The same embedding is applied to values, all derivatives and the dual basis, degrees of freedom and numbering are those of the wrapped element, and a product whose form degree does not fit is rejected with an error.",
 ["inputs","configurations"],"all admissible factor elements on interval, quadrilateral and prism-like products, all points and orders",
 "No test builds an H(div) or H(curl) product element through the tabulation or dual path.",
 ["finat/hdivcurl.py"],
 [("selection of the embedding","finat/hdivcurl.py select_hdiv_transformer, select_hcurl_transformer"),("application","finat/hdivcurl.py WrapperElementBase._transform_evaluation, dual_basis"),("admissibility","finat/hdivcurl.py HDivElement, HCurlElement")])
p("P06","Tabulation re-expresses the reference element exactly",
 "For every simple element the symbolic tabulation returned for a point set, evaluated, equals the reference basis functions and their derivatives at those points on that sub-entity, with every derivative multi-index up to the requested order present and basis indices before value indices. Shortcuts (constant or zero derivative tables, Kronecker deltas when the points are the nodes) and evaluation at symbolic run-time coordinates give the same values as plain tabulation.",
 ["inputs","configurations"],"all simple families, degrees, cells, sub-entities, derivative orders and point sets",
 "One test compares run-time and point-set tabulation for a few Ciarlet elements; derivative shortcuts, sub-entities, vector-valued elements and nodal shortcuts are untested.",
 ["finat/fiat_elements.py","finat/spectral.py","finat/quadrature_element.py","finat/discontinuous.py","finat/trace.py"],
 [("table re-expression","finat/fiat_elements.py FiatElement.basis_evaluation"),("run-time coordinates","finat/fiat_elements.py point_evaluation, point_evaluation_ciarlet, point_evaluation_generic"),("nodal shortcut","finat/spectral.py GaussLobattoLegendre, GaussLegendre")])
p("P07","Physically mapped elements recover the physical nodal basis on any cell",
 "For every element whose basis is not preserved by pullback (Hermite, Morley, Bell, Argyris, HCT, Powell-Sabin, Mardal-Tai-Winther, Arnold-Winther, Hu-Zhang, Johnson-Mercier, Alfeld-Sorokina, Bernardi-Raugel-type bubbles and relatives), applying the element's basis transformation to the mapped reference basis gives the basis dual to the element's physical degrees of freedom, exactly, on every non-degenerate affine cell. Normal moments that are not averaged are integrals over the edge, averaged ones are divided by its length.",
 ["inputs"],"all non-degenerate affine maps (including orientation-reversing ones), all physical element families and supported degrees",
 "The test uses one fixed physical cell per dimension and unit cell size with the averaging option on; correctness for all Jacobians, the non-averaged option and other degrees is not settled.",
 ["finat/argyris.py","finat/bell.py","finat/hct.py","finat/powell_sabin.py","finat/hermite.py","finat/morley.py","finat/mtw.py","finat/aw.py","finat/hz.py","finat/johnson_mercier.py","finat/alfeld_sorokina.py","finat/piola_mapped.py","finat/physically_mapped.py","finat/bernardi_raugel.py","finat/christiansen_hu.py","finat/guzman_neilan.py","finat/arnold_qin.py"],
 [("basis transformation per family","finat/*.py basis_transformation"),("contraction with the reference table","finat/physically_mapped.py PhysicallyMappedElement"),("matrix helpers","finat/physically_mapped.py determinant, adjugate"),("Piola facet helpers","finat/piola_mapped.py normal_tangential_edge_transform, normal_tangential_face_transform, piola_inverse")])
p("P08","Cell-size scaling of derivative degrees of freedom is local and consistent",
 "When local mesh sizes at the vertices are supplied, each physically mapped basis function is the unscaled one multiplied by a fixed power of the mesh sizes at the vertices of the entity its degree of freedom lives on: zero power for point values, integral moments and averaged edge moments, minus one per derivative order at a vertex, minus two for vertex values of stresses, and minus one in the mean size of the end points for edge derivatives that are not averaged. Supplying unit sizes changes nothing, and the same scaling applies on every cell sharing the entity, whatever the sizes at the other vertices.",
 ["inputs"],"all positive vertex sizes (not only uniform ones), all affine cells and all families with derivative degrees of freedom",
 "The conditioning test uses one uniform mesh size, so taking the size from the wrong vertex or averaging wrongly is invisible.",
 ["finat/argyris.py","finat/bell.py","finat/hct.py","finat/powell_sabin.py","finat/hermite.py","finat/morley.py","finat/aw.py","finat/mtw.py","finat/piola_mapped.py","finat/alfeld_sorokina.py"],
 [("scaling of transformation columns","finat/argyris.py, bell.py, hct.py, hermite.py, morley.py, powell_sabin.py basis_transformation"),("per-vertex sizes","finat/physically_mapped.py PhysicalGeometry.cell_size")])
p("P09","Dual evaluation reproduces the element's degrees of freedom",
 "For every element that offers a dual basis, contracting the dual weights with any function's values at the dual points gives exactly the element's degree-of-freedom functionals of that function; in particular applying it to the element's own basis functions gives the identity. This holds for scalar and vector-valued, tensor-product, tensor-valued, wrapped and quadrature elements, for every combination of sparse and dense weights.",
 ["inputs","configurations"],"all elements with a point-evaluation dual basis and all functions",
 "No test evaluates a dual basis.",
 ["finat/finiteelementbase.py","finat/fiat_elements.py","finat/tensor_product.py","finat/tensorfiniteelement.py","finat/cube.py","finat/discontinuous.py","finat/hdivcurl.py","finat/quadrature_element.py","finat/physically_mapped.py"],
 [("dual weights from functionals","finat/fiat_elements.py FiatElement._dual_basis, dual_basis"),("contraction","finat/finiteelementbase.py dual_evaluation")])
p("P10","Quadrature rules are exact to the requested degree",
 "A quadrature rule requested for a cell and polynomial degree (a single number, or one per factor on product cells) has weights summing to the cell's volume and integrates exactly every polynomial of that degree (per factor on product cells), with the points inside the closed cell and the weights paired with the points in order. Tensor-product rules are the product of their factor rules in factor order, and negative degrees are rejected.",
 ["inputs","configurations"],"all cells, sub-cells, macro cells, product cells, degrees and schemes",
 "Tests use quadrature as a tool on a few cells and degrees; exactness, point/weight pairing on product cells and degree handling are not asserted.",
 ["finat/quadrature.py","finat/point_set.py"],
 [("rule construction","finat/quadrature.py make_quadrature"),("tensor rules","finat/quadrature.py TensorProductQuadratureRule"),("weights","finat/quadrature.py weight_expression")])
p("P11","Point sets present the same points in every view",
 "For every kind of point set, the array of points, the declared indices and extents, and the symbolic point expression describe the same points in the same order; a tensor point set is the lexicographic product of its factors with the last factor fastest. Approximate equality of point sets, where offered, is reflexive and symmetric, holds only for sets with the same structure and points, and unknown (run-time) points are never mixed up with other axes or columns.",
 ["inputs","configurations"],"all point arrays, dimensions, factor counts and families of point sets",
 "Point sets are only ever used indirectly with one layout at a time; no test compares the views or exercises nested and singleton sets.",
 ["finat/point_set.py"],
 [("views of a point set","finat/point_set.py PointSingleton, UnknownPointSet, PointSet, GaussLegendrePointSet, GaussLobattoLegendrePointSet, TensorPointSet"),("comparison","finat/point_set.py almost_equal")])
p("P12","Restriction keeps exactly the basis functions of the chosen domain",
 "Restricting an element to the interior, or to the facets, faces, edges or vertices with everything in their closure, keeps exactly the basis functions whose degrees of freedom live on that part of the cell, numbered consecutively and attached to the entities they were attached to, and tabulates exactly those functions; a simple element keeps their original order. This holds for simple, tensor-product, flattened, enriched, mixed, vector-valued, discontinuous and H(div)/H(curl) elements, the interior and facet restrictions together recover the whole element, and an empty restriction or an unsupported element is reported as an error.",
 ["inputs","configurations"],"all elements, restriction domains and nesting of composites",
 "The tests check a few elements of one structure each and compare only the tabulated values after a flattening chosen by the test.",
 ["finat/restricted.py","finat/cube.py"],
 [("dispatch by element kind","finat/restricted.py restrict"),("tensor-product domains","finat/restricted.py restrict_tpe, r_to_codim, codim_to_r")])
p("P13","Translating symbolic expressions preserves their value",
 "Translating any supported symbolic algebra expression (sums, products, powers, integers, rationals and decimals, equality and order relations, and, or, not, piecewise choices and variables) into the code-generation language gives an expression with the same value for every assignment of the variables, for both symbolic back ends; unsupported constructs are rejected rather than mistranslated.",
 ["inputs","programs"],"all expression trees over the supported operators, all variable assignments",
 "The translation is exercised only through the polynomials of a few elements; operator order, nested powers, relations and piecewise branches are not sampled.",
 ["finat/sympy2gem.py"],
 [("node-by-node translation","finat/sympy2gem.py sympy2gem")])
p("P14","Direct serendipity functions are nodal on every convex quadrilateral",
 "On every convex non-degenerate quadrilateral and for every degree, the direct serendipity basis functions take the value one at their own node and zero at all other nodes of the element, span all polynomials of that degree on the physical cell, and are numbered vertices first, then edges in order, then the interior, consistently with the element's DoF map.",
 ["inputs"],"all convex quadrilaterals (all vertex coordinates) and all degrees",
 "The test checks degrees one to four on a single fixed quadrilateral.",
 ["finat/direct_serendipity.py"],
 [("lowest-order functions","finat/direct_serendipity.py ds1_sym"),("higher-order functions","finat/direct_serendipity.py dsr_sym"),("interpolation","finat/direct_serendipity.py newton_dd, newton_poly"),("numbering","finat/direct_serendipity.py entity_dofs")])
p("P15","Form-language elements have sound identity, hashing and reconstruction",
 "Two form-language elements compare equal exactly when they describe the same finite element (same structure, family, cell, degree, quadrature scheme, variant, mapping, shape and symmetry), equal elements have equal hashes and representations, and ordering is consistent with representation. Evaluating or pickling an element's representation, or reconstructing it without changes, gives an equal element; reconstructing with changes alters exactly what was asked for, at every level of nesting.",
 ["inputs","configurations"],"all form-language elements, simple and composite, and all combinations of constructor arguments",
 "One test hashes a few elements in a subprocess; equality across differing attributes and reconstruction of nested elements is untested.",
 ["finat/ufl/finiteelementbase.py","finat/ufl/finiteelement.py","finat/ufl/mixedelement.py","finat/ufl/enrichedelement.py","finat/ufl/tensorproductelement.py","finat/ufl/hdivcurl.py","finat/ufl/brokenelement.py","finat/ufl/restrictedelement.py"],
 [("identity by representation","finat/ufl/finiteelementbase.py __eq__, __hash__, __lt__"),("representation and reconstruction","finat/ufl/*.py __init__, __repr__, reconstruct")])
p("P16","Mixed and tensor form-language elements resolve components correctly",
 "For mixed, vector and tensor form-language elements, every value component, flattened or not and on the reference cell or the physical one, resolves to the sub-element and sub-component whose position it occupies, sub-element counts, value shapes and reference value sizes agree with one another, and with a symmetry declared, symmetric components share one degree of freedom and all components of the physical value are recovered from the reduced reference value, whatever the direction in which the symmetry is declared.",
 ["inputs","configurations"],"all lists of sub-elements, shapes, symmetries and components (mixed or symmetric elements are not nested inside vector or tensor elements)",
 "No test touches component extraction or symmetry of form-language elements.",
 ["finat/ufl/mixedelement.py","finat/ufl/finiteelementbase.py"],
 [("component bookkeeping","finat/ufl/mixedelement.py extract_subelement_component, extract_subelement_reference_component"),("symmetry","finat/ufl/mixedelement.py TensorElement.__init__, symmetry, pullback, flattened_sub_element_mapping")])
p("P17","Family names and aliases resolve to one well-defined element",
 "Every family name, short name, alias and finite-element-exterior-calculus spelling resolves to the same canonical family, cell, degree, value rank, Sobolev space and mapping as documented, for every cell and degree for which it is defined; a name, cell, degree or form degree outside the declared range is rejected. Canonical names are fixed points of the resolution and the periodic-table and form-degree spellings agree with the direct ones.",
 ["inputs","configurations"],"all registered names and aliases, all cells, all degrees (unbounded), all form degrees and variants",
 "Tests use a few names; the table of aliases, ranges and cell-dependent forms is never enumerated.",
 ["finat/ufl/elementlist.py","finat/ufl/finiteelement.py"],
 [("resolution","finat/ufl/elementlist.py canonical_element_description, feec_element, feec_element_l2"),("registry","finat/ufl/elementlist.py register_element, register_alias")])
p("P18","Composite form-language elements report consistent metadata",
 "The degree, embedded sub- and super-degree, variant, Sobolev space, pull-back, value shape and sub-elements reported by tensor-product, enriched, restricted, broken, H(div)/H(curl), remapped and mixed form-language elements follow from those of their parts: degrees combine by maximum, factor by factor or by sum, embedded sub-degree never exceeds embedded super-degree, enriched and mixed elements report the smallest Sobolev space that contains those of all parts (direction by direction on product cells), and interior-restricted, broken and remapped elements report L2. Whenever the parts' own answers are defined, asking does not fail and does not depend on the order in which the parts are listed.",
 ["inputs","configurations"],"all composite form-language elements over all sub-elements",
 "Only one or two composite elements are ever constructed in tests and their metadata is not examined.",
 ["finat/ufl/tensorproductelement.py","finat/ufl/enrichedelement.py","finat/ufl/restrictedelement.py","finat/ufl/brokenelement.py","finat/ufl/hdivcurl.py","finat/ufl/mixedelement.py","finat/ufl/finiteelementbase.py"],
 [("degrees","finat/ufl/*.py embedded_subdegree, embedded_superdegree, degree"),("Sobolev space and pullback","finat/ufl/*.py sobolev_space, mapping, pullback")])
p("P19","Entity permutations are valid and consistent with the numbering",
 "For every element that offers entity permutations, each entity and each orientation gives a permutation of exactly the degrees of freedom attached to that entity, the identity orientation gives the identity, and permutations compose like orientations (exchanges of axes, when the factors are alike). For enriched elements the permutation acts blockwise on the parts, for tensor products it combines the factors' permutations and swaps of like axes in the order of the numbering, and for flattened cells it is that of the product cell re-labelled.",
 ["inputs","configurations"],"all elements, entities, orientations, numbers of parts and factors",
 "No test examines entity permutations.",
 ["finat/enriched.py","finat/tensor_product.py","finat/cube.py","finat/fiat_elements.py"],
 [("blockwise concatenation","finat/enriched.py concatenate_entity_permutations"),("product orientations","finat/tensor_product.py compose_permutations"),("flattening","finat/cube.py entity_permutations")])
p("P20","Closure and support sets of entities are exact",
 "The closure degrees of freedom of a sub-entity are, sorted, exactly those attached to the entity and to all of its sub-entities; the support degrees of freedom are exactly those whose basis function does not vanish identically on the entity. Closure sets are contained in those of larger entities, composite elements combine those of their parts in their own numbering, and wrappers report those of the wrapped element.",
 ["inputs","configurations"],"all elements, cells and entities",
 "Only restriction tests use closure indirectly; support sets and composites are not tested.",
 ["finat/finiteelementbase.py","finat/enriched.py","finat/tensor_product.py","finat/cube.py","finat/discontinuous.py","finat/mixed.py","finat/hdivcurl.py","finat/fiat_elements.py"],
 [("closure","finat/finiteelementbase.py _entity_closure_dofs"),("support","finat/finiteelementbase.py _entity_support_dofs; finat/enriched.py; finat/tensor_product.py; finat/cube.py")])
p("P21","Run-time tabulated and quadrature elements are well-defined",
 "A run-time tabulated element names its run-time tables injectively in variant, degree, derivative, offset, continuity and restriction, and its tables have one entry per basis function and point; a quadrature element has exactly one basis function per quadrature point, which is one at its own point and zero at the others, can be tabulated only at its own points and only without derivatives, and its weights and dual points are those of the rule.",
 ["inputs","configurations"],"all degrees, variants, restrictions, orders, quadrature schemes and point sets",
 "Neither element is constructed in any test.",
 ["finat/runtime_tabulated.py","finat/quadrature_element.py"],
 [("naming of tables","finat/runtime_tabulated.py basis_evaluation"),("quadrature element","finat/quadrature_element.py make_quadrature_element, QuadratureElement")])
p("P22","Composite elements report metadata that follows from their parts",
 "The cell, cell complex, degree, form degree, mapping, value shape, index shape and space dimension reported by tensor-product, enriched, mixed, tensor-valued, flattened, discontinuous, restricted and H(div)/H(curl) elements follow from those of the parts by fixed rules: shapes multiply to the space dimension, form degrees add over factors and take the maximum over enrichment, degrees combine factor-wise or by maximum (a flattened cell reports a degree when its factors agree on it), and a mapping or form degree is reported only when the parts agree. The discontinuous version of an element attaches every degree of freedom to the cell interior and changes nothing else.",
 ["inputs","configurations"],"all composite elements over all parts",
 "Metadata of composites is not asserted in any test.",
 ["finat/tensor_product.py","finat/enriched.py","finat/mixed.py","finat/tensorfiniteelement.py","finat/cube.py","finat/discontinuous.py","finat/hdivcurl.py","finat/restricted.py","finat/fiat_elements.py"],
 [("combination rules","finat/*.py degree, formdegree, mapping, index_shape, value_shape, space_dimension"),("discontinuous element","finat/discontinuous.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
