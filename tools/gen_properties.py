import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))
B="finat/finiteelementbase.py"
p("C01","DoF numbering partitions the element and composes predictably",
 "For every element that can be built, the degrees of freedom attached to the entities of its reference cell are exactly 0..N-1, each once, where N is both the space dimension and the product of the index shape. The closure degrees of freedom of an entity are exactly the sorted union of those of its sub-entities. A composite numbers them from its parts: row-major over the factors of a product (flattening keeps this), one part after another for enriched and mixed elements, components next to each other (or outermost when transposed) for tensor-valued ones, all on the cell for a broken one.",
 ["programs","configurations"],"every nesting of the element constructors over every leaf family, cell and degree",
 "The tests look at entity DoFs of a handful of restricted elements; nothing checks numbering of tensor-valued, mixed, flattened or broken elements, nor nested ones.",
 [B,"finat/tensor_product.py","finat/cube.py","finat/enriched.py","finat/mixed.py","finat/tensorfiniteelement.py","finat/discontinuous.py"],
 [("productise","finat/tensor_product.py"),("concatenate_entity_dofs","finat/enriched.py"),("_entity_closure_dofs",B),("TensorFiniteElement._entity_dofs","finat/tensorfiniteelement.py")],
 ["entity_dofs()","entity_closure_dofs()","space_dimension()","index_shape"],[("entity_dofs","cell entity -> DoF numbers","every element class")])
p("C02","Tensor-product evaluation is the product of its factors",
 "On every entity of the product cell, for every derivative multi-index up to the requested order, every factor combination and every kind of point set, each basis function of a tensor-product element (flattened or not) equals the product of the factor basis functions, each evaluated on its own part of the entity, of the point and of the multi-index. When the point set is factored like the element, the evaluation keeps one free index per point factor and never tabulates anything larger than one factor's own table.",
 ["programs","inputs","configurations"],"factor tuples x entities of the product cell x derivative multi-indices x point-set structures",
 "No test evaluates a tensor product against its factors; restriction tests use one point and no derivatives.",
 ["finat/tensor_product.py","finat/cube.py"],[("_merge_evaluations","finat/tensor_product.py"),("_factor_entity","finat/tensor_product.py"),("factor_point_set","finat/tensor_product.py"),("_unflatten","finat/cube.py")],["basis_evaluation()"])
p("C03","Support DoFs are exactly the functions that do not vanish on an entity",
 "For every entity of the reference cell, the support degrees of freedom are exactly those whose basis function is not identically zero on that entity. This holds for leaf elements and for every composite (product, flattened, enriched, mixed, H(div)/H(curl), broken, tensor-valued), and always includes no degree of freedom that vanishes there and misses none that does not.",
 ["programs","configurations"],"elements x entities of all dimensions",
 "No test calls the support query at all.",
 [B,"finat/tensor_product.py","finat/cube.py","finat/enriched.py","finat/mixed.py","finat/hdivcurl.py"],[("_entity_support_dofs",B),("productise","finat/tensor_product.py"),("flatten_entities","finat/cube.py")],["entity_support_dofs()","finat.finiteelementbase.entity_support_dofs"])
p("C04","Enriched and mixed elements evaluate as the concatenation of their parts",
 "An enriched element's basis is its parts' bases one after another (nested enrichment is flattened, a single part is returned unchanged) with every value and derivative unchanged. In a mixed element each part's flattened value occupies its own consecutive block of the value vector and is zero everywhere else, for every derivative, entity and point set.",
 ["programs","inputs"],"lists of parts with scalar, vector and tensor values x derivative orders x entities",
 "Mixed elements are never evaluated by the tests and enriched ones only through restriction at a single point.",
 ["finat/enriched.py","finat/mixed.py"],[("_compose_evaluations","finat/enriched.py"),("MixedSubElement._transform","finat/mixed.py"),("EnrichedElement.__new__","finat/enriched.py")],["basis_evaluation()","point_evaluation()"])
p("C05","H(div)/H(curl) wrappers place product functions in the right component and sign",
 "Wrapping an (n-1)-form (1-form) product as H(div) (H(curl)) puts each function into the fixed component pattern that makes it a contravariantly (covariantly) mapped field: the leftward / upward normal or the rightward / upward tangent in 2D and their prism and hexahedron analogues, with the fixed rotations of a 2D base field, and zero elsewhere, for all derivatives, entities and duals. The resulting form degree, value shape and Piola mapping follow, wrong or unknown form degrees are rejected, and normal (tangential) components vanish on every facet (facet or edge) that does not support the function.",
 ["programs","inputs"],"all admissible factor pairs on quadrilaterals, prisms and hexahedra x derivatives x entities",
 "Only restriction tests build such elements and both sides of those tests use the same transformation.",
 ["finat/hdivcurl.py"],[("select_hdiv_transformer","finat/hdivcurl.py"),("select_hcurl_transformer","finat/hdivcurl.py"),("WrapperElementBase._transform_evaluation","finat/hdivcurl.py")],["basis_evaluation()","dual_basis","formdegree","mapping","value_shape"])
p("C06","Tensor-valued elements replicate the base per component in the declared layout",
 "A tensor-valued element over a base element has one copy of each base function per component: the function with component index c takes the base value in component c and zero in all others, for every derivative and entity. Component indices follow the base index, or precede it when transposed, consistently in index shape, evaluation, dual basis and degree-of-freedom numbering.",
 ["programs","inputs","configurations"],"base elements x shapes of any rank x both layouts x evaluation/dual/numbering",
 "The layout and the transposed variant are never evaluated or dual-evaluated by the tests.",
 ["finat/tensorfiniteelement.py"],[("_tensorise","finat/tensorfiniteelement.py"),("dual_evaluation","finat/tensorfiniteelement.py"),("_entity_dofs","finat/tensorfiniteelement.py")],["basis_evaluation()","index_shape","entity_dofs()","dual_evaluation()"])
p("C07","Restriction keeps exactly the basis functions of the selected entities",
 "Restricting an element to 'interior' keeps exactly the functions attached to the cell, and restricting to vertex, edge, face or facet keeps exactly those attached to entities of at most that dimension; every kept function is unchanged (all derivatives, all entities) and stays attached to the same entity; a restricted tensor-valued element keeps the place of its component indices. An empty selection raises ValueError, and elements whose restriction is not supported raise an error instead of returning something else.",
 ["programs","inputs"],"restrictable elements (leaf, product, flattened, enriched, mixed, H(div)/H(curl), broken, tensor-valued) x domains x nesting",
 "Tests restrict some elements and tabulate at one point; mixed, tensor-valued and broken elements, derivatives, and unsupported elements are not covered.",
 ["finat/restricted.py"],[("restrict_tpe","finat/restricted.py"),("restrict dispatch","finat/restricted.py"),("RestrictedElement","finat/restricted.py")],["RestrictedElement()","entity_dofs()","basis_evaluation()"])
p("C08","Entity permutations describe how DoFs move under cell reflections",
 "For every entity and orientation the permutation is a permutation of that entity's degrees of freedom, the identity orientation is the identity, and orientations of nodal elements compose as their permutations do. The permutations of product, flattened, enriched, tensor and broken-cell-only elements are those induced by their parts, including axis swaps for equal factors. For nodal elements, evaluating the basis at the reoriented point equals evaluating the permuted basis at the original point.",
 ["programs","configurations"],"elements with permutations x entities x orientations",
 "No test in the repository reads entity permutations.",
 ["finat/tensor_product.py","finat/enriched.py","finat/cube.py","finat/discontinuous.py","finat/hdivcurl.py"],[("compose_permutations","finat/tensor_product.py"),("concatenate_entity_permutations","finat/enriched.py"),("flatten_permutations","finat/cube.py")],["entity_permutations"])
p("C09","The dual basis is dual to the basis and dual evaluation applies it",
 "For every element that offers a dual basis, contracting it with the element's own basis gives the identity, on products, flattened, H(div)/H(curl), broken, tensor-valued (both layouts) and quadrature elements as well as leaves. Dual evaluation of any supplied function equals the sum over the dual points of weight times value, and interpolating a function of the space returns its coefficients.",
 ["programs","inputs"],"elements with point-evaluation duals x functions, including functions with extra free indices",
 "No test touches dual bases or dual evaluation.",
 [B,"finat/fiat_elements.py","finat/tensor_product.py","finat/tensorfiniteelement.py","finat/hdivcurl.py","finat/quadrature_element.py"],[("FiatElement._dual_basis","finat/fiat_elements.py"),("TensorProductElement.dual_basis","finat/tensor_product.py"),("dual_evaluation",B)],["dual_basis","dual_evaluation()"])
p("C10","Symbolic point evaluation agrees with tabulation",
 "Evaluating an element at a symbolic reference point and then substituting numbers gives the same values as tabulating at those numbers, for every derivative multi-index, entity and element (leaf or composite), wherever both are offered. The free indices of the result are those of the supplied point and nothing else.",
 ["programs","inputs"],"elements x entities x derivative orders x points",
 "The single test checks only the free indices of Lagrange degree 1 and 2.",
 ["finat/fiat_elements.py","finat/tensor_product.py","finat/enriched.py","finat/hdivcurl.py","finat/tensorfiniteelement.py","finat/sympy2gem.py"],[("point_evaluation","finat/fiat_elements.py"),("sympy2gem","finat/sympy2gem.py")],["point_evaluation()"])
p("C11","Leaf elements reproduce the tabulation of the family they name",
 "Every element family evaluates, on every entity, at every kind of point set and for every derivative multi-index (including at and beyond the polynomial degree), to the basis of that family, degree, variant and cell. Its dimension, value shape, form degree, degree, mapping and DoF layout are those of the same family.",
 ["inputs","configurations"],"families x cells x degrees x variants x entities x derivative orders x point sets",
 "The tests never compare an unmapped element's tabulation with an independent one; collapsed high derivatives are not exercised.",
 ["finat/fiat_elements.py","finat/spectral.py","finat/trace.py"],[("FiatElement.basis_evaluation","finat/fiat_elements.py")],["basis_evaluation()","degree","formdegree","mapping","value_shape"])
p("C12","Quadrature rules are exact to the requested degree with matching point structure",
 "For every supported cell, degree (per-factor degrees included) and scheme, the rule integrates every polynomial of that degree exactly, its points lie in the cell, and points and weights are indexed by the same free indices; flat and factored views of the points list the same points in the same order. Gauss-Legendre line rules are labelled as such, orientation maps send each point to the weight-equal reflected point, and a negative degree is rejected.",
 ["inputs","configurations"],"cells x degrees x schemes x monomials",
 "Tests only use quadrature indirectly at a few degrees and never check exactness, structure or orientation maps.",
 ["finat/quadrature.py","finat/point_set.py"],[("make_quadrature","finat/quadrature.py"),("TensorProductQuadratureRule","finat/quadrature.py"),("TensorPointSet","finat/point_set.py")],["make_quadrature()","point_set","weight_expression","intrinsic_orientation_permutation_map_tuple"])
p("C13","Quadrature elements and collocated spectral elements are exact deltas",
 "A quadrature element evaluates to the identity between its functions and its own quadrature points and refuses other points, derivatives and sub-entities; its dual is evaluation at those points in the same order. Gauss-Legendre and Gauss-Lobatto-Legendre elements collapse to the identity exactly when the point set is the matching labelled rule with as many points as functions on the cell interior, and otherwise give the ordinary tabulation; in every case the values are right.",
 ["inputs","configurations"],"cells x degrees x schemes x point sets (matching or not) x entities x orders",
 "No test constructs a quadrature element or evaluates a spectral element at its own nodes.",
 ["finat/quadrature_element.py","finat/spectral.py","finat/point_set.py"],[("QuadratureElement.basis_evaluation","finat/quadrature_element.py"),("almost_equal","finat/point_set.py"),("GaussLobattoLegendre.basis_evaluation","finat/spectral.py")],["basis_evaluation()","dual_basis","entity_dofs()"])
p("C14","Physically mapped scalar elements are nodal for physical degrees of freedom",
 "On any non-degenerate physical triangle (or tetrahedron or interval where offered), mapped Morley, Hermite, Argyris, Bell, Hsieh-Clough-Tocher (full and reduced) and Powell-Sabin functions pulled back from the reference cell are dual to the physical degrees of freedom: values, physical Cartesian derivatives at vertices, and normal derivatives or moments on edges in the given normal direction, each scaled by the matching power of the local cell size. This holds for unequal vertex sizes, for every degree and variant, for averaged and unaveraged edge moments, and for all derivative orders; Hermite and the Powell-Sabin 6-split, whose derivatives are all at vertices, are nodal on curved cells too.",
 ["inputs","configurations"],"elements x degrees x variants x physical cells x per-vertex cell sizes x averaging flag",
 "The test uses one physical triangle with unit sizes; conditioning tests use uniform sizes only.",
 ["finat/physically_mapped.py","finat/morley.py","finat/hermite.py","finat/argyris.py","finat/bell.py","finat/hct.py","finat/powell_sabin.py"],[("basis_transformation","each element module"),("_normal_tangential_transform / _edge_transform / _vertex_transform","finat/argyris.py")],["basis_evaluation(coordinate_mapping=...)","basis_transformation()"])
p("C15","Physically mapped Piola elements match the family built on the physical cell",
 "For Mardal-Tai-Winther, Arnold-Winther (conforming and not), Johnson-Mercier, Hu-Zhang, Bernardi-Raugel, Guzman-Neilan, Christiansen-Hu, Alfeld-Sorokina and reduced Arnold-Qin elements, the transformed reference functions pulled forward by the stated Piola or affine map equal the functions of the same element constructed on the physical cell, up to the documented per-vertex size scaling and constraint functions. This holds for every non-degenerate cell and every offered degree and variant.",
 ["inputs","configurations"],"Piola-mapped elements x degrees x physical cells x cell sizes",
 "The tests use a single physical cell per dimension and unit sizes.",
 ["finat/piola_mapped.py","finat/mtw.py","finat/aw.py","finat/johnson_mercier.py","finat/hz.py","finat/bernardi_raugel.py","finat/guzman_neilan.py","finat/christiansen_hu.py","finat/alfeld_sorokina.py","finat/arnold_qin.py"],[("piola_inverse / normal_tangential_edge_transform","finat/piola_mapped.py, finat/aw.py"),("basis_transformation","each element module")],["basis_transformation()","basis_evaluation(coordinate_mapping=...)"])
p("C16","Direct serendipity is a complete nodal basis on any convex quadrilateral",
 "On every convex quadrilateral, the direct serendipity functions of each degree are equal to one at their own node and zero at all others, reproduce every polynomial up to that degree in physical coordinates, and on an edge vanish unless attached to its closure. Reported physical derivatives are the derivatives of those functions, and results do not depend on what was evaluated before.",
 ["inputs","configurations","histories"],"degrees x convex quadrilaterals x points x derivative orders x evaluation histories",
 "The test checks the Kronecker property on one quadrilateral without derivatives.",
 ["finat/direct_serendipity.py"],[("ds1_sym / ds_sym","finat/direct_serendipity.py"),("_deriv_cache","finat/direct_serendipity.py")],["basis_evaluation(coordinate_mapping=...)","entity_dofs()"])
p("C17","Symbolic expressions translate to code with the same meaning",
 "Any supported SymPy or symengine expression (arithmetic, powers, absolute value, comparisons, logic, piecewise and if-then-else, symbols, numbers) translates to an expression that evaluates to the same value for every assignment of its symbols. Piecewise uses the first true branch, in order, and unsupported nodes raise an error.",
 ["inputs"],"expression trees over the supported operators x assignments",
 "Only polynomial and square-root expressions produced by a few elements are ever translated in tests.",
 ["finat/sympy2gem.py"],[("sympy2gem dispatch","finat/sympy2gem.py")],["sympy2gem"])
p("C18","The FIAT equivalent of an element is the same element",
 "Whenever an element provides a FIAT equivalent, that equivalent has the same cell, dimension, value shape, DoF layout and form degree, and tabulates to the same values in the same (flattened, row-major) order on every entity and for every derivative order. Asking for it changes nothing else about the element. Physically mapped elements, whose values depend on the geometry, are outside; FIAT mixed elements carry no form degree.",
 ["programs","inputs"],"elements with an equivalent (leaf, product, flattened, enriched, mixed, H(div)/H(curl), broken, nodal-enriched, quadrature)",
 "No test uses the equivalents of composites.",
 ["finat/fiat_elements.py","finat/tensor_product.py","finat/cube.py","finat/enriched.py","finat/hdivcurl.py","finat/discontinuous.py","finat/quadrature_element.py","finat/nodal_enriched.py"],[("fiat_equivalent","every element class")],["fiat_equivalent"])
p("C19","Answers do not depend on the history of calls",
 "Any element answers any query (evaluation on any entity, order and point set, point evaluation, DoF maps, permutations, duals, mapped evaluation) identically however many and whichever queries were made before, on it or on any other element sharing parts with it. No query modifies the point sets, rules, caller-supplied arrays or elements it was given, and numeric results returned earlier keep their value.",
 ["histories","programs"],"interleavings of queries over elements that share sub-elements, point sets and cells",
 "Tests build fresh elements per case and ask one question.",
 [B,"finat/tensor_product.py","finat/fiat_elements.py","finat/direct_serendipity.py","finat/physically_mapped.py","finat/quadrature_element.py","finat/piola_mapped.py"],[("cached properties and per-instance caches","throughout")],["every public query"],[("caches","memoised maps, dual bases, symbolic derivatives","cached_property users, _deriv_cache")])
p("C20","UFL elements are values: equality, hashing, repr and pickling agree",
 "Two descriptions of an element are equal exactly when they describe the same family, cell, degree, variant, quadrature scheme, shape, symmetry and parts; equal elements have equal hashes in every process, and anything that distinguishes two elements distinguishes their printed representation. Copying or pickling gives an equal element.",
 ["programs","configurations"],"pairs of descriptors over all constructors and option values",
 "One test compares hashes of a few fixed elements.",
 ["finat/ufl/finiteelementbase.py","finat/ufl/finiteelement.py","finat/ufl/mixedelement.py","finat/ufl/enrichedelement.py","finat/ufl/tensorproductelement.py","finat/ufl/hdivcurl.py","finat/ufl/restrictedelement.py","finat/ufl/brokenelement.py"],[("__eq__/__hash__/__repr__","finat/ufl/finiteelementbase.py")],["==","hash()","repr()","pickle"])
p("C21","The UFL registry resolves names, checks cells and degrees, reports spaces",
 "Every registered family name, short name, alias and FEEC/periodic-table style name resolves to the one canonical family, degree and form degree it denotes; the element's Sobolev space, mapping, value shape and embedded degree are those of that family on that cell. Unknown names, disallowed cells and out-of-range degrees are rejected with an error.",
 ["inputs","configurations"],"names and aliases x cells x degrees",
 "Tests never query the registry.",
 ["finat/ufl/elementlist.py","finat/ufl/finiteelement.py"],[("register_element/register_alias/canonical_element_description/feec_element","finat/ufl/elementlist.py"),("FiniteElement.__init__/__new__","finat/ufl/finiteelement.py")],["FiniteElement()","canonical_element_description()"])
p("C22","UFL composites derive degree, shape, space and mapping from their parts",
 "Vector, tensor, mixed, enriched, tensor-product, restricted, broken, H(div)/H(curl) and re-mapped elements report the reference value shape, embedded super- and sub-degree, Sobolev space, mapping, quadrature scheme, cell and printed form determined by their parts: products intersect spaces or report directional ones, sums take the largest degree and the common space, broken elements are L2, wrapped ones carry their declared space and Piola mapping.",
 ["programs"],"nestings of all UFL constructors",
 "Tests never read derived attributes.",
 ["finat/ufl/mixedelement.py","finat/ufl/enrichedelement.py","finat/ufl/tensorproductelement.py","finat/ufl/restrictedelement.py","finat/ufl/brokenelement.py","finat/ufl/hdivcurl.py","finat/ufl/finiteelementbase.py"],[("sobolev_space / mapping / embedded degrees","finat/ufl/*.py")],["attributes of UFL elements"])
p("C23","UFL mixed, vector and tensor elements number components consistently",
 "For any nesting of mixed, vector and tensor elements, the reference components are those of the sub-elements laid end to end, and extracting the sub-element or component at a valid index returns the sub-element and local index that own it; invalid indices raise an error. Tensor elements with a symmetry have one sub-element per distinct component and map every component to its representative.",
 ["programs","inputs"],"nestings x component indices x symmetry maps",
 "Tests never extract components or use symmetries.",
 ["finat/ufl/mixedelement.py","finat/ufl/finiteelementbase.py"],[("extract_subelement_component / extract_component / symmetry / flattened_sub_element_mapping","finat/ufl/mixedelement.py")],["extract_*","symmetry","sub_elements","flattened_sub_element_mapping()"])
p("C24","Reconstructing a UFL element changes only what was asked",
 "Reconstructing any element with no arguments gives an equal element; reconstructing with a new cell, degree, family, variant or scheme gives the element that would have been built with that value and everything else unchanged, pushed through to every part of a composite. The original is not modified.",
 ["programs","inputs"],"constructors x replaced options",
 "Tests never reconstruct elements.",
 ["finat/ufl/finiteelement.py","finat/ufl/mixedelement.py","finat/ufl/enrichedelement.py","finat/ufl/tensorproductelement.py","finat/ufl/restrictedelement.py","finat/ufl/brokenelement.py","finat/ufl/hdivcurl.py"],[("reconstruct","finat/ufl/*.py")],["reconstruct()"])
p("C25","Composite elements derive cell, degree, form degree and mapping from parts",
 "The cell of a product is the product of cells (flattened to quadrilateral or hexahedron); its degree is the tuple of factor degrees (the common one when flattened); its form degree is the sum, unknown if any is; its mapping is the single non-affine one. Enriched elements take the entrywise largest degree, largest form degree and common mapping (none if they differ); broken elements have top form degree. The subdivided reference complex (Alfeld, iso) an element lives on follows too: a product's is the product of its factors', a sum's is the finest of its parts' whatever their order, and it has none if none is finest. Other wrappers pass their part's attributes through.",
 ["programs"],"nestings of all constructors",
 "Tests never read these attributes from composites.",
 ["finat/tensor_product.py","finat/cube.py","finat/enriched.py","finat/mixed.py","finat/discontinuous.py","finat/hdivcurl.py","finat/tensorfiniteelement.py"],[("degree/formdegree/mapping/cell/complex properties","each class"),("tree_map","finat/enriched.py")],["cell","complex","degree","formdegree","mapping","value_shape"])
p("C26","Ill-formed constructions and queries are rejected, never silently answered",
 "A product with two non-scalar factors, an enriched element over different cells or value shapes, an H(div)/H(curl) wrapper of a non-product or of the wrong form degree, a quadrature element on a rule of the wrong dimension, a point set of the wrong dimension, a mapped element on an unsupported cell, of a degree its family (where it offers a choice) does not have, or evaluated without its geometry, and an entity that does not exist all raise an error no later than evaluation. Well-formed requests of the same kind succeed.",
 ["programs","inputs","fault_sequences"],"constructor and query arguments inside and outside their domains",
 "Tests exercise only well-formed input apart from empty restrictions.",
 ["finat/tensor_product.py","finat/enriched.py","finat/hdivcurl.py","finat/quadrature_element.py","finat/point_set.py","finat/physically_mapped.py","finat/runtime_tabulated.py","finat/cube.py"],[("constructor checks","each class")],["raised exceptions"])
p("C27","Run-time tabulated elements name each table uniquely with the right shape",
 "A run-time tabulated element evaluates to one variable per derivative order, whose shape is points by functions and whose name determines, and is determined by, its variant, degree, derivative, axis shift, continuity and side restriction. Its dimension is degree plus one, its form degree is zero exactly when continuous, it factors into products like any other interval element, and it refuses non-interval cells and point evaluation.",
 ["configurations","programs"],"variants x degrees x shifts x restrictions x continuity x derivative orders x point sets",
 "No test constructs one.",
 ["finat/runtime_tabulated.py","finat/tensor_product.py"],[("basis_evaluation","finat/runtime_tabulated.py")],["basis_evaluation()"])
p("C28","Mapped elements join conformingly across neighbouring cells",
 "When two physical cells share a facet, the physically mapped functions of the degrees of freedom they share, matched by the global vertex order and the same per-vertex cell sizes, form global functions with the continuity the family promises across that facet: values for Lagrange-like families, values and gradients for the C1 families on triangles, normal components or tractions for the H(div) families, and mean values or moments for the nonconforming ones; functions of other entities contribute nothing there. This holds whichever facets are glued, for every degree, variant and averaging flag.",
 ["inputs","configurations"],"mapped elements x pairs of physical cells glued along any pair of facets x per-vertex cell sizes",
 "The tests use one cell and never assemble a patch of two.",
 ["finat/physically_mapped.py","finat/argyris.py","finat/bell.py","finat/hct.py","finat/morley.py","finat/hermite.py","finat/powell_sabin.py","finat/piola_mapped.py","finat/mtw.py","finat/aw.py","finat/johnson_mercier.py","finat/hz.py","finat/bernardi_raugel.py","finat/guzman_neilan.py","finat/christiansen_hu.py","finat/alfeld_sorokina.py","finat/arnold_qin.py"],[("basis_transformation","each element module"),("entity_dofs","each element module")],["basis_evaluation(coordinate_mapping=...)","entity_dofs()"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
