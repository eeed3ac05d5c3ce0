"""Write DESIGN.md (fixes and planted bugs are read from their files)."""
text = r'''# Model-based verification of FInAT with TLA+

## 1. Language and scheme

Language: **TLA+, checked with TLC** (not Quint). The model is dominated by recursive operators over terms, sequences
and finite functions (element constructors, cell complexes, permutation algebra, degree-of-freedom layouts). TLC
evaluates those directly, reads the experiment from JSON (`Json` of the CommunityModules) and prints behaviours. Quint
would need types for deeply recursive terms and Apalache's SMT encoding brings nothing to finite structural questions.

FInAT is an *algebra of descriptions with an evaluator*: a client builds elements from elements, and asks them
questions. The specification therefore has

* a **state** - the stack (pool) of elements a client has built, the questions already asked (`FinatHistory`,
  `FinatRuntime`, `FinatDirect`), the pair of physical cells that were glued (`FinatMapped`);
* **actions** - one per public constructor or query;
* an **abstract value** for each element: cell, entity layout, index and value shape, form degree, mapping,
  permutations, and a symbolic basis in which each function/component is 0 or a signed product of leaf functions of
  parts of the coordinates. This is the *meaning*, given independently of the code;
* **laws** - invariants evaluated by TLC in every state (partition of the DoFs, closure monotonicity, Euler and nesting
  lemmas of the cell complexes, permutation homomorphism, dimension identities, law of units, twin-cell consistency,
  normal-form equality of descriptions), so that the specification itself is checked before it judges anything.

Binding to the code, both directions:

* **spec -> code** (all checks): TLC enumerates (or, with `-simulate`, samples) the behaviours of a *focus* and emits
  each with the outcome the specification requires; `lib/` replays each of them into `/repo` through the public API and
  compares. Where the specification speaks of leaf functions, these are instantiated with FIAT's tabulation at the same
  points, so the comparison is numerical and total (every function, component, derivative).
* **code -> spec** (C01, C11): numberings recorded from the implementation are judged step by step by
  `NumberingTrace.tla`; the leaf catalogue used by the machine is read from the implementation and checked against
  `FinatFamilies.tla`.

No hooks were needed: the public API already exposes the abstract state (MANIFEST `hooks` is absent).
FIAT, gem and UFL are the environment: trusted, not under test. Only `/repo/finat` is.

Every check is `python3 check.py Cnn` (exit 0 / exit 1 with `VIOLATION property=Cnn replay=...` / other = machinery
error). Replays hold the failing program, question and both answers. `VERIF_SEED` seeds sampling, `VERIF_TIER=thorough`
removes the sampling and widens the foci. `FINAT_REPO=<copy>` points a check at another tree.

## 2. Modules

| module | specifies |
|---|---|
| `FinatUtil`, `FinatCells`, `FinatLemmas` | row-major arithmetic, permutations; simplices, products, flattened cells, their entities, closures and orientations; lemmas (nesting, Euler) |
| `FinatElements` | meaning of every element constructor (leaf, product, flattening, enriched, mixed, tensor, H(div)/H(curl), broken, restricted) |
| `FinatMachine` | the client: stack machine of constructors; laws of the algebra; which programs are refused |
| `FinatFamilies` | what each leaf family denotes: DoFs per entity, shapes, form degree, mapping, dimension identities |
| `FinatMappedFacts` | what each physically mapped or directly defined family is (DoFs per entity, degree, shapes, form degree, mapping, dimension identities); its members are leaves `M:<class>:<cell>:<degree>` of the machine |
| `FinatQuadrature` | rules: structure, labels, exactness, exact integrals, orientation maps |
| `FinatQuadElem`, `FinatSpectral` | what quadrature and collocated elements answer or refuse |
| `FinatMapped` | physical degrees of freedom of the mapped families, their scaling by the local size, what joins across a facet, physical cells and pairs of cells |
| `FinatDirect` | nodes of direct serendipity, convex quadrilaterals, histories of evaluations |
| `FinatHistory` | histories of questions to pools of elements that share parts |
| `FinatExpr` | scalar expressions with exact rational, three-valued meaning |
| `FinatRequests` | which requests are well formed |
| `FinatRuntime` | tables of run-time tabulated elements: one argument slot per distinct table |
| `FinatUflTable`, `FinatUflNames`, `FinatUfl` | the published table of families, every description a user can give, and terms of UFL elements with their normal forms and derived attributes |
| `NumberingTrace` | judge of recorded numberings |

## 3. Properties

"Oracle" names what the replayed code is compared with. Costs are wall-clock for the quick tier on 8 idle cores;
bounds of each run are written into `evidence/<id>.json`.

| id | decided by | oracle and bounds | quick |
|---|---|---|---|
| C01 | `FinatMachine` programs; `NumberingTrace` for mapped families | layout, closure, index shape of the abstract value; all programs of `lib/foci.py` (16 foci, five with mapped leaves, up to 3 constructors), 63 leaves and every mapped family | 30 s |
| C02 | products of 2-3 factors | products of FIAT tables; all entities, derivative order <= 3, every point-set structure | 30 s |
| C03 | support = functions whose symbolic trace is not identically 0 | the specification's support set, and a numerical one (moments of FIAT tables with a relative threshold) | 30 s |
| C04 | sums and mixed elements | concatenation of FIAT tables (mapped parts: their own tables on one physical cell), zero blocks | 20 s |
| C05 | `hdiv`/`hcurl` wrappers | component and sign in the symbolic basis; the four law cases; refusal of all other form degrees | 25 s |
| C06 | tensor elements, both layouts, nested | symbolic basis, also over mapped bases and sums of them; duals by index order | 25 s |
| C07 | restriction to every domain, twice | kept set by entity dimension/closure; refusals when empty | 45 s |
| C08 | orientations of every entity | group action on nodes, permutation homomorphism, and a geometric test (nodes moved by the reflection) | 40 s |
| C09 | duals | identity of dual against the element's own basis; dual evaluation of given expressions | 40 s |
| C10 | symbolic evaluation | tabulation of the same element at the same points | 45 s |
| C11 | `FinatFamilies`, `FinatMappedFacts` | FIAT element of that family on the same cell, every derivative up to degree + 1; mapped families: what they declare | 50 s |
| C12 | `FinatQuadrature` | exact rational integrals of all monomials; structure, labels, weights | 35 s |
| C13 | `FinatQuadElem`, `FinatSpectral` | identity / tabulation / refusal | 30 s |
| C14 | `FinatMapped` | (i) the physical functionals of the layout applied to the pulled-back functions give the identity; (ii) FIAT's family built on the physical cell | 25 s |
| C15 | `FinatMapped` | FIAT's family on the physical cell, Piola push-forward done here; facets and derivatives | 25 s |
| C16 | `FinatDirect` | Kronecker at the specification's nodes, polynomial reproduction incl. derivatives, complex-step derivatives, Lagrange traces, new elements for every question | 36 s |
| C17 | `FinatExpr` | exact rational evaluation under all assignments | 40 s |
| C18 | `FinatMachine` | the element's own evaluation, flattened row-major | 60 s |
| C19 | `FinatHistory` | the answer of freshly built elements to that single question; snapshots of everything passed in; held results re-read at the end | 30 s |
| C20-C24 | `FinatUfl`, `FinatUflNames`, `FinatUflTable` | normal forms, the published table, component ownership | 20-60 s |
| C25 | `FinatMachine`, `FinatMappedFacts` | attributes of the abstract value, including the splitting of the reference complex (join over a sum, product over factors) | 60 s |
| C26 | `FinatRequests`, refused programs of `FinatMachine` | well-formed requests succeed, others raise | 40 s |
| C27 | `FinatRuntime` | one slot per distinct table, bijectively | 15 s |
| C28 | `FinatMapped` (`Glue`) | jumps of the joined quantities across the shared facet | 32 s |

Why this reaches what the tests cannot: the tests sample about a dozen elements, one cell, one question each. TLC
enumerates *programs* (which is where FInAT's defects live: constructor compositions, factor order, anisotropic
parts), questions of every entity/order/point structure, cells, and histories, and each comes with its required outcome.

Nothing in the list is `not_applicable`. The technique is weakest on purely numerical statements (C11, C14, C15): there
the specification contributes the layouts, laws, cells and the cases, and the comparison is numerical in the replay.

## 4. Genuine defects found (all repaired, `fix:` commits; listed in `known_findings.json`)

FIXES

## 5. What is excluded, and false alarms that were resolved

* C03: elements whose degree cannot be flattened are outside (support needs a degree).
* C07: FIAT cannot restrict its own restricted elements; such programs are compared only up to that.
* C08: the homomorphism law is not required for axis swaps of products with unequal factors (nothing to permute).
* C10: facet-trace elements are outside (FIAT cannot tabulate them symbolically).
* C11: derivative order is capped at 6 for Argyris 6 and at the degree for split families of degree >= 3 (FInAT asserts
  `allclose(table, 0)` beyond the degree and FIAT's rounding trips it); FIAT cannot tabulate some split cells when no
  point lies in a sub-cell; H(div) traces only on facets; FIAT's symbolic families are sampled in the quick tier.
* C12: per-factor degrees on the UFC hexahedron and extrinsic maps of nested products are outside the interface.
* C14/C15: the first functionals of the family are compared; interior moments through the FIAT oracle only; derivatives
  of split families only where smooth. The full Arnold-Qin element is affine (identity-mapped) and not in C15.
* C28: the Powell-Sabin 6-split is C1 only on special meshes: values and vertex gradients are required to join.
* C16: degree 7 only in the thorough tier (75 s of SymPy).
* C17: what SymPy/symengine rewrite or round while *building* an expression is not the translator's doing
  (`reading()` re-reads the built tree).
* C18: FIAT's own limits are listed in `beyond_fiat`; FIAT mixed elements carry no form degree; the equivalent of the
  broken nonconforming Arnold-Winther element keeps FIAT's constraint DoFs.
* C21: for product cells names are only validated; ranges of the BRB/GNB bubbles are unbounded in the registry;
  DG families on cubes with anisotropic degree raise TypeError and are unspecified.
* C22: mixed elements of incomparable spaces may report any part's space; UFL identifies `DirectionalH` with equal
  orders with the isotropic space; claims about constant/linear completeness are one-sided.
* C23: symmetry of non-scalar symmetric blocks inside mixed elements is unspecified; physical components only where UFL
  defines the pullback; the value shape of a re-mapped element follows its pullback.
* C24: which elements refuse the `mapping` option is unspecified.
* UFL layer generally: not generated are `quad_scheme` on product-cell FiniteElements, tuple degrees of leaves inside
  composite terms, degree `None`.
* C26: refusals by flattening are FIAT's; the `physical_points` convention of mapped elements; symbolic point evaluation
  of trimmed serendipity/BDMCF is limited by FIAT; tensor point sets on explicit entities of products are skipped;
  mapped families of a single degree ignore the argument; an answer made of Failure/NaN counts as refusal.

## 6. Planted bugs

Each is a realistic change that compiles and passes the 125 tests; `tools/plant.py` planted it in a scratch copy, ran the
tests, its demonstration on both trees, and the property's check. "first" = whether the check caught it the day it was
written (bugs are written from the property's text before looking at the check's coverage); where it did not, the check
was strengthened and now does.

SEEDED

## 7. Practicalities

`tools/setup.py` (setup_cmd) only verifies that TLC and the interpreter are there. Checks build nothing: Python is
imported from `/repo` with bytecode writing off. `lib/harness.py` holds the runner (parallel map over processes with a
time limit per item, `Hang` detection, TLC driver); `lib/replay.py` builds terms and compares tables; `lib/catalog.py`
the leaf catalogue; `lib/tables.py`, `lib/duals.py`, `lib/attrs.py`, `lib/zoo.py`, `lib/mapped.py`, `lib/uflterms.py`
the oracles. `lib/mapped.py` evaluates FInAT's expressions with `plain()`: gem's loop unrolling (an optimisation, not under test) is
skipped there, which makes the evaluation 50 times faster. `FinatMapped` must run with one TLC worker (lazily evaluated constants race in TLC otherwise).
'''
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k = json.load(open(V + "/known_findings.json"))
fixes = "\n".join("* " + (lambda p: "%s `%s` - %s" % (p[0].split("=")[1], p[1], p[2]))(f.replace("fixed: ", "").split(" ", 2)) for f in k["fixed"])
fixes += "\n\nListed findings (not repaired): " + (", ".join(k["findings"]) or "none.")
late = set(open(V + "/tools/late.txt").read().split()) if os.path.exists(V + "/tools/late.txt") else set()
rows = ["| bug | needs | first |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (i, m["needs"].strip().replace("|", "/")[:150], "missed, now caught" if i in late else "caught"))
text = text.replace("FIXES", fixes).replace("SEEDED", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(text)
