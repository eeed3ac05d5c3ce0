-------------------------- MODULE FinatMappedFacts --------------------------
(* What a physically mapped (or directly defined) family is, before any geometry: degrees of freedom  *)
(* per entity and their numbering, embedding degree, value shape, form degree, mapping.  TLC checks    *)
(* the dimension identities of the spaces and emits every member with its catalogue entry, from which  *)
(* FinatMachine builds composites with mapped parts.                                                   *)
EXTENDS FinatCells, SequencesExt, TLC, Json, IOUtils

MaxDegree == IF IOEnv.FINAT_DEEP = "yes" THEN 9 ELSE 7
RECURSIVE Fall(_, _)
Fall(a, n) == IF n = 0 THEN 1 ELSE a * Fall(a - 1, n - 1)
Binom(a, n) == IF a < n \/ a < 0 THEN 0 ELSE Fall(a, n) \div Factorial(n)
P(k, n) == IF k < 0 THEN 0 ELSE Binom(k + n, n)
Sym(n) == (n * (n + 1)) \div 2
Dim(c) == CASE c = "interval" -> 1 [] c = "tetrahedron" -> 3 [] OTHER -> 2

M(n, c, k) == [n |-> n, c |-> c, k |-> k]
T == "triangle"
K == "tetrahedron"
Fixed == {M("Morley", T, 2), M("Hermite", "interval", 3), M("Hermite", T, 3), M("Hermite", K, 3), M("Bell", T, 5),
          M("ReducedHsiehCloughTocher", T, 3), M("QuadraticPowellSabin6", T, 2), M("QuadraticPowellSabin12", T, 2),
          M("MardalTaiWinther", T, 3), M("ArnoldWinther", T, 3), M("ArnoldWintherNC", T, 2), M("ArnoldQin", T, 2), M("ReducedArnoldQin", T, 2)}
Split == {M(n, c, k) : n \in {"ChristiansenHu", "JohnsonMercier"}, c \in {T, K}, k \in {1}} \cup
         {M(n, c, k) : n \in {"AlfeldSorokina", "GuzmanNeilanH1div"}, c \in {T, K}, k \in {2}} \cup
         {M(n, c, Dim(c)) : n \in {"BernardiRaugelBubble", "GuzmanNeilanBubble"}, c \in {T, K}}
Orders == {M(n, c, 1) : n \in {"BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"}, c \in {T, K}} \cup
          {M(n, K, 2) : n \in {"BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"}}
Ladders == {M("Argyris", T, k) : k \in 5..MaxDegree} \cup {M("HsiehCloughTocher", T, k) : k \in 3..(MaxDegree - 2)} \cup
           {M("HuZhang", T, k) : k \in 3..(MaxDegree - 2)} \cup {M("DirectSerendipity", "quadrilateral", k) : k \in 1..(MaxDegree - 2)}
Members == Fixed \cup Split \cup Orders \cup Ladders

(* degrees of freedom on an entity of dimension d *)
On(m, d) ==
  LET n == Dim(m.c)  k == m.k  vtx == d = 0  facet == d = n - 1  cell == d = n IN
  CASE m.n = "Morley" -> IF vtx \/ facet THEN 1 ELSE 0
    [] m.n = "Hermite" -> (CASE vtx -> n + 1 [] d = 2 -> 1 [] OTHER -> 0)
    [] m.n = "Bell" -> IF vtx THEN 6 ELSE 0
    [] m.n = "Argyris" -> (CASE vtx -> 6 [] d = 1 -> 2 * k - 9 [] OTHER -> P(k - 6, 2))
    [] m.n = "HsiehCloughTocher" -> (CASE vtx -> 3 [] d = 1 -> 2 * k - 5 [] OTHER -> Binom(k - 2, 2))
    [] m.n \in {"ReducedHsiehCloughTocher", "QuadraticPowellSabin6"} -> IF vtx THEN 3 ELSE 0
    [] m.n = "QuadraticPowellSabin12" -> (CASE vtx -> 3 [] d = 1 -> 1 [] OTHER -> 0)
    [] m.n = "MardalTaiWinther" -> IF d = 1 THEN 3 ELSE 0
    [] m.n = "ArnoldWinther" -> <<3, 4, 3>>[d + 1]
    [] m.n = "ArnoldWintherNC" -> <<0, 4, 3>>[d + 1]
    [] m.n = "HuZhang" -> <<3, 2 * (k - 1), 3 * (k - 1) + 3 * P(k - 3, 2)>>[d + 1]
    [] m.n = "ArnoldQin" -> <<2, 2, 0>>[d + 1]
    [] m.n = "ReducedArnoldQin" -> <<2, 1, 0>>[d + 1]
    [] m.n \in {"BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "ChristiansenHu"} ->
         (CASE vtx -> n
           [] facet -> 1
           [] d = 1 /\ n = 3 -> IF k = 2 THEN n ELSE 0
           [] cell -> IF m.n = "GuzmanNeilanSecondKindH1" THEN n * (IF k = 1 THEN 1 ELSE n + 2) ELSE 0)
    [] m.n \in {"BernardiRaugelBubble", "GuzmanNeilanBubble"} -> IF facet THEN 1 ELSE 0
    [] m.n = "AlfeldSorokina" -> (CASE vtx -> n + 1 [] d = 1 -> n [] OTHER -> 0)
    [] m.n = "GuzmanNeilanH1div" -> (CASE vtx -> n + 1 [] facet -> 1 [] d = 1 -> n [] OTHER -> 0)
    [] m.n = "JohnsonMercier" -> (CASE facet -> n * n [] cell -> Sym(n) [] OTHER -> 0)
    [] m.n = "DirectSerendipity" -> (CASE vtx -> 1 [] d = 1 -> k - 1 [] OTHER -> P(k - 4, 2))

Degree(m) == CASE m.n \in {"BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1", "GuzmanNeilanH1div"} -> Dim(m.c) [] OTHER -> m.k
Matrices == {"ArnoldWinther", "ArnoldWintherNC", "HuZhang", "JohnsonMercier"}
Scalars == {"Morley", "Hermite", "Bell", "Argyris", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6",
            "QuadraticPowellSabin12", "DirectSerendipity"}
Shape(m) == LET n == Dim(m.c) IN CASE m.n \in Scalars -> <<>> [] m.n \in Matrices -> <<n, n>> [] OTHER -> <<n>>
Map(m) == CASE m.n = "DirectSerendipity" -> "physical"
            [] m.n \in Scalars \cup {"ArnoldQin"} -> "affine"
            [] m.n \in Matrices -> "double contravariant piola"
            [] OTHER -> "contravariant piola"
(* -1: the family is in no de Rham sequence known to the library *)
FormDegree(m) ==
  CASE m.n \in {"HsiehCloughTocher", "ReducedHsiehCloughTocher", "DirectSerendipity", "BernardiRaugel", "BernardiRaugelBubble"} -> 0
    [] m.n \in Scalars -> -1
    [] OTHER -> Dim(m.c) - 1

CellOf(m) == CellNamed(m.c)
Counts(m) == LET es == Entities(CellOf(m)) IN [j \in 1..Len(es) |-> On(m, EntDim(es[j]))]
Total(m) == SumSeq(Counts(m))

(* dimensions of the spaces, stated on their own *)
SpaceDim(m) ==
  LET n == Dim(m.c)  k == m.k IN
  CASE m.n \in {"Morley", "Hermite", "Argyris"} -> P(k, n)
    [] m.n = "Bell" -> P(5, 2) - 3                                     \* normal derivatives on edges are cubic
    [] m.n = "HsiehCloughTocher" -> P(k, 2) + 2 * (k - 2)                       \* C1 on the Alfeld split
    [] m.n = "ReducedHsiehCloughTocher" -> 12 - 3
    [] m.n = "QuadraticPowellSabin6" -> 9
    [] m.n = "QuadraticPowellSabin12" -> 12
    [] m.n = "MardalTaiWinther" -> 2 * P(3, 2) - (P(2, 2) - 1) - 6      \* constant divergence, linear normal components
    [] m.n = "ArnoldWinther" -> 3 * P(3, 2) - 2 * (P(2, 2) - P(1, 2))   \* symmetric cubics with linear divergence
    [] m.n = "ArnoldWintherNC" -> 3 * P(2, 2) - 3                       \* linear normal-normal components on edges
    [] m.n = "HuZhang" -> 3 * P(k, 2)
    [] m.n = "ArnoldQin" -> 12
    [] m.n \in {"ReducedArnoldQin", "ChristiansenHu"} -> n * P(1, n) + (n + 1)
    [] m.n \in {"BernardiRaugel", "GuzmanNeilanFirstKindH1"} -> n * P(k, n) + (n + 1)
    [] m.n = "GuzmanNeilanSecondKindH1" -> n * (P(k, n) + (IF k = 1 THEN 1 ELSE n + 2)) + (n + 1)
    [] m.n \in {"BernardiRaugelBubble", "GuzmanNeilanBubble"} -> n + 1
    [] m.n = "JohnsonMercier" -> (n + 1) * Sym(n) * P(1, n) - Binom(n + 1, 2) * n * P(1, n - 1)   \* continuous tractions inside
    [] m.n = "DirectSerendipity" -> IF k = 1 THEN 4 ELSE P(k, 2) + 2

VARIABLE i
MemberSeq == SetToSeq(Members)
Init == i \in 1..Len(MemberSeq)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Mem == MemberSeq[i]

Dims == Mem.n \in {"AlfeldSorokina", "GuzmanNeilanH1div"} \/ Total(Mem) = SpaceDim(Mem)
(* polynomial families are no larger than the polynomials of their degree *)
Polynomial == {"Morley", "Hermite", "Bell", "Argyris", "MardalTaiWinther", "ArnoldWinther", "ArnoldWintherNC", "HuZhang", "BernardiRaugel",
               "BernardiRaugelBubble"}
Embedded == Mem.n \in Polynomial =>
  Total(Mem) <= P(Degree(Mem), Dim(Mem.c)) * (IF Mem.n \in Matrices THEN Sym(Dim(Mem.c)) ELSE ProdSeq(Shape(Mem)))
Emit == PrintT("@@" \o ToJson([id |-> Mem, nd |-> Total(Mem), vsh |-> Shape(Mem), deg |-> Degree(Mem), fd |-> FormDegree(Mem), map |-> Map(Mem),
                               on |-> Counts(Mem)]))
=============================================================================
