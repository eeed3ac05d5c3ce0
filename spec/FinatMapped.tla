----------------------------- MODULE FinatMapped -----------------------------
(* Physically mapped elements.  A configuration is a family with its cell, degree, variant and        *)
(* averaging flag; its degrees of freedom are listed here entity by entity as functionals on the      *)
(* PHYSICAL cell, each with the power of the local size that scales it.  A case places a physical     *)
(* cell (possibly turned inside out), gives every vertex its own size, and asks for derivatives on    *)
(* an entity; or it places two cells sharing a facet, numbers their vertices globally and says which  *)
(* local functions are halves of one global function.                                                 *)
(*   length |-> the power of length in the functional (a derivative: -1, an integral over an edge: 1) *)
(*   hv, hp |-> the functional is multiplied by (mean of the sizes of the vertices hv) ^ hp           *)
EXTENDS FinatCells, TLC, Json, IOUtils
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
CellOf(s) == CellNamed(s)
EntVerts(c, d, e) == SortInts(SimplexVerts(c.n, d)[e + 1])

(* ------------------------------------------------------------ functionals *)
Value(i)        == [k |-> "value", i |-> i, length |-> 0, hv |-> <<>>, hp |-> 0]
D1(v, i)        == [k |-> "d1", i |-> i, length |-> -1, hv |-> <<v>>, hp |-> 1]
D2(v, i)        == [k |-> "d2", i |-> i, length |-> -2, hv |-> <<v>>, hp |-> 2]
Jet(n, m, v) == <<Value(0)>> \o (IF m >= 1 THEN [i \in 1..n |-> D1(v, i - 1)] ELSE <<>>)
                             \o (IF m >= 2 THEN [i \in 1..((n * (n + 1)) \div 2) |-> D2(v, i - 1)] ELSE <<>>)
(* moment of the normal derivative against the k-th Jacobi polynomial of weight w; the mean if averaged *)
Normal(k, w, avg) == [k |-> "normal", i |-> k, w |-> w, avg |-> avg, length |-> IF avg THEN -1 ELSE 0, hv |-> <<>>, hp |-> 0]
(* moment of the trace against the derivative of that polynomial *)
Trace(k, w) == [k |-> "trace", i |-> k, w |-> w, length |-> 0, hv |-> <<>>, hp |-> 0]
(* scaled versions of normal derivatives *)
MeanNormal(vs)  == [k |-> "mean-normal", i |-> 0, length |-> -1, hv |-> vs, hp |-> 1]
PointNormal(vs) == [k |-> "point-normal", i |-> 0, length |-> -1, hv |-> vs, hp |-> 1]
Inner(k)        == [k |-> "inner", i |-> k, length |-> 0, hv |-> <<>>, hp |-> 0]
(* degree of freedom of a Piola-mapped or split vector or tensor element *)
Part(k)         == [k |-> "part", i |-> k, length |-> 0, hv |-> <<>>, hp |-> 0]
Tensor(v, k)    == [k |-> "part", i |-> k, length |-> 0, hv |-> <<v>>, hp |-> 2]
Seq0(n, F(_))   == [i \in 1..n |-> F(i - 1)]

(* ------------------------------------------------------------ the families *)
PolyDim(n, r) == IF r < 0 THEN 0 ELSE CASE n = 0 -> 1 [] n = 1 -> r + 1 [] n = 2 -> ((r + 1) * (r + 2)) \div 2
                                       [] n = 3 -> ((r + 1) * (r + 2) * (r + 3)) \div 6
(* functionals per entity of dimension d: families whose layout is a list of counts *)
Counts(x) ==
  LET n == CellOf(x.c).n
  IN CASE x.n = "MardalTaiWinther"      -> <<0, 3, 0>>
       [] x.n = "ArnoldWintherNC"       -> <<0, 4, 3>>
       [] x.n = "ArnoldWinther"         -> <<3, 4, 3>>
       [] x.n = "HuZhang"               -> <<3, 2 * (x.d - 1), (3 * x.d * (x.d - 1)) \div 2>>
       [] x.n = "JohnsonMercier"        -> [i \in 1..(n + 1) |-> IF i = n THEN n * n ELSE IF i = n + 1 THEN (n * (n + 1)) \div 2 ELSE 0]
       [] x.n = "BernardiRaugel"        -> IF n = 2 THEN <<2, 1, 0>> ELSE IF x.d = 2 THEN <<3, 3, 1, 0>> ELSE <<3, 0, 1, 0>>
       [] x.n = "BernardiRaugelBubble"  -> IF n = 2 THEN <<0, 1, 0>> ELSE <<0, 0, 1, 0>>
       [] x.n = "GuzmanNeilanBubble"    -> IF n = 2 THEN <<0, 1, 0>> ELSE <<0, 0, 1, 0>>
       [] x.n = "ChristiansenHu"        -> IF n = 2 THEN <<2, 1, 0>> ELSE <<3, 0, 1, 0>>
       [] x.n = "ReducedArnoldQin"      -> <<2, 1, 0>>
       [] x.n = "ArnoldQin"             -> <<2, 2, 0>>
       [] x.n = "AlfeldSorokina"        -> IF n = 2 THEN <<3, 2, 0>> ELSE <<4, 3, 0, 0>>
       [] x.n = "GuzmanNeilanH1div"     -> IF n = 2 THEN <<3, 1, 0>> ELSE <<4, 3, 1, 0>>
       [] x.n = "GuzmanNeilanFirstKindH1"  -> IF n = 2 THEN <<2, 1, 0>> ELSE IF x.d = 2 THEN <<3, 3, 1, 0>> ELSE <<3, 0, 1, 0>>
       [] x.n = "GuzmanNeilanSecondKindH1" -> IF n = 2 THEN <<2, 1, 2>> ELSE IF x.d = 2 THEN <<3, 3, 1, 15>> ELSE <<3, 0, 1, 3>>
(* where the vertices carry a jet, its order; and the Jacobi weight of the edge moments *)
JetOrder(x) == CASE x.n \in {"Argyris", "Bell"} -> 2
                 [] x.n = "Morley" -> 0
                 [] x.n \in {"Hermite", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12"} -> 1
Scalar == {"Morley", "Hermite", "Bell", "Argyris", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12"}
C1     == {"Argyris", "Bell", "HsiehCloughTocher", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6", "QuadraticPowellSabin12"}
Moments(r, w, avg) == Seq0(r - 2 * w, LAMBDA k : Normal(k, w, avg)) \o Seq0(r - 2 * w - 1, LAMBDA k : Trace(k + 1, w))
EntDofs(x, ent) ==
  LET c == CellOf(x.c)  n == c.n  d == EntDim(ent)  e == ent.e  vs == EntVerts(c, d, e)
  IN IF x.n \notin Scalar
     THEN Seq0(Counts(x)[d + 1], LAMBDA k : IF d = 0 /\ x.n \in {"ArnoldWinther", "HuZhang"} THEN Tensor(e, k) ELSE Part(k))
     ELSE IF d = 0 THEN Jet(n, JetOrder(x), e)
     ELSE CASE x.n = "Morley"  -> IF d = 1 THEN <<MeanNormal(vs)>> ELSE <<>>
            [] x.n = "Hermite" -> IF d = 2 THEN <<Value(0)>> ELSE <<>>
            [] x.n \in {"Bell", "ReducedHsiehCloughTocher", "QuadraticPowellSabin6"} -> <<>>
            [] x.n = "QuadraticPowellSabin12" -> IF d = 1 THEN <<Normal(0, 1, x.avg)>> ELSE <<>>
            [] x.n = "Argyris" /\ x.v = "point" -> IF d = 1 THEN <<PointNormal(vs)>> ELSE <<>>
            [] x.n = "Argyris" -> IF d = 1 THEN Moments(x.d, 2, x.avg) ELSE Seq0(PolyDim(2, x.d - 6), LAMBDA k : Inner(k))
            [] x.n = "HsiehCloughTocher" -> IF d = 1 THEN Moments(x.d, 1, x.avg) ELSE Seq0(PolyDim(2, x.d - 4), LAMBDA k : Inner(k))
Ents(x) == Entities(CellOf(x.c))
Layout(x) == [i \in 1..Len(Ents(x)) |-> EntDofs(x, Ents(x)[i])]
Offset(x, i) == SumSeq([j \in 1..(i - 1) |-> Len(Layout(x)[j])])
NumDofs(x) == SumSeq([j \in 1..Len(Layout(x)) |-> Len(Layout(x)[j])])

(* what a global function may not jump in across a facet *)
Joins(x) ==
  CASE x.n = "QuadraticPowellSabin6" -> <<"value", "vertex gradients">>
    [] x.n \in C1 -> <<"value", "gradient">>
    [] x.n = "Morley" -> <<"vertices", "mean normal derivative">>
    [] x.n = "MardalTaiWinther" -> <<"normal", "mean">>
    [] x.n \in {"ArnoldWinther", "HuZhang", "JohnsonMercier"} -> <<"traction">>
    [] x.n = "ArnoldWintherNC" -> <<"traction moments">>
    [] x.n \in {"AlfeldSorokina", "GuzmanNeilanH1div"} -> <<"value", "divergence">>
    [] OTHER -> <<"value">>

(* ------------------------------------------------------------ laws of the families *)
(* dimension of the space each layout must fill *)
SpaceDim(x) ==
  LET n == CellOf(x.c).n
  IN CASE x.n = "Morley" -> 6 [] x.n = "Hermite" -> PolyDim(n, 3) [] x.n = "Bell" -> 18 [] x.n = "Argyris" -> PolyDim(2, x.d)
       [] x.n = "HsiehCloughTocher" ->
              (* on the three-way split, C1 and smooth to order d - 1 at the split point: the polynomials, and the
                 homogeneous C1 splines of degree d on three rays, 3(d - 1) coefficients under d + 1 conditions *)
              PolyDim(2, x.d) + 3 * (x.d - 1) - (x.d + 1)
       [] x.n = "ReducedHsiehCloughTocher" -> 9 [] x.n = "QuadraticPowellSabin6" -> 9 [] x.n = "QuadraticPowellSabin12" -> 12
       [] x.n = "HuZhang" -> 3 * PolyDim(2, x.d) [] x.n = "ArnoldWinther" -> 24 [] x.n = "ArnoldWintherNC" -> 15
       [] x.n = "MardalTaiWinther" -> 9
       [] x.n = "JohnsonMercier" -> (n + 1) * n * n + (n * (n + 1)) \div 2
       [] OTHER -> -1
(* a C1 join needs exactly as many functionals on the closure of an edge as the traces have coefficients.  On the six-way
   split about the barycentre the normal derivative bends in the middle of an edge and the vertices leave its value there
   open: 3 coefficients, 2 functionals, so the six-way element joins C1 only on special meshes *)
TraceDim(x)  == CASE x.n \in {"Argyris", "HsiehCloughTocher"} -> x.d + 1 [] x.n = "Bell" -> 6 [] x.n = "ReducedHsiehCloughTocher" -> 4
                  [] x.n \in {"QuadraticPowellSabin6", "QuadraticPowellSabin12"} -> 4
NormalDim(x) == CASE x.n \in {"Argyris", "HsiehCloughTocher"} -> x.d [] x.n = "Bell" -> 4 [] x.n = "ReducedHsiehCloughTocher" -> 2
                  [] x.n \in {"QuadraticPowellSabin6", "QuadraticPowellSabin12"} -> 3
CountK(s, K) == Len(SelectSeq(s, LAMBDA f : f.k \in K))
EdgeOf(x) == CHOOSE i \in 1..Len(Ents(x)) : EntDim(Ents(x)[i]) = 1
LawDim(x)    == SpaceDim(x) = -1 \/ NumDofs(x) = SpaceDim(x)
LawUnits(x)  == \A i \in 1..Len(Layout(x)) : \A j \in 1..Len(Layout(x)[i]) :
                  LET f == Layout(x)[i][j] IN f.k = "part" \/ f.length + f.hp = 0 \/ (f.k = "normal" /\ f.avg)
LawTrace(x)  == x.n \in C1 =>
                  /\ 2 * (JetOrder(x) + 1) + CountK(Layout(x)[EdgeOf(x)], {"trace"}) = TraceDim(x)
                  /\ LET c == 2 * JetOrder(x) + CountK(Layout(x)[EdgeOf(x)], {"normal", "point-normal"})
                     IN IF "gradient" \in RangeOf(Joins(x)) THEN c = NormalDim(x) ELSE c < NormalDim(x)

(* ------------------------------------------------------------ pseudo-random placement *)
RECURSIVE Lcg(_, _)
Lcg(s, i) == IF i = 0 THEN s ELSE Lcg((s * 171 + 11213) % 53125, i - 1)
Draw(s, i, m) == (Lcg(s, i + 3) \div 7) % m
Seed(a, b) == (a * 577 + b * 7919 + (Focus.seed % 1000) * 10477) % 53125
Jolt(s, i) == Draw(s, i, 3) - 1
RefVert(n, v) == [j \in 1..n |-> IF v = j THEN 3 ELSE 0]
(* two simplices on either side of the facet of vertices 0..n-1; vertices n and n + 1 are the apexes *)
TwinVert(n, v) == [j \in 1..n |-> IF v < n THEN (IF v = j /\ j < n THEN 3 ELSE 0)
                                   ELSE IF j = n THEN (IF v = n THEN 3 ELSE -3) ELSE 1]
Det(n, p) == IF n = 1 THEN p[2][1] - p[1][1]
             ELSE IF n = 2 THEN (p[2][1] - p[1][1]) * (p[3][2] - p[1][2]) - (p[3][1] - p[1][1]) * (p[2][2] - p[1][2])
             ELSE LET a == [j \in 1..3 |-> p[2][j] - p[1][j]]  b == [j \in 1..3 |-> p[3][j] - p[1][j]]  c == [j \in 1..3 |-> p[4][j] - p[1][j]]
                  IN a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
AbsI(z) == IF z < 0 THEN -z ELSE z
Fat(n, p) == AbsI(Det(n, p)) * 5 >= 3 ^ n * 2          \* not too flat for floating point
Swap(p, a, b) == [i \in 1..Len(p) |-> IF i = a THEN p[b] ELSE IF i = b THEN p[a] ELSE p[i]]
Sizes(s, n, off) == [i \in 1..n |-> <<1, 2, 3, 5>>[Draw(s, off + i, 4) + 1]]        \* halves
Single(x, s) ==
  LET n == CellOf(x.c).n
      shift == [j \in 1..n |-> 4 * Jolt(s, 40 + j)]
      p == [v \in 1..(n + 1) |-> [j \in 1..n |-> RefVert(n, v - 1)[j] + Jolt(s, v * n + j) + shift[j]]]
      (* turn the cell inside out every other time *)
      q == IF Draw(s, 30, 2) = 1 THEN Swap(p, 1, 2) ELSE p
  IN [verts |-> q, h |-> Sizes(s, n + 1, 20), det |-> Det(n, q)]

(* ------------------------------------------------------------ two cells *)
Perm(s, n) ==      \* a pseudo-random permutation of 0..n-1
  LET order == PermsLex(0..(n - 1)) IN order[Draw(s, 50, Len(order)) + 1]
CellOfTwin(n, lab, drop) ==    \* the vertices of a cell in ascending global order
  SortInts({lab[v] : v \in 1..(n + 2)} \ {lab[drop]})
Twin(x, s) ==
  LET n == CellOf(x.c).n
      lab == Perm(s, n + 2)                                    \* lab[v + 1]: the global number of point v
      pt == [v \in 1..(n + 2) |-> [j \in 1..n |-> TwinVert(n, v - 1)[j] + (IF Draw(s, 60 + v, 3) = 0 THEN 0 ELSE Jolt(s, v * n + j))]]
      inv == InvPerm(lab)
      P == [g \in 1..(n + 2) |-> pt[inv[g] + 1]]               \* position of global vertex g - 1
      A == CellOfTwin(n, lab, n + 2)  B == CellOfTwin(n, lab, n + 1)
      at(K, i) == [j \in 1..Len(EntVerts(CellOf(x.c), EntDim(Ents(x)[i]), Ents(x)[i].e)) |->
                     K[EntVerts(CellOf(x.c), EntDim(Ents(x)[i]), Ents(x)[i].e)[j] + 1]]
      pairs == { <<i, j>> \in (1..Len(Ents(x))) \X (1..Len(Ents(x))) : at(A, i) = at(B, j) }
      dofs(i) == [k \in 1..Len(Layout(x)[i]) |-> Offset(x, i) + k - 1]
      facet(K, other) == CHOOSE i \in 1..Len(Ents(x)) : EntDim(Ents(x)[i]) = n - 1 /\ RangeOf(at(K, i)) \subseteq RangeOf(other)
      sh == SetToSortSeq(pairs, LAMBDA a, b : a[1] < b[1])
  IN [points |-> P, h |-> Sizes(s, n + 2, 20), A |-> A, B |-> B,
      fa |-> Ents(x)[facet(A, B)].e, fb |-> Ents(x)[facet(B, A)].e,
      pa |-> [v \in 1..(n + 1) |-> P[A[v] + 1]], pb |-> [v \in 1..(n + 1) |-> P[B[v] + 1]],
      shared |-> Flatten([q \in 1..Len(sh) |-> [k \in 1..Len(dofs(sh[q][1])) |-> <<dofs(sh[q][1])[k], dofs(sh[q][2])[k]>>]]),
      ents |-> sh]

(* ------------------------------------------------------------ cases *)
VARIABLES st
vars == <<st>>
(* a function of a split family has derivatives where one piece of the split is adjacent: in the cell and on facets *)
Asked(x) == SelectSeq(SubSeq(Ents(x), 1, Len(Ents(x)) - 1), LAMBDA t : ~x.split \/ EntDim(t) = CellOf(x.c).n - 1)
Queries(x, s) ==     \* the whole cell to the asked order, and some other entity
  LET N == Len(Asked(x))
      e == Asked(x)[Draw(s, 70, N) + 1]
  IN << [order |-> x.order, d |-> CellOf(x.c).n, e |-> 0], [order |-> IF x.order > 1 THEN 1 ELSE x.order, d |-> EntDim(e), e |-> e.e] >>
Init == st = [ph |-> "init"]
Place == /\ st.ph = "init"
         /\ \E i \in 1..Len(Focus.cfgs), k \in 1..Focus.cells :
              LET x == Focus.cfgs[i]  s == Seed(i, k)  g == Single(x, s)
              IN /\ Fat(CellOf(x.c).n, g.verts)
                 /\ st' = [ph |-> "cell", cfg |-> i, k |-> k, geo |-> g, ask |-> Queries(x, s)]
Glue == /\ st.ph = "init"
        /\ \E i \in 1..Len(Focus.cfgs), k \in 1..Focus.twins :
             LET x == Focus.cfgs[i]  s == Seed(i + 31, k)  n == CellOf(x.c).n
             IN /\ x.twin
                /\ LET t == Twin(x, s)
                   IN /\ Fat(n, t.pa) /\ Fat(n, t.pb)
                      /\ st' = [ph |-> "twin", cfg |-> i, k |-> k, twin |-> t]
Next == Place \/ Glue
Spec == Init /\ [][Next]_vars

(* the two halves of a global function are the same functional *)
LawTwin(x, t) ==
  /\ Len(t.ents) = 2 ^ (CellOf(x.c).n) - 1                     \* every sub-entity of the facet, once
  /\ \A q \in 1..Len(t.ents) :
        LET i == t.ents[q][1]  j == t.ents[q][2]  da == Layout(x)[i]  db == Layout(x)[j]
        IN /\ Len(da) = Len(db)
           /\ \A k \in 1..Len(da) : /\ da[k].k = db[k].k /\ da[k].i = db[k].i /\ da[k].hp = db[k].hp
                                    /\ [v \in 1..Len(da[k].hv) |-> t.A[da[k].hv[v] + 1]] = [v \in 1..Len(db[k].hv) |-> t.B[db[k].hv[v] + 1]]
  /\ Det(CellOf(x.c).n, t.pa) # 0 /\ Det(CellOf(x.c).n, t.pb) # 0
Sound == /\ st.ph = "cell" => LET x == Focus.cfgs[st.cfg] IN LawDim(x) /\ LawUnits(x) /\ LawTrace(x) /\ st.geo.det # 0
         /\ st.ph = "twin" => LawTwin(Focus.cfgs[st.cfg], st.twin)
Emit == /\ st.ph = "init" => \A i \in 1..Len(Focus.cfgs) : PrintT("@@" \o ToJson([ph |-> "layout", cfg |-> i, layout |-> Layout(Focus.cfgs[i]), joins |-> Joins(Focus.cfgs[i])]))
        /\ st.ph # "init" => PrintT("@@" \o ToJson(st))
=============================================================================
