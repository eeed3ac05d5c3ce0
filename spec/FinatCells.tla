---------------------------- MODULE FinatCells ----------------------------
(* Reference cell complexes: simplices, their products, and the flattened   *)
(* quadrilateral and hexahedron.  Every cell's entities are listed in one   *)
(* canonical order (by dimension, then number); all entity-indexed maps in  *)
(* the specification are sequences in that order.                           *)
EXTENDS FinatUtil

Simplex(n) == [k |-> "s", n |-> n, cs |-> <<>>]
Interval == Simplex(1)
ProdCell(cs) == [k |-> "p", n |-> SumSeq([i \in 1..Len(cs) |-> cs[i].n]), cs |-> cs]
Quad == [k |-> "f", n |-> 2, cs |-> <<Interval, Interval>>]
Hex  == [k |-> "f", n |-> 3, cs |-> <<Interval, Interval, Interval>>]

CellNamed(s) ==
  CASE s = "interval" -> Interval [] s = "triangle" -> Simplex(2)
    [] s = "tetrahedron" -> Simplex(3) [] s = "quadrilateral" -> Quad
    [] s = "hexahedron" -> Hex

(* --- simplices: UFC numbering.  Vertices in natural order; every other    *)
(* entity is numbered by the lexicographic order of the vertices it omits.  *)
SimplexVerts(n, d) ==
  IF d = 0 THEN [i \in 1..(n + 1) |-> {i - 1}]
  ELSE LET omitted == CombLex(0, n, n - d)
       IN [i \in 1..Len(omitted) |-> (0..n) \ RangeOf(omitted[i])]

RECURSIVE Entities(_), RawEntities(_), AllIntervals(_)
AllIntervals(c) == IF c.k = "s" THEN c.n = 1 ELSE \A i \in 1..Len(c.cs) : AllIntervals(c.cs[i])
RawProductEntities(cs) ==
  (* sorted by dimension tuple, then row-major in the factor numbers *)
  LET tabs == [i \in 1..Len(cs) |-> Entities(cs[i])]
      (* the distinct dimensions in order of appearance: each list is already sorted by dimension *)
      firsts(i) == SelectSeq([j \in 1..Len(tabs[i]) |-> j], LAMBDA j : j = 1 \/ tabs[i][j].d # tabs[i][j - 1].d)
      dimlists == [i \in 1..Len(cs) |-> [q \in 1..Len(firsts(i)) |-> tabs[i][firsts(i)[q]].d]]
      dims == CartSeq(dimlists)
      ofdim(i, d) == SelectSeq([j \in 1..Len(tabs[i]) |-> j], LAMBDA j : tabs[i][j].d = d)
      block(dt) == LET tups == CartSeq([i \in 1..Len(cs) |-> ofdim(i, dt[i])])
                   IN [m \in 1..Len(tups) |-> [d |-> Flatten(dt), e |-> m - 1, f |-> tups[m]]]
  IN Flatten([i \in 1..Len(dims) |-> block(dims[i])])

(* positions of the product's entities in flattened order: by total dimension, stable *)
FlatOrderOf(ents, n) ==
  Flatten([t \in 1..(n + 1) |-> SelectSeq([j \in 1..Len(ents) |-> j], LAMBDA j : SumSeq(ents[j].d) = t - 1)])

RawEntities(c) ==
  CASE c.k = "s" -> Flatten([t \in 1..(c.n + 1) |->
                       LET vs == SimplexVerts(c.n, t - 1)
                       IN [i \in 1..Len(vs) |-> [d |-> <<t - 1>>, e |-> i - 1, f |-> <<>>]]])
    [] c.k = "p" -> RawProductEntities(c.cs)
    [] c.k = "f" -> LET raw == RawProductEntities(c.cs)
                        ord == FlatOrderOf(raw, c.n)
                        tot(j) == SumSeq(raw[ord[j]].d)
                    IN [j \in 1..Len(ord) |->
                          [d |-> <<tot(j)>>,
                           e |-> Cardinality({i \in 1..(j - 1) : tot(i) = tot(j)}),
                           f |-> raw[ord[j]].f]]

(* evaluated once: the cells everything else is built from *)
EntI == RawEntities(Interval)
EntT == RawEntities(Simplex(2))
EntK == RawEntities(Simplex(3))
EntQ == RawEntities(Quad)
EntH == RawEntities(Hex)
EntTI == RawEntities(ProdCell(<<Simplex(2), Interval>>))
EntII == RawEntities(ProdCell(<<Interval, Interval>>))
Entities(c) ==
  CASE c = Interval -> EntI [] c = Simplex(2) -> EntT [] c = Simplex(3) -> EntK [] c = Quad -> EntQ [] c = Hex -> EntH
    [] c = ProdCell(<<Simplex(2), Interval>>) -> EntTI [] c = ProdCell(<<Interval, Interval>>) -> EntII
    [] OTHER -> RawEntities(c)

FlatOrder(cs) == FlatOrderOf(RawProductEntities(cs), SumSeq([i \in 1..Len(cs) |-> cs[i].n]))

(* closure: for each entity the set of indices of the entities it contains (itself included) *)
RECURSIVE Subs(_), RawSubs(_)
RawSubs(c) ==
  LET ents == Entities(c)
      N == Len(ents)
  IN IF c.k = "s"
     THEN LET vs == [i \in 1..N |-> SimplexVerts(c.n, ents[i].d[1])[ents[i].e + 1]]
          IN [i \in 1..N |-> {j \in 1..N : vs[j] \subseteq vs[i]}]
     ELSE LET fs == [m \in 1..Len(c.cs) |-> Subs(c.cs[m])]
          IN [i \in 1..N |-> {j \in 1..N : \A m \in 1..Len(c.cs) : ents[j].f[m] \in fs[m][ents[i].f[m]]}]
SubI == RawSubs(Interval)
SubT == RawSubs(Simplex(2))
SubK == RawSubs(Simplex(3))
SubQ == RawSubs(Quad)
SubH == RawSubs(Hex)
Subs(c) == CASE c = Interval -> SubI [] c = Simplex(2) -> SubT [] c = Simplex(3) -> SubK [] c = Quad -> SubQ [] c = Hex -> SubH
             [] OTHER -> RawSubs(c)

CellIndex(c) == Len(Entities(c))                 \* the top entity is always last
EntDim(ent) == SumSeq(ent.d)

(* Flattening does not depend on how a hexahedron was nested. *)
NestedHex == ProdCell(<<Quad, Interval>>)
NestLemma ==
  LET a == RawProductEntities(<<Quad, Interval>>)  oa == FlatOrderOf(a, 3)
      qe == Entities(Quad)
      b == Entities(Hex)
  IN /\ Len(a) = Len(b)
     /\ \A j \in 1..Len(b) : qe[a[oa[j]].f[1]].f \o <<a[oa[j]].f[2]>> = b[j].f
EulerLemma ==
  \A c \in {Simplex(1), Simplex(2), Simplex(3), Quad, Hex, ProdCell(<<Simplex(2), Interval>>), NestedHex} :
     /\ LET es == Entities(c)
        IN SumSeq([i \in 1..Len(es) |-> IF SumSeq(es[i].d) % 2 = 0 THEN 1 ELSE -1]) = 1
     /\ \A i \in 1..CellIndex(c) : i \in Subs(c)[i] /\ \A j \in Subs(c)[i] : Subs(c)[j] \subseteq Subs(c)[i]
     /\ Subs(c)[CellIndex(c)] = 1..CellIndex(c)
=============================================================================
