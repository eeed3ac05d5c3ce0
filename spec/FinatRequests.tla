--------------------------- MODULE FinatRequests ---------------------------
(* Which requests to an element are well formed.  A request is a query (evaluate at a point set,       *)
(* evaluate at a symbolic point) naming an entity and supplying points, or the construction of a       *)
(* mapped or quadrature element.  Anything not well formed is refused.                                 *)
EXTENDS FinatCells, TLC, Json, IOUtils
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
CellOf(s) == CASE s = "wedge" -> ProdCell(<<Simplex(2), Interval>>) [] s = "square" -> ProdCell(<<Interval, Interval>>)
               [] s = "cube" -> ProdCell(<<Interval, Interval, Interval>>) [] OTHER -> CellNamed(s)

(* offered mapped and direct families: cells, and degrees where the family has several *)
AnyDeg == {-99}
Offered ==
  [Morley |-> [c |-> {"triangle"}, d |-> AnyDeg], Hermite |-> [c |-> {"interval", "triangle", "tetrahedron"}, d |-> AnyDeg],
   Bell |-> [c |-> {"triangle"}, d |-> AnyDeg], Argyris |-> [c |-> {"triangle"}, d |-> 5..9],
   HsiehCloughTocher |-> [c |-> {"triangle"}, d |-> 3..9], ReducedHsiehCloughTocher |-> [c |-> {"triangle"}, d |-> AnyDeg],
   QuadraticPowellSabin6 |-> [c |-> {"triangle"}, d |-> AnyDeg], QuadraticPowellSabin12 |-> [c |-> {"triangle"}, d |-> AnyDeg],
   MardalTaiWinther |-> [c |-> {"triangle"}, d |-> {3}], ArnoldWinther |-> [c |-> {"triangle"}, d |-> {3}],
   ArnoldWintherNC |-> [c |-> {"triangle"}, d |-> {2}], HuZhang |-> [c |-> {"triangle"}, d |-> 3..9],
   ArnoldQin |-> [c |-> {"triangle"}, d |-> {2}], ReducedArnoldQin |-> [c |-> {"triangle"}, d |-> {2}],
   BernardiRaugel |-> [c |-> {"triangle", "tetrahedron"}, d |-> {0, 1, 2}], BernardiRaugelBubble |-> [c |-> {"triangle", "tetrahedron"}, d |-> AnyDeg],
   AlfeldSorokina |-> [c |-> {"triangle", "tetrahedron"}, d |-> {2}], ChristiansenHu |-> [c |-> {"triangle", "tetrahedron"}, d |-> {1}],
   JohnsonMercier |-> [c |-> {"triangle", "tetrahedron"}, d |-> {1}],
   GuzmanNeilanFirstKindH1 |-> [c |-> {"triangle", "tetrahedron"}, d |-> {0, 1, 2}],
   GuzmanNeilanSecondKindH1 |-> [c |-> {"triangle", "tetrahedron"}, d |-> {0, 1, 2}],
   GuzmanNeilanBubble |-> [c |-> {"triangle", "tetrahedron"}, d |-> AnyDeg], GuzmanNeilanH1div |-> [c |-> {"triangle", "tetrahedron"}, d |-> AnyDeg],
   DirectSerendipity |-> [c |-> {"quadrilateral"}, d |-> 1..9]]
(* families raising the degree to the dimension of the cell stop below it *)
UpToDim == {"BernardiRaugel", "GuzmanNeilanFirstKindH1", "GuzmanNeilanSecondKindH1"}
MappedCells == {"interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "wedge"}
MakeOk(f, c, d) == /\ c \in Offered[f].c /\ (Offered[f].d = AnyDeg \/ d \in Offered[f].d)
                   /\ (f \in UpToDim => d < CellOf(c).n)

VARIABLES req
vars == <<req>>
(* evaluation *)
Dims(c) == IF c.k = "p" THEN { <<i, j>> : i \in -1..3, j \in -1..2 } \cup { <<i, j, k>> : i, j, k \in 0..1 } \cup {<<c.n>>, <<0>>}
           ELSE { <<i>> : i \in -1..4 } \cup {<<1, 1>>, <<2, 1>>}
Exists(c, d, e) == \E i \in 1..CellIndex(c) : Entities(c)[i].d = d /\ Entities(c)[i].e = e
Eval(i, what) ==
  LET x == Focus.elements[i]  c == CellOf(x.cell)
  IN \E pd \in 0..4, geo \in BOOLEAN, shape \in (IF what = "point" THEN {"vector", "scalar", "matrix", "number"} ELSE {"set", "single", "tensor"}) :
       /\ geo \/ x.geo            \* only mapped elements care whether geometry is supplied
       /\ shape = "tensor" => pd \in 2..4
       /\ \/ \E d \in Dims(c), e \in {-1, 0, 1, 2, 3, 4, 6, 8, 12, 40} :
               (* one deviation at a time, or any entity with the right number of coordinates *)
               /\ (e = 0 \/ pd = SumSeq(d))
               /\ req' = [kind |-> what, el |-> i, none |-> FALSE, d |-> d, e |-> e, pd |-> pd, geo |-> geo, shape |-> shape,
                          ok |-> /\ Exists(c, d, e) /\ pd = SumSeq(d) /\ (x.geo => geo) /\ shape \in {"vector", "set", "single", "tensor"}
                                 /\ (x.only = "cell" => EntDim([d |-> d]) = c.n) /\ (x.only = "facet" => EntDim([d |-> d]) = c.n - 1)
                                 /\ ~(what = "point" /\ ~x.point)]
          \/ req' = [kind |-> what, el |-> i, none |-> TRUE, d |-> <<>>, e |-> 0, pd |-> pd, geo |-> geo, shape |-> shape,
                     ok |-> pd = c.n /\ (x.geo => geo) /\ shape \in {"vector", "set", "single", "tensor"} /\ x.only # "facet" /\ ~(what = "point" /\ ~x.point)]
Make == \E f \in DOMAIN Offered, c \in MappedCells, d \in 0..7 :
          /\ c = "tetrahedron" => d <= 3
          /\ req' = [kind |-> "make", f |-> f, c |-> c, d |-> d, ok |-> MakeOk(f, c, d)]
RuleCells == {"interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "square", "wedge", "cube"}
MakeQuad == \E c \in RuleCells, rd \in RuleCells \cup {"none", "points", "element"} :
              req' = [kind |-> "quad", c |-> c, rule |-> rd, ok |-> rd \in RuleCells /\ CellOf(rd).n = CellOf(c).n]
Init == req = [kind |-> "init"]
Next == req.kind = "init" /\ (Make \/ MakeQuad \/ (\E i \in 1..Len(Focus.elements) : Eval(i, "eval") \/ Eval(i, "point")))
Spec == Init /\ [][Next]_vars
(* every entity of every cell can be asked for, and exactly those *)
Sound == req.kind = "eval" /\ req.ok /\ ~req.none =>
           LET c == CellOf(Focus.elements[req.el].cell)
           IN /\ req.e >= 0 /\ req.e < CellIndex(c) /\ SumSeq(req.d) <= c.n /\ req.pd = SumSeq(req.d)
              /\ (c.k = "p" => Len(req.d) = Len(c.cs)) /\ (c.k # "p" => Len(req.d) = 1)
Emit == req.kind # "init" => PrintT("@@" \o ToJson(req))
=============================================================================
