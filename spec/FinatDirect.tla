----------------------------- MODULE FinatDirect -----------------------------
(* Direct serendipity elements on convex quadrilaterals: where each degree of freedom sits, as a      *)
(* combination of the vertices with integer weights over a denominator; what a complete nodal basis   *)
(* is; and histories of evaluations of several elements on several quadrilaterals.                    *)
EXTENDS FinatCells, TLC, Json, IOUtils
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
(* edges of the quadrilateral by their vertices, from the cell complex *)
VertsOf(i) == SortInts({Entities(Quad)[j].e : j \in {k \in Subs(Quad)[i] : EntDim(Entities(Quad)[k]) = 0}})
EdgeIdx == SelectSeq([i \in 1..Len(Entities(Quad)) |-> i], LAMBDA i : EntDim(Entities(Quad)[i]) = 1)
EdgeVerts == [e \in 1..4 |-> VertsOf(EdgeIdx[e])]

Node(w, den) == [w |-> w, den |-> den]
Unit(v) == [i \in 1..4 |-> IF i = v + 1 THEN 1 ELSE 0]
VertexNode(v) == Node(Unit(v), 1)
EdgeNode(r, e, i) == Node([k \in 1..4 |-> (r - i) * Unit(EdgeVerts[e + 1][1])[k] + i * Unit(EdgeVerts[e + 1][2])[k]], r)
(* interior: the centre of the vertices (degree 4), or a triangular lattice in the corner of vertex 0 *)
Lattice(r) == Flatten([p \in 1..(r - 3) |-> LET i == r - 4 - (p - 1) IN
                 [q \in 1..(r - 4 - i + 1) |-> LET j == r - 4 - i - (q - 1)  a == 1 + j  b == 1 + (r - 4 - i - j) IN <<a, b>>]])
Inner(r) == IF r < 4 THEN <<>> ELSE IF r = 4 THEN <<Node(<<1, 1, 1, 1>>, 4)>>
            ELSE [m \in 1..Len(Lattice(r)) |-> LET a == Lattice(r)[m][1]  b == Lattice(r)[m][2]
                                               IN Node(<<r - 2 - a - b, a, b, 0>>, r - 2)]
Nodes(r) == [v \in 1..4 |-> VertexNode(v - 1)] \o Flatten([e \in 1..4 |-> [i \in 1..(r - 1) |-> EdgeNode(r, e - 1, i)]]) \o Inner(r)
(* entities' functions, in the order of the nodes *)
Attached(r) == [i \in 1..9 |-> IF i <= 4 THEN <<i - 1>>
                               ELSE IF i <= 8 THEN [k \in 1..(r - 1) |-> 4 + (i - 5) * (r - 1) + k - 1]
                               ELSE [k \in 1..Len(Inner(r)) |-> 4 + 4 * (r - 1) + k - 1]]
Monomials(r) == Flatten([t \in 1..(r + 1) |-> Mis(2, t - 1)])
Count(r) == Len(Nodes(r))

(* ------------------------------------------------------------ laws *)
ASSUME EdgeVerts = << <<0, 1>>, <<2, 3>>, <<0, 2>>, <<1, 3>> >>
ASSUME \A r \in 1..9 :
  LET N == Nodes(r)
  IN /\ Count(r) = (IF r = 1 THEN 4 ELSE ((r + 1) * (r + 2)) \div 2 + 2)
     /\ Count(r) >= Len(Monomials(r)) + 1                       \* room for the polynomials of degree r, and more
     /\ \A i, j \in 1..Count(r) : i # j => [k \in 1..4 |-> N[i].w[k] * N[j].den] # [k \in 1..4 |-> N[j].w[k] * N[i].den]
     /\ \A i \in 1..Count(r) : SumSeq(N[i].w) = N[i].den /\ \A k \in 1..4 : N[i].w[k] >= 0
     (* the trace on an edge, a polynomial of degree r, is fixed by the nodes on its closure; one node per function *)
     /\ \A e \in 1..4 : Cardinality({i \in 1..Count(r) : \A k \in 1..4 : N[i].w[k] # 0 => (k - 1) \in RangeOf(EdgeVerts[e])}) = r + 1
     (* interior nodes are unisolvent for the bubble times polynomials of degree r - 4 *)
     /\ Len(Inner(r)) = (IF r < 4 THEN 0 ELSE ((r - 3) * (r - 2)) \div 2)
     /\ Flatten([i \in 1..9 |-> Attached(r)[i]]) = Iota(Count(r))
     /\ \A i \in 5..8, k \in 1..4 : \A q \in 1..(r - 1) : N[Attached(r)[i][q] + 1].w[k] # 0 => (k - 1) \in RangeOf(EdgeVerts[i - 4])

(* ------------------------------------------------------------ quadrilaterals and histories *)
VARIABLES quads, hist, seen, over
vars == <<quads, hist, seen, over>>
Corner(q, a, b, c) == (q[b][1] - q[a][1]) * (q[c][2] - q[a][2]) - (q[c][1] - q[a][1]) * (q[b][2] - q[a][2])
Corners(q) == <<Corner(q, 1, 2, 3), Corner(q, 2, 4, 1), Corner(q, 4, 3, 2), Corner(q, 3, 1, 4)>>
Convex(q) == LET c == Corners(q) IN (\A i \in 1..4 : c[i] >= 3) \/ (\A i \in 1..4 : c[i] <= -3)
Ref == << <<0, 0>>, <<0, 4>>, <<4, 0>>, <<4, 4>> >>
Done == Len(quads) = 2 /\ Len(quads[2]) = 4
Init == quads = << <<>> >> /\ hist = <<>> /\ seen = {} /\ over = FALSE
(* place the vertices of two quadrilaterals one by one; the second is mirrored, and the first is often a square or a trapezium *)
PlaceVertex ==
  /\ ~Done
  /\ LET n == Len(quads)  k == Len(quads[n]) + 1
     IN IF k = 5 THEN n = 1 /\ quads' = Append(quads, <<>>) /\ UNCHANGED <<hist, seen, over>>
        ELSE \E dx, dy \in -1..1 :
               LET p == <<Ref[k][1] + dx * (IF Focus.plain > n THEN 0 ELSE 1), Ref[k][2] + dy>>
                   m == IF n = 2 THEN <<p[2], p[1]>> ELSE p
               IN /\ quads' = [quads EXCEPT ![n] = Append(@, m)]
                  /\ (k = 4 => Convex(quads'[n]))
                  /\ UNCHANGED <<hist, seen, over>>
EntitiesAsked == { <<2, 0>> } \cup { <<1, e>> : e \in 0..3 } \cup { <<0, v>> : v \in 0..3 }
Ask == /\ Done /\ Len(hist) < Focus.depth
       /\ \E i \in 1..Len(Focus.degrees), q \in 1..2, o \in 0..Focus.order, ent \in EntitiesAsked :
            /\ Focus.degrees[i] * (o + 1) <= Focus.cost
            /\ hist' = Append(hist, [el |-> i, r |-> Focus.degrees[i], quad |-> q, order |-> o, d |-> ent[1], e |-> ent[2]])
            /\ seen' = seen \cup {<<i, q>>}
       /\ UNCHANGED <<quads, over>>
Finish == Len(hist) = Focus.depth /\ ~over /\ over' = TRUE /\ UNCHANGED <<quads, hist, seen>>
Next == PlaceVertex \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars
Sound == /\ Len(quads) <= 2
         /\ Done => Convex(quads[1]) /\ Convex(quads[2])
Emit == /\ (quads = << <<>> >>) => PrintT("@@" \o ToJson([layout |-> TRUE, degs |-> [r \in 1..9 |->
              [nodes |-> Nodes(r), att |-> Attached(r), mono |-> Monomials(r)]], edges |-> EdgeVerts]))
        /\ over => PrintT("@@" \o ToJson([layout |-> FALSE, quads |-> quads, hist |-> hist]))
=============================================================================
