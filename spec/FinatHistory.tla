---------------------------- MODULE FinatHistory ----------------------------
(* Histories of questions put to a pool of elements that are built from one another and are asked     *)
(* about the same point sets and cells.  What an answer may depend on is the element and the          *)
(* question; the specification keeps, beside the history, which elements an earlier question may      *)
(* have primed (it reaches the parts of the element asked), so that the histories worth replaying     *)
(* are the ones where a question meets something primed by another element's, and where a question    *)
(* is repeated at the end.                                                                            *)
EXTENDS FinatCells, TLC, Json, IOUtils
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
CellOf(s) == CASE s = "wedge" -> ProdCell(<<Simplex(2), Interval>>) [] s = "square" -> ProdCell(<<Interval, Interval>>)
               [] OTHER -> CellNamed(s)
N == Len(Focus.pool)
RECURSIVE Reach(_)
Reach(i) == {i} \cup UNION {Reach(Focus.pool[i].parts[k]) : k \in 1..Len(Focus.pool[i].parts)}
ReachOf == [i \in 1..N |-> Reach(i)]
Quiet == {"maps", "perms", "dual", "interp", "equiv"}         \* questions without an entity or an order

VARIABLES hist, primed, cur, kind, over
vars == <<hist, primed, cur, kind, over>>
Init == hist = <<>> /\ primed = {} /\ cur = 0 /\ kind = "" /\ over = FALSE
Ents(i) == Entities(CellOf(Focus.pool[i].cell))
Questions(i, k) ==
  IF k \in Quiet THEN { [el |-> i, kind |-> k, order |-> 0, ent |-> 0, d |-> <<>>, e |-> 0, ps |-> 1, geo |-> 1] }
  ELSE { [el |-> i, kind |-> k, order |-> o, ent |-> m, d |-> Ents(i)[m].d, e |-> Ents(i)[m].e, ps |-> p, geo |-> g] :
           o \in 0..Focus.pool[i].order, m \in {x \in 1..Len(Ents(i)) : x >= Len(Ents(i)) - 5}, p \in 1..(IF k = "eval" THEN 3 ELSE 1),
           g \in 1..(IF Focus.pool[i].geo THEN 2 ELSE 1) }
Fresh(q) == \A k \in 1..Len(hist) : hist[k] # q
(* something this element is made of, or contains, was asked about through another element *)
Meets(i) == \E p \in primed : p[1] # i /\ ReachOf[p[1]] \cap ReachOf[i] # {}
(* the client turns to an element: one that meets what was primed, or the one it is at (to vary the question) *)
Turn == /\ Len(hist) < Focus.depth - 1 /\ cur = 0
        /\ \E i \in 1..N : (IF hist = <<>> THEN TRUE ELSE Meets(i) \/ hist[Len(hist)].el = i) /\ cur' = i
        /\ UNCHANGED <<hist, primed, kind, over>>
(* settles on the kind of question *)
Settle == cur # 0 /\ kind = "" /\ \E k \in RangeOf(Focus.pool[cur].kinds) : kind' = k /\ UNCHANGED <<hist, primed, cur, over>>
(* and asks it, never the same twice (of another order, entity, point set or geometry than before), until the first is repeated *)
Ask == /\ kind # ""
       /\ IF \A q \in Questions(cur, kind) : ~Fresh(q) THEN UNCHANGED <<hist, primed>>
          ELSE /\ \E q \in Questions(cur, kind) : Fresh(q) /\ hist' = Append(hist, q)
               /\ primed' = primed \cup ({cur} \X ReachOf[cur])
       /\ cur' = 0 /\ kind' = ""
       /\ UNCHANGED over
Again == /\ Len(hist) = Focus.depth - 1 /\ cur = 0
         /\ hist' = Append(hist, hist[1])
         /\ UNCHANGED <<primed, cur, kind, over>>
Finish == Len(hist) = Focus.depth /\ ~over /\ over' = TRUE /\ UNCHANGED <<hist, primed, cur, kind>>
Next == Turn \/ Settle \/ Ask \/ Again \/ Finish
Spec == Init /\ [][Next]_vars
ASSUME \A i \in 1..N : \A k \in 1..Len(Focus.pool[i].parts) : Focus.pool[i].parts[k] < i       \* parts come first
Sound == /\ \A k \in 1..Len(hist) : hist[k].el \in 1..N
         /\ Len(hist) = Focus.depth => hist[1] = hist[Len(hist)]
Emit == over => PrintT("@@" \o ToJson(hist))
=============================================================================
