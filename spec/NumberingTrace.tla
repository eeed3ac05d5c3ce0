-------------------------- MODULE NumberingTrace --------------------------
(* Numberings recorded from the implementation, judged against the laws of  *)
(* a degree-of-freedom numbering: one recorded element per step.            *)
EXTENDS FinatCells, TLC, Json, IOUtils

Trace == JsonDeserialize(IOEnv.FINAT_TRACE)
VARIABLE i
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Why(r) ==
  LET c == CellNamed(r.cell)
      N == CellIndex(c)
      subs == Subs(c)
      all == Flatten(r.ent)
  IN IF r.keys # N \/ Len(r.ent) # N THEN "entities do not match the cell"
     ELSE IF Len(all) # r.nd \/ RangeOf(all) # 0..(r.nd - 1) THEN "degrees of freedom are not 0..N-1, each once"
     ELSE IF ProdSeq(r.ish) # r.nd THEN "index shape does not have N entries"
     ELSE IF \E e \in 1..N : r.clo[e] # SortInts(UNION {RangeOf(r.ent[j]) : j \in subs[e]})
          THEN "closure is not the sorted union of the sub-entities"
     ELSE ""
Judge == i > 0 => LET w == Why(Trace[i]) IN w # "" => PrintT("@@" \o ToJson([i |-> i, why |-> w]))
=============================================================================
