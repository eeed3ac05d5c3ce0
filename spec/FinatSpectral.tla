--------------------------- MODULE FinatSpectral ---------------------------
(* Collocation.  A client evaluates products of line elements on products of *)
(* point sets, and quadrature elements on all kinds of point sets; the       *)
(* specification says which factors collapse to the identity, which queries  *)
(* are refused, and how the basis is indexed.                                *)
EXTENDS FinatUtil, TLC, Json, IOUtils

Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
(* kind = "spectral": elements [fam, cell, k, nd], point sets [label, m];                         *)
(* kind = "quadrature": rules [cell, deg, n (points per index)], queries                         *)
VARIABLES els,      \* factors of the element, chosen one at a time
          pts,      \* point set per factor
          ents,     \* per factor: 0 the cell, 1.. a proper sub-entity (of the dimension of the points)
          order,    \* derivative order per factor
          done
vars == <<els, pts, ents, order, done>>

IsSpectral(f) == f.fam \in {"GL", "GLL"}
(* the nodes of GL(k) are the k+1 Gauss-Legendre points, those of GLL(k) the k+1 Gauss-Lobatto ones *)
Matches(f, p) == f.cell = "I" /\ f.fam = p.label /\ p.m = f.k + 1
Collapses(f, p, e) == e = 0 /\ Matches(f, p)
(* a point set lies on an entity of the dimension it was made for *)
Fits(f, p, e) == IF f.cell = "I" THEN (e = 0) = (p.label # "point") ELSE e > 0 /\ p.label # "point"

Init == els = <<>> /\ pts = <<>> /\ ents = <<>> /\ order = <<>> /\ done = FALSE
AddFactor(f, p, e, o) ==
  /\ ~done /\ Len(els) < Focus.maxfactors /\ Fits(f, p, e)
  /\ (Len(els) > 0 => f.cell = "I" /\ els[1].cell = "I")
  /\ els' = Append(els, f) /\ pts' = Append(pts, p) /\ ents' = Append(ents, e) /\ order' = Append(order, o)
  /\ UNCHANGED done
Evaluate == ~done /\ Len(els) > 0 /\ done' = TRUE /\ UNCHANGED <<els, pts, ents, order>>
Next == Evaluate \/ \E f \in RangeOf(Focus.els), p \in RangeOf(Focus.pts), e \in RangeOf(Focus.ents), o \in RangeOf(Focus.orders) :
                       AddFactor(f, p, e, o)
Spec == Init /\ [][Next]_vars

Deltas == [i \in 1..Len(els) |-> order[i] = 0 /\ Collapses(els[i], pts[i], ents[i])]
(* the value where every factor collapses is the identity: entry (points q, functions r) is 1 iff q = r *)
AllDelta == \A i \in 1..Len(els) : Deltas[i]
Sizes == [i \in 1..Len(els) |-> [p |-> pts[i].m, n |-> els[i].nd]]
Laws == done => /\ (AllDelta => \A i \in 1..Len(els) : Sizes[i].p = Sizes[i].n)      \* the identity is square
                /\ \A i \in 1..Len(els) : Deltas[i] => IsSpectral(els[i])
Emit == done => PrintT("@@" \o ToJson([els |-> els, pts |-> pts, ents |-> ents, order |-> order, deltas |-> Deltas, all |-> AllDelta]))
=============================================================================
