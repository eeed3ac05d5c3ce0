--------------------------- MODULE FinatQuadElem ---------------------------
(* Quadrature elements: what each query to one may answer.                  *)
EXTENDS FinatUtil, TLC, Json, IOUtils
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)       \* [rules : Seq([id, dims (points per index)]), wraps]
VARIABLES rule, wrap, query, entity, order, factor
vars == <<rule, wrap, query, entity, order, factor>>
(* the same points up to rounding, given as the same structure, are the element's own *)
Own == {"own", "rebuilt", "rounding"}
Foreign == {"moved", "onemoved", "fewer", "reversed", "single", "unknown", "otherrule"}
(* deviations in one factor of the points: the factor is part of the state *)
ByFactor == {"moved", "onemoved", "fewer", "otherrule"}
Entities == {"none", "cell", "facet", "vertex"}
Init == /\ rule \in 1..Len(Focus.rules) /\ wrap \in RangeOf(Focus.wraps)
        /\ query \in Own \cup Foreign /\ entity \in Entities /\ order \in 0..2
        /\ factor \in 1..Len(Focus.rules[rule].dims) /\ (query \notin ByFactor => factor = 1)
Spec == Init /\ [][FALSE]_vars
R == Focus.rules[rule]
NPts == ProdSeq(R.dims)
(* reversing a single point, or dropping to a smaller set of one, does not give other points *)
Vacuous == (query = "reversed" /\ NPts = 1) \/ (query = "fewer" /\ R.dims[factor] = 1) \/ (query = "single" /\ NPts = 1)
Answer == IF query \in Own /\ entity \in {"none", "cell"} /\ order = 0 THEN "identity" ELSE "error"
(* every proper deviation alone is enough for an error; the element's functions are its points *)
Laws == /\ (entity \in {"facet", "vertex"} => Answer = "error") /\ (order > 0 => Answer = "error")
        /\ (query \in Foreign => Answer = "error") /\ (Answer = "identity" => query \in Own)
        /\ Own \cap Foreign = {}
(* the identity, row per point, column per function, both in row-major order *)
Identity == [q \in 1..NPts |-> [r \in 1..NPts |-> IF q = r THEN 1 ELSE 0]]
IdLaw == \A q \in 1..NPts : SumSeq(Identity[q]) = 1
Emit == ~Vacuous => PrintT("@@" \o ToJson([rule |-> R.id, dims |-> R.dims, wrap |-> wrap, query |-> query, factor |-> factor, entity |-> entity, order |-> order,
                                            answer |-> Answer]))
=============================================================================
