---------------------------- MODULE FinatRuntime ----------------------------
(* Run-time tabulated elements: each is a promise that the caller supplies a table.                    *)
(* A behaviour builds elements one after another and asks each for its tables; the kernel has one      *)
(* argument (slot) per distinct table, and a table is identified by                                    *)
(*   variant, degree, derivative, shift of the axes, continuity, side                                  *)
(* so asking twice reuses the slot and changing any of these needs a new one.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Configs == [v : RangeOf(Focus.variants), d : RangeOf(Focus.degrees), s : RangeOf(Focus.shifts), c : BOOLEAN, r : {"", "+", "-"}]
Npts == RangeOf(Focus.npts)
Orders == RangeOf(Focus.orders)
Shapes == RangeOf(Focus.cells)      \* "interval" or a cell that is refused

VARIABLES slots, asked
vars == <<slots, asked>>
Key(cf, k) == <<cf.v, cf.d, k, cf.s, cf.c, cf.r>>
SlotOf(key) == CHOOSE i \in 1..Len(slots) : slots[i] = key
Known(key) == \E i \in 1..Len(slots) : slots[i] = key
RECURSIVE Add(_, _, _, _)
Add(sl, cf, k, o) == IF k > o THEN sl
                     ELSE Add(IF Key(cf, k) \in RangeOf(sl) THEN sl ELSE Append(sl, Key(cf, k)), cf, k + 1, o)

Init == slots = <<>> /\ asked = <<>>
Ask(cf, o, n) ==
  /\ Len(asked) < Focus.steps
  /\ slots' = Add(slots, cf, 0, o)
  /\ asked' = Append(asked, [cf |-> cf, o |-> o, n |-> n,
                             use |-> [k \in 1..(o + 1) |-> (CHOOSE i \in 1..Len(slots') : slots'[i] = Key(cf, k - 1))]])
(* the next request repeats an earlier configuration, or differs from one in a single field *)
Near(a, b) == Cardinality({f \in {"v", "d", "s", "c", "r"} : a[f] # b[f]}) <= 1
Next == \E cf \in Configs, o \in Orders, n \in Npts :
          /\ asked = <<>> \/ (\E i \in 1..Len(asked) : Near(asked[i].cf, cf))
          /\ Ask(cf, o, n)
Spec == Init /\ [][Next]_vars

NoSharing == \A i, j \in 1..Len(slots) : slots[i] = slots[j] => i = j
Agree == \A i \in 1..Len(asked) : \A k \in 1..Len(asked[i].use) : slots[asked[i].use[k]] = Key(asked[i].cf, k - 1)
(* a slot never changes meaning once given out *)
Stable == [][SubSeq(slots', 1, Len(slots)) = slots]_vars
(* the table has one axis per point index (0 points: a lone point, which has no index), then the functions *)
TableShape(n, cf) == IF n = 0 THEN <<cf.d + 1>> ELSE <<n, cf.d + 1>>
FormDegree(cf) == IF cf.c THEN 0 ELSE 1
Emit == Len(asked) = Focus.steps => PrintT("@@" \o ToJson(
          [i \in 1..Len(asked) |-> [cf |-> asked[i].cf, o |-> asked[i].o, n |-> asked[i].n, use |-> asked[i].use, shape |-> TableShape(asked[i].n, asked[i].cf),
                                    fd |-> FormDegree(asked[i].cf), nd |-> asked[i].cf.d + 1]]))
=============================================================================
