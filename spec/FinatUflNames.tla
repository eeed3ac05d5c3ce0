---------------------------- MODULE FinatUflNames ----------------------------
(* Every description a user can give: a name, a cell, an order and a form degree. *)
EXTENDS FinatUflTable, Json, IOUtils
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
Names == (UNION {{Table[i].f, Table[i].s} : i \in 1..Len(Table)} \ {""}) \cup DOMAIN Renames \cup DOMAIN Always \cup DOMAIN WithForm \cup RangeOf(Focus.unknown)
Forms(x) == IF x \in DOMAIN Always \cup DOMAIN WithForm THEN {NoForm} \cup -1..4 ELSE {NoForm, 1}
VARIABLES q
Init == q = [name |-> "", tuple |-> FALSE, ok |-> TRUE]
Ask(x, c, o, k) ==
  LET d == Describe(x, c.n, c.d, o, k)
  IN q' = [name |-> x, tuple |-> FALSE, cell |-> c, o |-> o, k |-> k, ok |-> d.ok, want |-> d]
(* a degree for each direction: in range exactly when every entry is *)
Plain == Names \ (DOMAIN Always)
Directions(x, c, os) ==
  LET ds == TLCEval([i \in 1..Len(os) |-> Describe(x, c.n, c.d, os[i], NoForm)])
      bad == {i \in 1..Len(os) : ~ds[i].ok}
      rank == [i \in 1..Len(os) |-> IF ds[i].ok THEN <<ds[i].sub, ds[i].sup>> ELSE <<0, 0>>]
      w == IF bad = {} THEN [ds[1] EXCEPT !.sub = MinOf({rank[i][1] : i \in 1..Len(os)}), !.sup = MaxOf({rank[i][2] : i \in 1..Len(os)})]
           ELSE ds[MinOf(bad)]
  IN q' = [name |-> x, tuple |-> TRUE, cell |-> c, o |-> os, k |-> NoForm, ok |-> w.ok, want |-> IF w.ok THEN [w EXCEPT !.deg = os] ELSE w]
(* discontinuous families on cubes compare the degree with a number *)
Comparable(x, c) == ~((c.n = "product" \/ c.n \in Cubes \ Simplices) /\ ByName(x, c.d, 1, NoForm).f \in {"Discontinuous Lagrange", "Discontinuous Lagrange L2"})
Next == \/ q.name = "" /\ \E x \in Names, i \in 1..Len(Focus.cells), o \in RangeOf(Focus.orders) : \E k \in Forms(x) : Ask(x, Focus.cells[i], o, k)
        \/ q.name = "" /\ \E x \in Plain, i \in 1..Len(Focus.cells), os \in RangeOf(Focus.tuples) :
             Comparable(x, Focus.cells[i]) /\ Directions(x, Focus.cells[i], os)
Spec == Init /\ [][Next]_q
Emit == q.name # "" => PrintT("@@" \o ToJson(q))
(* resolving a canonical name gives itself; degrees stay in range; the embedded degrees bracket the degree *)
Sound == (q.name # "" /\ q.ok) => IF q.tuple THEN q.want.sub <= q.want.sup ELSE
  /\ LET again == Describe(q.want.fam, q.cell.n, q.cell.d, q.want.deg, NoForm)
     IN again.ok /\ [again EXCEPT !.short = ""] = [q.want EXCEPT !.short = ""]
  /\ q.want.sub <= q.want.deg /\ q.want.deg <= q.want.sup
ASSUME UniqueNames /\ AliasesResolve /\ SpaceFitsMap
=============================================================================
