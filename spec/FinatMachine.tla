--------------------------- MODULE FinatMachine ---------------------------
(* A client building elements: the state is a stack of element terms, the   *)
(* actions are FInAT's constructors.  TLC enumerates every program within   *)
(* the bounds of a focus (leaves, constructors, sizes), checks the laws of  *)
(* the algebra in every state, and emits each built element's abstract     *)
(* value for replay into the implementation.                                *)
EXTENDS FinatElements

Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
VARIABLES stk,      \* terms built so far, most recent last
          last,     \* last action
          nops,     \* constructors applied so far (a given prefix counts as none)
          rej       \* last action was rejected, with this reason ("" if not)
vars == <<stk, last, nops, rej>>

Ops == RangeOf(Focus.ops)
Leaves == RangeOf(Focus.leaves)
RECURSIVE NLeaves(_)
NLeaves(t) == IF t.op = "leaf" THEN 1 ELSE SumSeq([i \in 1..Len(t.args) |-> NLeaves(t.args[i])])
TotLeaves == SumSeq([i \in 1..Len(stk) |-> NLeaves(stk[i])])

Init == stk = <<>> /\ last = "init" /\ nops = 0 /\ rej = ""

PushLeaf(id) ==
  /\ rej = "" /\ TotLeaves < Focus.maxleaves /\ Len(stk) < Focus.maxstack
  /\ stk' = Append(stk, Leaf(id)) /\ last' = "leaf" /\ UNCHANGED <<nops, rej>>

PushTerm(i) ==          \* a program prefix given by the focus
  /\ rej = "" /\ Len(stk) < Focus.maxstack /\ TotLeaves + NLeaves(Focus.terms[i]) <= Focus.maxleaves
  /\ stk' = Append(stk, Focus.terms[i]) /\ last' = "prefix" /\ UNCHANGED <<nops, rej>>

(* cheap bounds, decided before an element's value is computed *)
RECURSIVE DimT(_), NdT(_)
DimT(t) == CASE t.op = "leaf" -> CellNamed(Cat[t.id].cell).n
             [] t.op = "tpe" -> SumSeq([i \in 1..Len(t.args) |-> DimT(t.args[i])])
             [] OTHER -> DimT(t.args[1])
NdT(t) == CASE t.op = "leaf" -> Cat[t.id].nd
            [] t.op = "tpe" -> ProdSeq([i \in 1..Len(t.args) |-> NdT(t.args[i])])
            [] t.op = "tfe" -> NdT(t.args[1]) * ProdSeq(t.shape)
            [] OTHER -> SumSeq([i \in 1..Len(t.args) |-> NdT(t.args[i])])

(* does the element live on an unflattened product cell?  (products of those are out of scope: *)
(* FIAT nests their dimension tuples)                                                          *)
RECURSIVE OnProduct(_)
OnProduct(t) == CASE t.op = "leaf" -> FALSE [] t.op = "flat" -> FALSE [] t.op = "tpe" -> TRUE [] OTHER -> OnProduct(t.args[1])

(* apply a constructor to the k topmost elements *)
Construct(name, k, t) ==
  /\ rej = "" /\ name \in Ops /\ nops < Focus.maxops
  /\ DimT(t) <= 3 /\ NdT(t) <= Focus.maxnd
  /\ LET v == Elem(t)
         rest == SubSeq(stk, 1, Len(stk) - k)
     IN \/ v.ok /\ stk' = Append(rest, t) /\ rej' = ""
        \/ ~v.ok /\ Focus.rejects /\ stk' = Append(rest, t) /\ rej' = v.why
  /\ last' = name /\ nops' = nops + 1

Top(k) == SubSeq(stk, Len(stk) - k + 1, Len(stk))
Tensor(k)  == Len(stk) >= k /\ (\A i \in 1..k : ~OnProduct(Top(k)[i])) /\ Construct("tpe", k, Op("tpe", Top(k)))
FlattenIt  == Len(stk) >= 1 /\ Last(stk).op # "flat" /\ Construct("flat", 1, Op("flat", Top(1)))
Enrich(k)  == Len(stk) >= k /\ Construct("enr", k, Op("enr", Top(k)))
Mix(k)     == Len(stk) >= k /\ Construct("mix", k, Op("mix", Top(k)))
HDiv       == Len(stk) >= 1 /\ Construct("hdiv", 1, Op("hdiv", Top(1)))
HCurl      == Len(stk) >= 1 /\ Construct("hcurl", 1, Op("hcurl", Top(1)))
Tensorise(s, tr) == Len(stk) >= 1 /\ Construct("tfe", 1, Tfe(Last(stk), s, tr))
Break      == Len(stk) >= 1 /\ Last(stk).op # "brk" /\ Construct("brk", 1, Op("brk", Top(1)))

Next ==
  \/ \E id \in Leaves : PushLeaf(id)
  \/ \E i \in 1..Len(Focus.terms) : PushTerm(i)
  \/ \E k \in RangeOf(Focus.tpek) : Tensor(k)
  \/ FlattenIt \/ HDiv \/ HCurl \/ Break
  \/ \E k \in RangeOf(Focus.sumk) : Enrich(k) \/ Mix(k)
  \/ \E i \in 1..Len(Focus.shapes) : \E tr \in {TRUE, FALSE} : Tensorise(Focus.shapes[i], tr)
Spec == Init /\ [][Next]_vars

(* --------------------------------------------------------- laws --------- *)
Ready == Len(stk) = 1 /\ rej = ""
V == Elem(stk[1])

Partition(v) == LET s == Flatten(v.ent) IN IsPermOf(s, v.nd)
Shapes(v) == ProdSeq(v.ish) = v.nd /\ Len(v.bas) = v.nd /\ \A d \in 1..v.nd : Len(v.bas[d]) = ProdSeq(v.vsh)
NonZero(v) == \A d \in 1..v.nd : \E c \in 1..Len(v.bas[d]) : v.bas[d][c] # <<>>
Slots(v) == \A q \in 1..Len(v.lay) :
   /\ SumSeq([i \in 1..Len(v.lay[q].slots) |-> v.lay[q].slots[i].d]) = v.cell.n
   /\ \A i \in 1..Len(v.lay[q].slots) :
        v.lay[q].slots[i].off = SumSeq([j \in 1..(i - 1) |-> v.lay[q].slots[j].d])
   /\ Len(v.lay[q].ent) = CellIndex(v.cell)
ClosureLaw(v) ==
  LET cl == ClosureDofs(v)  N == CellIndex(v.cell)
  IN cl[N] = Iota(v.nd) /\ \A i \in 1..N : RangeOf(v.ent[i]) \subseteq RangeOf(cl[i])
PermLaw(v) == v.pav =>
  \A e \in 1..Len(v.ent) :
     /\ Len(v.perm[e]) >= 1
     /\ \A o \in 1..Len(v.perm[e]) : IsPermOf(v.perm[e][o].p, Len(v.ent[e]))
     /\ v.perm[e][1].p = Iota(Len(v.ent[e])) /\ \A q \in 1..Len(v.perm[e][1].o) : v.perm[e][1].o[q] = 0
(* the intrinsic reorientations of a product (axes kept in place) form a group *)
PermGroupLaw(v) == v.pav /\ v.cls = "tpe" =>
  \A e \in 1..Len(v.ent) :
     LET ps == {v.perm[e][o].p : o \in {q \in 1..Len(v.perm[e]) : v.perm[e][q].o[1] = 0}}
     IN \A p, q \in ps : Compose(p, q) \in ps
RestrictLaw(v) ==
  LET i == KeptDofs(v, <<"interior">>)  f == KeptDofs(v, <<"facet">>)
      ri == RangeOf(Flatten(i))  rf == RangeOf(Flatten(f))
      rv == RangeOf(Flatten(KeptDofs(v, <<"facet", "vertex">>)))
  IN /\ ri \cup rf = 0..(v.nd - 1) /\ ri \cap rf = {}
     /\ rv = RangeOf(Flatten(KeptDofs(v, <<"vertex">>)))
     /\ KeptDofs(v, <<"interior", "facet">>) = [k \in 1..Len(v.ent) |-> <<>>]
SupportLaw(v) ==       \* functions attached to an entity's closure complement... every function is supported on the cell
  SupportDofs(v)[CellIndex(v.cell)] = Iota(v.nd)
WrapLaw(v) ==
  /\ v.cls = "hdiv" => v.fd = v.cell.n - 1 /\ v.vsh = <<v.cell.n>>
  /\ v.cls = "hcurl" => v.fd = 1 /\ v.vsh = <<v.cell.n>>
(* the dual of a basis function applies its leaves' duals to the components it lives in; that this is *)
(* biorthogonal to the basis needs: no two functions share their leaf functions in the same           *)
(* components, and every function carries each leaf component exactly once                             *)
Symbols(x, from) == [s \in 1..((Len(x) - 2) \div 2) |-> x[2 * s + from]]
DualLaw(v) == v.du =>
  /\ Cardinality({[c \in 1..Len(v.bas[d]) |-> IF v.bas[d][c] = <<>> THEN <<>> ELSE Symbols(v.bas[d][c], 1)] : d \in 1..v.nd}) = v.nd
  /\ \A d \in 1..v.nd :
       LET on == {c \in 1..Len(v.bas[d]) : v.bas[d][c] # <<>>}
           l == v.bas[d][CHOOSE c \in on : TRUE][1]
           nleafc == ProdSeq([s \in 1..Len(v.lay[l].slots) |-> ProdSeq(Cat[v.lay[l].slots[s].l].vsh)])
       IN Cardinality({Symbols(v.bas[d][c], 2) : c \in on}) = nleafc /\ Cardinality(on) = nleafc
(* the subdivision of a product refines nothing but its factors; wrappers change none *)
SplitLaw(v) ==
  \/ v.cx \in {Unsure, NoComplex}
  \/ v.cell.k = "p" /\ Len(v.cx) >= Len(v.cell.cs)
  \/ v.cell.k # "p" /\ Len(v.cx) \in 1..v.cell.n      \* a flattened product may hold a whole quadrilateral as one factor
Laws == Ready => LET v == V IN
   /\ Partition(v) /\ Shapes(v) /\ NonZero(v) /\ Slots(v) /\ ClosureLaw(v) /\ PermLaw(v) /\ PermGroupLaw(v) /\ RestrictLaw(v) /\ WrapLaw(v) /\ DualLaw(v) /\ SplitLaw(v)
   /\ (Focus.support => SupportLaw(v))

(* an element once built is never changed by building others *)
Persistent == [][Len(stk') > Len(stk) => SubSeq(stk', 1, Len(stk)) = stk]_vars

(* ------------------------------------------------------ emission -------- *)
Expect(v) ==
  [cls |-> v.cls, nd |-> v.nd, ish |-> v.ish, vsh |-> v.vsh, fd |-> v.fd, deg |-> v.deg, map |-> v.map,
   cx |-> v.cx, cell |-> v.cell, ents |-> [i \in 1..CellIndex(v.cell) |-> LET x == Entities(v.cell)[i] IN [d |-> x.d, e |-> x.e]],
   ent |-> v.ent, clo |-> ClosureDofs(v), lay |-> v.lay, bas |-> v.bas,
   perm |-> v.perm, pav |-> v.pav, du |-> v.du, feq |-> v.feq,
   sup |-> IF Focus.support THEN SupportDofs(v) ELSE <<>>,
   kept |-> [i \in 1..Len(Focus.doms) |-> [doms |-> Focus.doms[i], ent |-> KeptDofs(v, Focus.doms[i])]]]
Wanted == Len(stk) = 1 /\ (Focus.emit = <<>> \/ last \in RangeOf(Focus.emit))
Emit ==
  Wanted => PrintT("@@" \o ToJson([term |-> stk[1], last |-> last, rej |-> rej,
                                   val |-> IF rej = "" THEN Expect(V) ELSE [cls |-> "rejected"]]))
=============================================================================
