--------------------------- MODULE FinatElements ---------------------------
(* What each element constructor of FInAT means.                            *)
(*                                                                          *)
(* An element term is built from catalogue leaves; Elem(t) is its abstract  *)
(* value:                                                                   *)
(*   cell   reference cell          nd    number of basis functions         *)
(*   ish    index shape             vsh   value shape                       *)
(*   ent    per cell entity, the DoFs attached to it, in order              *)
(*   fd     form degree (-1 unknown)   deg   degree tree    map  mapping    *)
(*   lay    layouts: the leaf slots of a product function: which leaf, at   *)
(*          which coordinate offset, and the leaf entity for each entity    *)
(*   bas    symbolic basis: bas[dof][comp] is <<>> (zero) or                *)
(*          <<layout, sign, leafdof, leafcomp, leafdof, leafcomp, ...>>     *)
(*   perm   per entity, the orientations and their DoF permutations         *)
(*   pav/du/feq  whether permutations / dual basis / FIAT equivalent exist  *)
EXTENDS FinatCells, TLC, Json, IOUtils

Cat == JsonDeserialize(IOEnv.FINAT_CATALOG)    \* leaf facts, from FIAT only
WithPerms == IOEnv.FINAT_PERMS = "yes"         \* whether this exploration follows orientations

NoneFd == -1
TupleFd == -2       \* tensor-valued leaves carry a pair of form degrees; composites of those are left unspecified
Scalar(n) == [s |-> TRUE, n |-> n, c |-> <<>>]
TupleDeg(c) == [s |-> FALSE, n |-> 0, c |-> c]
BadDeg == Scalar(-99)

Leaf(id) == [op |-> "leaf", id |-> id, args |-> <<>>, shape |-> <<>>, tr |-> FALSE]
Op(op, args) == [op |-> op, id |-> "", args |-> args, shape |-> <<>>, tr |-> FALSE]
Tfe(a, shape, tr) == [op |-> "tfe", id |-> "", args |-> <<a>>, shape |-> shape, tr |-> tr]

Reject(why) == [ok |-> FALSE, why |-> why]
NComp(e) == ProdSeq(e.vsh)

(* ------------------------------------------------------- subdivision ---- *)
(* An element's complex is its cell, each factor split as the functions need: one name of a split *)
(* per factor.  A sum lives on the finest of its parts' complexes and has none when no part's is. *)
Unsure == << "?" >>
NoComplex == << "none" >>
JoinSplits(xs) == IF Unsure \in RangeOf(xs) THEN Unsure ELSE IF NoComplex \in RangeOf(xs) THEN NoComplex ELSE Flatten(xs)
FinestSplit(xs) ==
  LET X == RangeOf(xs)
      coarser(x, y) == \A k \in 1..Len(x) : x[k] = y[k] \/ x[k] = ""
      far(x, y) == \A k \in 1..Len(x) : x[k] = "" /\ y[k] # ""
      plain(x) == \A k \in 1..Len(x) : x[k] = ""
      clash == \E x \in X, y \in X : \E k \in 1..Len(x) : x[k] # y[k] /\ x[k] # "" /\ y[k] # ""
      tops == {x \in X : \A y \in X : coarser(y, x)}
  IN IF Unsure \in X THEN Unsure ELSE IF NoComplex \in X THEN NoComplex
     ELSE IF \A x \in X : plain(x) THEN xs[1]
     ELSE IF \E x \in X, y \in X : Len(x) # Len(y) THEN Unsure          \* a serendipity cell beside a product of lines
     ELSE IF Cardinality(X) = 1 THEN xs[1]
     ELSE IF clash THEN Unsure                                             \* two splits of one cell: FIAT may or may not nest them
     ELSE IF tops = {} THEN NoComplex
     ELSE LET t == CHOOSE x \in tops : TRUE IN
          IF \A y \in X : y = t \/ far(y, t) THEN t ELSE Unsure          \* FIAT compares products of cells factor by factor, strictly

(* ------------------------------------------------------------ leaves ---- *)
LeafElem(id) ==
  LET c == Cat[id]
      cell == CellNamed(c.cell)
      nc == ProdSeq(c.vsh)
  IN [ok |-> TRUE, cls |-> c.cls, cell |-> cell, nd |-> c.nd, ish |-> c.ish, vsh |-> c.vsh, ent |-> c.ent,
      fd |-> c.fd, deg |-> Scalar(c.deg), map |-> c.map,
      lay |-> << [slots |-> << [l |-> id, off |-> 0, d |-> cell.n] >>,
                  ent |-> [i \in 1..CellIndex(cell) |-> <<i - 1>>]] >>,
      bas |-> [i \in 1..c.nd |-> [j \in 1..nc |-> <<1, 1, i - 1, j - 1>>]],
      perm |-> IF WithPerms THEN c.perm ELSE <<>>, pav |-> c.pav /\ WithPerms, du |-> c.du, feq |-> c.feq, mixed |-> FALSE, facts |-> <<>>, cx |-> <<c.cx>>]

(* ----------------------------------------------------- tensor products -- *)
ShiftLay(l, off) == [slots |-> [i \in 1..Len(l.slots) |-> [l.slots[i] EXCEPT !.off = @ + off]], ent |-> l.ent]

(* extrinsic orientations: axis permutations fixing the axes of point factors *)
AxisPerms(cs, dims) ==
  IF \A i \in 1..Len(cs) : cs[i] = Interval
  THEN SelectSeq(PermsLex(0..(Len(cs) - 1)), LAMBDA ap : \A m \in 1..Len(cs) : dims[m] = 0 => ap[m] = m - 1)
  ELSE << Iota(Len(cs)) >>
AxisPermsKnown(cs) == (\A i \in 1..Len(cs) : cs[i] = Interval) \/ Cardinality(RangeOf(cs)) = Len(cs)

(* orientation = (axis permutation ap, factor permutations ps): function j of the reoriented *)
(* numbering is function i of the reference one, where axis ap(m) of i is p_m(j_m)           *)
OrientPerm(ap, ps) ==
  LET n == [m \in 1..Len(ps) |-> Len(ps[m])]
      inv(k) == CHOOSE m \in 1..Len(ps) : ap[m] = k - 1
      nn == [k \in 1..Len(ps) |-> n[inv(k)]]
      js == MultiIdx(n)
  IN [q \in 1..Len(js) |-> Ravel([k \in 1..Len(ps) |-> ps[inv(k)][js[q][inv(k)] + 1]], nn)]

TensorElem(fs) ==
  LET n == Len(fs)
      cs == [i \in 1..n |-> fs[i].cell]
      cell == ProdCell(cs)
      ents == Entities(cell)
      off(i) == SumSeq([k \in 1..(i - 1) |-> cs[k].n])
      nonscalar == {i \in 1..n : fs[i].vsh # <<>>}
      nds == [i \in 1..n |-> fs[i].nd]
      lays == CartSeq([i \in 1..n |-> [q \in 1..Len(fs[i].lay) |-> ShiftLay(fs[i].lay[q], off(i))]])
      nlay == [i \in 1..n |-> Len(fs[i].lay)]
      dofs == MultiIdx(nds)
      comps == MultiIdx([i \in 1..n |-> NComp(fs[i])])
      entry(d, c) ==
        LET es == [i \in 1..n |-> fs[i].bas[d[i] + 1][c[i] + 1]]
        IN IF \E i \in 1..n : es[i] = <<>> THEN <<>>
           ELSE <<Ravel([i \in 1..n |-> es[i][1] - 1], nlay) + 1, ProdSeq([i \in 1..n |-> es[i][2]])>>
                \o Flatten([i \in 1..n |-> SubSeq(es[i], 3, Len(es[i]))])
      nonaff == SelectSeq([i \in 1..n |-> fs[i].map], LAMBDA m : m # "affine")
      pav == (\A i \in 1..n : fs[i].pav) /\ AxisPermsKnown(cs)
      entperm(e) ==
        LET dims == [i \in 1..n |-> EntDim(Entities(cs[i])[ents[e].f[i]])]
            aps == AxisPerms(cs, dims)
            os == CartSeq([i \in 1..n |-> fs[i].perm[ents[e].f[i]]])
        IN Flatten([a \in 1..Len(aps) |-> [q \in 1..Len(os) |->
              [o |-> <<a - 1>> \o Flatten([i \in 1..n |-> os[q][i].o]),
               p |-> OrientPerm(aps[a], [i \in 1..n |-> os[q][i].p])]]])
  IN IF Cardinality(nonscalar) > 1 THEN Reject("two nonscalar factors")
     ELSE [ok |-> TRUE, cls |-> "tpe", cell |-> cell, nd |-> ProdSeq(nds),
           ish |-> Flatten([i \in 1..n |-> fs[i].ish]),
           vsh |-> IF nonscalar = {} THEN <<>> ELSE fs[CHOOSE i \in nonscalar : TRUE].vsh,
           ent |-> [e \in 1..Len(ents) |->
                      LET tup == CartSeq([i \in 1..n |-> fs[i].ent[ents[e].f[i]]])
                      IN [q \in 1..Len(tup) |-> Ravel(tup[q], nds)]],
           fd |-> IF \E i \in 1..n : fs[i].fd = NoneFd THEN NoneFd
                  ELSE IF \E i \in 1..n : fs[i].fd = TupleFd THEN TupleFd ELSE SumSeq([i \in 1..n |-> fs[i].fd]),
           deg |-> TupleDeg([i \in 1..n |-> fs[i].deg]),
           map |-> CASE Len(nonaff) = 0 -> "affine" [] Len(nonaff) = 1 -> nonaff[1] [] OTHER -> "none",
           lay |-> [q \in 1..Len(lays) |->
                      [slots |-> Flatten([i \in 1..n |-> lays[q][i].slots]),
                       ent |-> [e \in 1..Len(ents) |-> Flatten([i \in 1..n |-> lays[q][i].ent[ents[e].f[i]]])]]],
           bas |-> [q \in 1..Len(dofs) |-> [c \in 1..Len(comps) |-> entry(dofs[q], comps[c])]],
           perm |-> IF pav THEN [e \in 1..Len(ents) |-> entperm(e)] ELSE <<>>,
           pav |-> pav, du |-> \A i \in 1..n : fs[i].du,
           feq |-> n = 2 /\ \A i \in 1..n : fs[i].feq, mixed |-> FALSE,
           cx |-> JoinSplits([i \in 1..n |-> fs[i].cx]),
           facts |-> [i \in 1..n |-> [fd |-> fs[i].fd, cell |-> cs[i], map |-> fs[i].map]]]

FlatElem(p) ==
  IF p.cell.k # "p" THEN Reject("not on a product cell")
     ELSE IF p.cell.n \notin {2, 3} THEN Reject("not two or three dimensional")
     ELSE IF ~AllIntervals(p.cell) THEN Reject("not a product of intervals")
     ELSE LET ord == FlatOrder(p.cell.cs) IN
          [p EXCEPT !.cls = "flat", !.cell = IF p.cell.n = 2 THEN Quad ELSE Hex,
             !.ent = [e \in 1..Len(ord) |-> p.ent[ord[e]]],
             !.deg = IF (~p.deg.s) /\ Cardinality(RangeOf(p.deg.c)) = 1 THEN p.deg.c[1] ELSE BadDeg,
             !.lay = [q \in 1..Len(p.lay) |-> [p.lay[q] EXCEPT !.ent = [e \in 1..Len(ord) |-> p.lay[q].ent[ord[e]]]]],
             !.perm = IF p.pav THEN [e \in 1..Len(ord) |-> [o \in 1..Len(p.perm[ord[e]]) |->
                         [o |-> <<o - 1>>, p |-> p.perm[ord[e]][o].p]]] ELSE <<>>,
             !.facts = <<>>]

(* ---------------------------------------------------- sums of elements -- *)
RECURSIVE MaxDeg(_)
MaxDeg(ds) ==
  IF \E i \in 1..Len(ds) : ds[i].s # ds[1].s \/ Len(ds[i].c) # Len(ds[1].c) THEN BadDeg
  ELSE IF ds[1].s THEN (IF \E i \in 1..Len(ds) : ds[i].n = -99 THEN BadDeg ELSE Scalar(MaxOf({ds[i].n : i \in 1..Len(ds)})))
  ELSE TupleDeg([k \in 1..Len(ds[1].c) |-> MaxDeg([i \in 1..Len(ds) |-> ds[i].c[k]])])

SumElem(es, place(_, _)) ==       \* place(i, entries) positions part i's components in the whole
  LET n == Len(es)
      off(i) == SumSeq([k \in 1..(i - 1) |-> es[k].nd])
      loff(i) == SumSeq([k \in 1..(i - 1) |-> Len(es[k].lay)])
      cell == es[1].cell
      N == CellIndex(cell)
      bump(x, i) == IF x = <<>> THEN <<>> ELSE [x EXCEPT ![1] = @ + loff(i)]
      pav == \A i \in 1..n : es[i].pav
      fds == {es[i].fd : i \in 1..n}
      maps == {es[i].map : i \in 1..n}
      entlen(i, e) == Len(es[i].ent[e])
  IN [ok |-> TRUE, cls |-> "enr", cell |-> cell, nd |-> SumSeq([i \in 1..n |-> es[i].nd]),
      ish |-> <<SumSeq([i \in 1..n |-> es[i].nd])>>, vsh |-> es[1].vsh,
      ent |-> [e \in 1..N |-> Flatten([i \in 1..n |-> [q \in 1..entlen(i, e) |-> es[i].ent[e][q] + off(i)]])],
      fd |-> IF NoneFd \in fds THEN NoneFd ELSE IF TupleFd \in fds THEN TupleFd ELSE MaxOf(fds),
      deg |-> MaxDeg([i \in 1..n |-> es[i].deg]),
      map |-> IF Cardinality(maps) = 1 THEN es[1].map ELSE "none",
      lay |-> Flatten([i \in 1..n |-> es[i].lay]),
      bas |-> Flatten([i \in 1..n |-> [d \in 1..es[i].nd |->
                 place(i, [c \in 1..Len(es[i].bas[d]) |-> bump(es[i].bas[d][c], i)])]]),
      perm |-> IF ~pav THEN <<>> ELSE
         [e \in 1..N |-> [o \in 1..Len(es[1].perm[e]) |->
             [o |-> es[1].perm[e][o].o,
              p |-> Flatten([i \in 1..n |-> [q \in 1..entlen(i, e) |->
                       es[i].perm[e][o].p[q] + SumSeq([k \in 1..(i - 1) |-> entlen(k, e)])]])]]],
      pav |-> pav, du |-> FALSE, feq |-> \A i \in 1..n : es[i].feq, mixed |-> FALSE, facts |-> <<>>,
      cx |-> FinestSplit([i \in 1..n |-> es[i].cx])]

EnrichedElem(es) ==
  IF Len(es) = 1 THEN es[1]
  ELSE IF \E i \in 1..Len(es) : es[i].cell # es[1].cell THEN Reject("different cells")
  ELSE IF \E i \in 1..Len(es) : es[i].vsh # es[1].vsh THEN Reject("different value shapes")
  ELSE [SumElem(es, LAMBDA i, x : x) EXCEPT !.feq = @ /\ \A i \in 1..Len(es) : ~es[i].mixed]

(* mixed: block i of the long value vector holds part i, flattened; everything else is zero *)
MixedElem(es) ==
  IF \E i \in 1..Len(es) : es[i].cell # es[1].cell THEN Reject("different cells")
  ELSE LET tot == SumSeq([i \in 1..Len(es) |-> NComp(es[i])])
           before(i) == SumSeq([k \in 1..(i - 1) |-> NComp(es[k])])
           pad(i, x) == Rep(<<>>, before(i)) \o x \o Rep(<<>>, tot - before(i) - Len(x))
           sum == SumElem(es, pad)
       IN [sum EXCEPT !.vsh = <<tot>>, !.cls = "mixed", !.mixed = TRUE, !.pav = FALSE, !.perm = <<>>,
                      !.ish = IF Len(es) = 1 THEN es[1].ish ELSE @, !.feq = @ /\ Len(es) > 1,
                      !.deg = IF Len(es) = 1 THEN es[1].deg ELSE @]

(* ------------------------------------------------ H(div) and H(curl) ---- *)
Neg(x) == IF x = <<>> THEN <<>> ELSE [x EXCEPT ![2] = -@]
Z == <<>>
HWrap(p, kind) ==
  IF p.cls # "tpe" THEN Reject("not a tensor product")
  ELSE IF p.fd \in {NoneFd, TupleFd} THEN Reject("unknown form degree")
  ELSE IF kind = "hdiv" /\ p.fd # p.cell.n - 1 THEN Reject("H(div) needs an (n-1)-form")
  ELSE IF kind = "hcurl" /\ p.fd # 1 THEN Reject("H(curl) needs a 1-form")
  ELSE IF Len(p.facts) # 2 \/ p.facts[Len(p.facts)].cell # Interval THEN Reject("not something x interval")
  ELSE
  LET k1 == p.facts[1].fd  k2 == p.facts[2].fd
      n == p.cell.n
      vec == Len(p.vsh) = 1 /\ p.vsh[1] = 2
      sca == p.vsh = <<>>
      pat ==      \* which component pattern applies; "" if none
        IF kind = "hdiv" THEN
          CASE n = 2 /\ k1 = 0 /\ k2 = 1 /\ sca -> "left"
            [] n = 2 /\ k1 = 1 /\ k2 = 0 /\ sca -> "up2"
            [] n = 3 /\ k1 = 2 /\ k2 = 0 /\ sca -> "up3"
            [] n = 3 /\ k1 = 1 /\ k2 = 1 /\ vec /\ p.map = "contravariant piola" -> "keep"
            [] n = 3 /\ k1 = 1 /\ k2 = 1 /\ vec /\ p.map = "covariant piola" -> "ccw"
            [] OTHER -> ""
        ELSE
          CASE p.map = "affine" /\ n = 2 /\ k1 = 1 /\ k2 = 0 /\ sca -> "right"
            [] p.map = "affine" /\ k1 = 0 /\ k2 = 1 /\ sca -> "last"
            [] p.map = "covariant piola" /\ n = 3 /\ vec -> "keep"
            [] p.map = "contravariant piola" /\ n = 3 /\ vec -> "cw"
            [] OTHER -> ""
      tr(x) ==
        CASE pat = "left"  -> <<Neg(x[1]), Z>>            \* normal of y-aligned edges points left
          [] pat = "up2"   -> <<Z, x[1]>>                 \* normal of x-aligned edges points up
          [] pat = "up3"   -> <<Z, Z, x[1]>>
          [] pat = "keep"  -> <<x[1], x[2], Z>>
          [] pat = "ccw"   -> <<x[2], Neg(x[1]), Z>>      \* J-rotation of a tangential base field into a normal one
          [] pat = "cw"    -> <<Neg(x[2]), x[1], Z>>      \* and of a normal base field into a tangential one
          [] pat = "right" -> <<x[1], Z>>
          [] pat = "last"  -> Rep(Z, n - 1) \o <<x[1]>>
  IN IF pat = "" THEN Reject("unsupported form degrees or mapping")
     ELSE [p EXCEPT !.cls = kind, !.vsh = <<n>>, !.fd = IF kind = "hdiv" THEN n - 1 ELSE 1,
             !.map = IF kind = "hdiv" THEN "contravariant piola" ELSE "covariant piola",
             !.bas = [d \in 1..p.nd |-> tr(p.bas[d])], !.facts = <<>>]

(* ------------------------------------------------- tensor-valued, broken - *)
TfeElem(b, shape, tr) ==
  LET k == ProdSeq(shape)
      nb == b.nd
      nc == NComp(b)
      num(d, c) == IF tr THEN c * nb + d ELSE d * k + c
      dofOf(i) == IF tr THEN (i - 1) % nb ELSE (i - 1) \div k
      cmpOf(i) == IF tr THEN (i - 1) \div nb ELSE (i - 1) % k
  IN [b EXCEPT !.cls = "tfe", !.nd = nb * k, !.vsh = shape \o b.vsh,
        !.ish = IF tr THEN shape \o b.ish ELSE b.ish \o shape,
        !.ent = [e \in 1..Len(b.ent) |->
            IF tr THEN Flatten([c \in 1..k |-> [q \in 1..Len(b.ent[e]) |-> num(b.ent[e][q], c - 1)]])
            ELSE Flatten([q \in 1..Len(b.ent[e]) |-> [c \in 1..k |-> num(b.ent[e][q], c - 1)]])],
        !.bas = [i \in 1..(nb * k) |->
            Rep(<<>>, cmpOf(i) * nc) \o b.bas[dofOf(i) + 1] \o Rep(<<>>, (k - 1 - cmpOf(i)) * nc)],
        !.pav = FALSE, !.perm = <<>>, !.feq = FALSE, !.facts = <<>>, !.mixed = FALSE]

BrokenElem(b) ==
  LET N == Len(b.ent)
      cellonly == \A e \in 1..(N - 1) : b.ent[e] = <<>>
  IN [b EXCEPT !.cls = "brk", !.fd = b.cell.n,
        !.ent = [e \in 1..N |-> IF e = N THEN Iota(b.nd) ELSE <<>>],
        !.pav = b.pav /\ cellonly, !.perm = IF b.pav /\ cellonly THEN b.perm ELSE <<>>,
        !.facts = <<>>, !.mixed = FALSE]

(* ------------------------------------------------------------ terms ----- *)
RECURSIVE Elem(_)
Elem(t) ==
  IF t.op = "leaf" THEN LeafElem(t.id)
  ELSE LET as == [i \in 1..Len(t.args) |-> Elem(t.args[i])]
       IN IF \E i \in 1..Len(as) : ~as[i].ok THEN Reject("bad part")
          ELSE CASE t.op = "tpe" -> TensorElem(as)
                 [] t.op = "flat" -> FlatElem(as[1])
                 [] t.op = "enr" -> EnrichedElem(as)
                 [] t.op = "mix" -> MixedElem(as)
                 [] t.op = "hdiv" -> HWrap(as[1], "hdiv")
                 [] t.op = "hcurl" -> HWrap(as[1], "hcurl")
                 [] t.op = "tfe" -> TfeElem(as[1], t.shape, t.tr)
                 [] t.op = "brk" -> BrokenElem(as[1])

(* ------------------------------------------------------------ closure --- *)
ClosureDofs(e) ==
  LET subs == Subs(e.cell)
  IN [i \in 1..Len(e.ent) |-> SortInts(UNION {RangeOf(e.ent[j]) : j \in subs[i]})]

(* -------------------------------------------------------- restriction --- *)
(* functions of e kept by a restriction domain, per entity *)
DomainDim(dom, n) == CASE dom = "vertex" -> 0 [] dom = "edge" -> 1 [] dom = "face" -> 2 [] dom = "facet" -> n - 1
(* doms: domains applied one after another *)
KeptDofs(e, doms) ==
  LET es == Entities(e.cell)
      in(i, dom) == IF dom = "interior" THEN i = Len(es) ELSE EntDim(es[i]) <= DomainDim(dom, e.cell.n)
      keep(i) == \A k \in 1..Len(doms) : in(i, doms[k])
  IN [i \in 1..Len(es) |-> IF keep(i) THEN e.ent[i] ELSE <<>>]
Empty(ent) == \A i \in 1..Len(ent) : ent[i] = <<>>

(* --------------------------------------------------------- support ------ *)
(* a function vanishes on an entity iff one of its leaf factors does, for every component *)
SupportDofs(e) ==
  [i \in 1..Len(e.ent) |->
     SelectSeq(Iota(e.nd), LAMBDA d : \E c \in 1..Len(e.bas[d + 1]) :
        LET x == e.bas[d + 1][c] IN
        x # <<>> /\ LET l == e.lay[x[1]] IN
           \A s \in 1..Len(l.slots) :
              \E w \in 1..Len(Cat[l.slots[s].l].sup[l.ent[i][s] + 1]) :
                 Cat[l.slots[s].l].sup[l.ent[i][s] + 1][w] = <<x[2*s + 1], x[2*s + 2]>>)]
=============================================================================
