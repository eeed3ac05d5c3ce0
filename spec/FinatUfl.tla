------------------------------ MODULE FinatUfl ------------------------------
(* UFL descriptions of elements.  A description is a term over FiniteElement and the composites; its   *)
(* meaning is fixed by its normal form (canonical families and degrees, expansions on product cells,    *)
(* defaults filled in).  Two descriptions are equal exactly when their normal forms are.                *)
EXTENDS FinatUflTable, Json, IOUtils

NoDeg == -999
NoDim == -1
Cell(n) == [n |-> n, cs |-> <<>>]
NoCell == Cell("none")
Product(cs) == [n |-> "product", cs |-> cs]
Known1 == AnyCell
RECURSIVE TDim(_)
TDim(c) == IF c.n = "product" THEN SumSeq([i \in 1..Len(c.cs) |-> TDim(c.cs[i])]) ELSE IF c.n = "none" THEN 0 ELSE TopDim(c.n)

T0 == [op |-> "", fam |-> "", cell |-> NoCell, deg |-> 0, fd |-> NoForm, qs |-> "", var |-> "", args |-> <<>>, dim |-> NoDim,
       shape |-> <<>>, sym |-> <<>>, dom |-> "", mp |-> ""]
FE(f, c, d, v) == [T0 EXCEPT !.op = "fe", !.fam = f, !.cell = c, !.deg = d, !.var = v]
Un(o, t) == [T0 EXCEPT !.op = o, !.args = <<t>>]
TP(a, b, c) == [T0 EXCEPT !.op = "tpe", !.args = <<a, b>>, !.cell = c]
Bad(why) == [T0 EXCEPT !.op = "bad", !.fam = why]
IsBad(t) == t.op = "bad"

(* ------------------------------------------------------ FiniteElement on product cells *)
Interval == Cell("interval")
Expand(f, c, d, v) ==
  LET two(x, y) == Len(c.cs) = 2 /\ c.cs[1].n = x /\ c.cs[2].n = y
      I(fam, deg) == FE(fam, Interval, deg, v)
      Q(fam, deg) == FE(fam, Cell("quadrilateral"), deg, v)
      enr(o, a, b) == [T0 EXCEPT !.op = "enr", !.args = <<Un(o, a), Un(o, b)>>]
      L2 == IF f = "DQ L2" THEN " L2" ELSE ""
  IN CASE f \in {"RTCF", "RTCE"} ->
            IF ~two("interval", "interval") THEN Bad("cell")
            ELSE enr(IF f = "RTCF" THEN "hdiv" ELSE "hcurl", TP(I("CG", d), I("DG", d - 1), c), TP(I("DG", d - 1), I("CG", d), c))
       [] f = "NCF" -> IF ~two("quadrilateral", "interval") THEN Bad("cell")
            ELSE enr("hdiv", TP(Q("RTCF", d), I("DG", d - 1), c), TP(Q("DQ", d - 1), I("CG", d), c))
       [] f = "NCE" -> IF ~two("quadrilateral", "interval") THEN Bad("cell")
            ELSE enr("hcurl", TP(Q("Q", d), I("DG", d - 1), c), TP(Q("RTCE", d), I("CG", d), c))
       [] f = "Q" -> [T0 EXCEPT !.op = "tpe", !.cell = c, !.args = [i \in 1..Len(c.cs) |-> FE("CG", c.cs[i], d, v)]]
       [] f \in {"DQ", "DQ L2"} -> [T0 EXCEPT !.op = "tpe", !.cell = c, !.args = [i \in 1..Len(c.cs) |->
                       FE((IF c.cs[i].n \in Simplices THEN "DG" ELSE "DQ") \o L2, c.cs[i], d, v)]]
       [] OTHER -> [T0 EXCEPT !.op = ""]

(* ------------------------------------------------------ normal form *)
SymTrue(shape) ==    \* lower triangle represented by the upper
  Flatten([i \in 1..shape[1] |-> [j \in 1..(i - 1) |-> << <<i - 1, j - 1>>, <<j - 1, i - 1>> >>]])
SymLess(a, b) == Ravel(a[1], Rep(100, Len(a[1]))) < Ravel(b[1], Rep(100, Len(b[1])))
SortSym(s) == SortSeq(s, SymLess)
InShape(i, sh) == Len(i) = Len(sh) /\ \A k \in 1..Len(i) : i[k] \in 0..(sh[k] - 1)
SymOk(s, sh) ==
  /\ \A i \in 1..Len(s) : InShape(s[i][1], sh) /\ InShape(s[i][2], sh)
  /\ \A i, j \in 1..Len(s) : s[i][1] # s[j][2]                  \* a representative stands for itself

RECURSIVE Norm(_), CellN(_)
Norm(t) ==
  IF t.op = "bad" THEN t
  ELSE IF t.op = "fe" THEN
    LET w == Describe(t.fam, t.cell.n, TDim(t.cell), t.deg, t.fd)
        x == IF w.ok /\ t.cell.n = "product" THEN Expand(w.fam, t.cell, w.deg, t.var) ELSE T0
    IN IF ~w.ok THEN Bad(w.why)
       ELSE IF x.op # "" THEN Norm(x)
       ELSE [t EXCEPT !.fam = w.fam, !.deg = w.deg, !.fd = NoForm]
  ELSE
    LET as == TLCEval([i \in 1..Len(t.args) |-> Norm(t.args[i])])
    IN IF \E i \in 1..Len(as) : IsBad(as[i]) THEN Bad("part")
       ELSE CASE t.op = "tpe" -> [t EXCEPT !.args = as, !.cell = IF t.cell.n = "none" THEN Product([i \in 1..Len(as) |-> CellN(as[i])]) ELSE t.cell]
              [] t.op = "vec" -> IF t.dim = NoDim /\ CellN(as[1]).n = "none" THEN Bad("needs a cell")
                                 ELSE [t EXCEPT !.args = as, !.dim = IF t.dim = NoDim THEN TDim(CellN(as[1])) ELSE t.dim]
              [] t.op = "ten" ->
                   LET n == TDim(CellN(as[1]))
                       sh == IF t.shape = <<>> THEN <<n, n>> ELSE t.shape
                       s == IF t.dom = "sym" THEN (IF Len(sh) = 2 /\ sh[1] = sh[2] THEN SymTrue(sh) ELSE <<>>) ELSE t.sym
                   IN IF t.shape = <<>> /\ CellN(as[1]).n = "none" THEN Bad("needs a cell")
                      ELSE IF t.dom = "sym" /\ ~(Len(sh) = 2 /\ sh[1] = sh[2]) THEN Bad("not square")
                      ELSE IF ~SymOk(s, sh) THEN Bad("symmetry")
                      ELSE [t EXCEPT !.args = as, !.shape = sh, !.sym = SortSym(s), !.dom = ""]
              [] OTHER -> [t EXCEPT !.args = as]
CellN(t) ==      \* cell of a term in normal form
  CASE t.op \in {"fe", "tpe"} -> t.cell
    [] t.op \in {"mix"} -> LET k == {i \in 1..Len(t.args) : CellN(t.args[i]).n # "none"}
                           IN IF k = {} THEN NoCell ELSE CellN(t.args[MinOf(k)])
    [] OTHER -> CellN(t.args[1])

(* ------------------------------------------------------ Sobolev spaces *)
Sp(n) == [n |-> n, o |-> <<>>]
Supers == [L2 |-> {"L2"}, HDiv |-> {"HDiv", "L2"}, HCurl |-> {"HCurl", "L2"}, H1 |-> {"H1", "HDiv", "HCurl", "L2"},
           H2 |-> {"H2", "H1", "HDiv", "HCurl", "L2"}, HInf |-> {"HInf", "H2", "H1", "HDiv", "HCurl", "L2"},
           HEin |-> {"HEin", "L2"}, HDivDiv |-> {"HDivDiv", "L2"}, HCurlDiv |-> {"HCurlDiv", "L2"}]
Smooth(n) == CASE n = "H1" -> 1 [] n = "H2" -> 2 [] n = "HInf" -> 99 [] OTHER -> 0
IsDir(s) == s.n = "DirectionalH"
Orders(s, n) == IF IsDir(s) THEN s.o ELSE Rep(Smooth(s.n), n)
AllSame(ss) == \A i \in 1..Len(ss) : ss[i] = ss[1]
ProductSpace(ss, ns) ==
  IF AllSame(ss) /\ ~IsDir(ss[1]) THEN ss[1]
  ELSE [n |-> "DirectionalH", o |-> Flatten([i \in 1..Len(ss) |-> Orders(ss[i], ns[i])])]
Smallest(S) == CHOOSE x \in S : \A y \in S : y \in Supers[x]
(* acceptable answers for the space of a sum: the smallest space containing every part *)
CommonSpace(ss, n) ==
  IF AllSame(ss) THEN <<ss[1]>>
  ELSE IF \E i \in 1..Len(ss) : IsDir(ss[i]) /\ Len(ss[i].o) # n THEN <<>>       \* factors do not make up the cell
  ELSE IF \E i \in 1..Len(ss) : IsDir(ss[i])
  THEN LET m == [k \in 1..n |-> MinOf({Orders(ss[i], n)[k] : i \in 1..Len(ss)})] IN <<Sp("L2"), [n |-> "DirectionalH", o |-> m]>>
  ELSE LET common == {x \in DOMAIN Supers : \A i \in 1..Len(ss) : x \in Supers[ss[i].n]}
       IN <<Sp(CHOOSE x \in common : \A y \in common : y \in Supers[x])>>
(* a mixed element reports the largest of its parts' spaces where they are comparable, one of them otherwise *)
LargestSpace(ss) ==
  IF \E i \in 1..Len(ss) : IsDir(ss[i]) THEN (IF AllSame(ss) THEN <<ss[1]>> ELSE <<>>)
  ELSE LET top == {i \in 1..Len(ss) : \A j \in 1..Len(ss) : ss[i].n \in Supers[ss[j].n]}
       IN IF top # {} THEN <<ss[MinOf(top)]>> ELSE ss

(* ------------------------------------------------------ attributes of a term in normal form *)
D(i) == [v |-> i, t |-> <<>>]
Dt(ds) == [v |-> NoDeg, t |-> ds]
IsInt(d) == d.t = <<>>
Flat(d) == IsInt(d) \/ \A i \in 1..Len(d.t) : IsInt(d.t[i])
MaxDegs(ds) ==
  IF \A i \in 1..Len(ds) : IsInt(ds[i]) THEN D(MaxOf({ds[i].v : i \in 1..Len(ds)}))
  ELSE LET n == MaxOf({Len(ds[i].t) : i \in 1..Len(ds)})
       IN Dt([k \in 1..n |-> D(MaxOf({IF IsInt(ds[i]) THEN ds[i].v ELSE ds[i].t[k].v : i \in 1..Len(ds)}))])
DegsFit(ds) == /\ \A i \in 1..Len(ds) : Flat(ds[i])
               /\ \A i, j \in 1..Len(ds) : (~IsInt(ds[i]) /\ ~IsInt(ds[j])) => Len(ds[i].t) = Len(ds[j].t)

Fail(why) == [ok |-> FALSE, why |-> why, fam |-> "", cell |-> NoCell, deg |-> D(0), qs |-> "", rvs |-> <<>>, sob |-> <<>>, map |-> "",
              var |-> "", sub |-> 0, sup |-> 0, nsub |-> 0, constant |-> FALSE, linear |-> FALSE]
Common(vs) == IF AllSame(vs) THEN vs[1] ELSE ""
RowOf(f) == Table[CHOOSE i \in RowsOf(f) : TRUE]
RECURSIVE A(_)
A(t) ==
  IF IsBad(t) THEN Fail(t.fam)
  ELSE IF t.op = "fe" THEN
    LET w == RowOf(t.fam)  n == TDim(t.cell)
        e == t.fam \in EnrichedDegree
    IN [ok |-> TRUE, why |-> "", fam |-> t.fam, cell |-> t.cell, deg |-> D(t.deg), qs |-> t.qs, rvs |-> Rep(n, w.r), sob |-> <<Sp(w.sob)>>, map |-> w.m,
        var |-> t.var, sub |-> IF e THEN Lo(t.deg, n) ELSE t.deg, sup |-> IF e THEN Hi(t.deg, n) ELSE t.deg, nsub |-> 0,
        constant |-> t.deg = 0 /\ ~e, linear |-> t.fam = "Lagrange" /\ t.deg = 1]
  ELSE
  LET as == TLCEval([i \in 1..Len(t.args) |-> A(t.args[i])])  k == Len(as)  a == as[1]
      sobs == [i \in 1..k |-> IF as[i].sob = <<>> THEN Sp("L2") ELSE as[i].sob[1]]
      fuzzy == \E i \in 1..k : Len(as[i].sob) # 1
      degs == [i \in 1..k |-> as[i].deg]
      cells == {as[i].cell : i \in 1..k} \ {NoCell}
      schemes == {as[i].qs : i \in 1..k}
      sums == [ok |-> TRUE, why |-> "", fam |-> "", cell |-> CellN(t), deg |-> MaxDegs(degs), qs |-> a.qs, rvs |-> <<>>, sob |-> <<>>,
               map |-> "", var |-> Common([i \in 1..k |-> as[i].var]), sub |-> MinOf({as[i].sub : i \in 1..k}), sup |-> MaxOf({as[i].sup : i \in 1..k}),
               nsub |-> 0, constant |-> \A i \in 1..k : as[i].constant, linear |-> \A i \in 1..k : as[i].linear]
  IN IF \E i \in 1..k : ~as[i].ok THEN Fail(IF \E i \in 1..k : as[i].why = "scope" THEN "scope" ELSE "part")
     ELSE CASE t.op = "vec" -> [a EXCEPT !.rvs = <<t.dim>> \o a.rvs, !.nsub = t.dim]
       [] t.op = "ten" ->
            [a EXCEPT !.rvs = (IF t.sym = <<>> THEN t.shape ELSE <<ProdSeq(t.shape) - Len(t.sym)>>) \o a.rvs,
                      !.map = IF t.sym = <<>> THEN a.map ELSE "symmetries", !.nsub = ProdSeq(t.shape) - Len(t.sym)]
       [] t.op = "mix" ->
            IF Cardinality(cells) > 1 THEN Fail("cells") ELSE IF Cardinality(schemes) > 1 THEN Fail("schemes")
            ELSE IF ~DegsFit(degs) THEN Fail("scope")
            ELSE [sums EXCEPT !.fam = "Mixed", !.rvs = <<SumSeq([i \in 1..k |-> ProdSeq(as[i].rvs)])>>,
                              !.sob = IF fuzzy THEN <<>> ELSE LargestSpace(sobs), !.nsub = k,
                              !.map = IF \A i \in 1..k : as[i].map = "identity" THEN "identity" ELSE "undefined"]
       [] t.op \in {"enr", "nenr"} ->
            IF \E i \in 1..k : as[i].cell # a.cell THEN Fail("cells")
            ELSE IF Cardinality(schemes \ {""}) > 1 THEN Fail("schemes")
            ELSE IF \E i, j \in 1..k : IsInt(degs[i]) # IsInt(degs[j]) THEN Fail("scope")
            ELSE IF ~DegsFit(degs) THEN Fail("scope")
            ELSE IF \E i \in 1..k : as[i].rvs # a.rvs THEN Fail("shapes")
            ELSE [sums EXCEPT !.fam = IF t.op = "enr" THEN "EnrichedElement" ELSE "NodalEnrichedElement", !.rvs = a.rvs, !.map = a.map,
                              !.qs = IF schemes \ {""} = {} THEN "" ELSE CHOOSE q \in schemes \ {""} : TRUE,
                              !.sob = IF fuzzy THEN <<>> ELSE CommonSpace(sobs, TDim(a.cell)), !.linear = FALSE,
                              !.constant = t.op = "enr" /\ sums.constant]
       [] t.op = "tpe" ->
            IF Len(Flatten([i \in 1..k |-> as[i].rvs])) > 1 THEN Fail("two non-scalar factors")
            ELSE [sums EXCEPT !.fam = "TensorProductElement", !.cell = t.cell, !.deg = Dt(degs), !.qs = "", !.rvs = Flatten([i \in 1..k |-> as[i].rvs]),
                              !.map = IF \A i \in 1..k : as[i].map = "identity" THEN "identity"
                                      ELSE IF \A i \in 1..k : as[i].map = "L2 Piola" THEN "L2 Piola" ELSE "undefined",
                              !.sob = IF fuzzy THEN <<>> ELSE <<ProductSpace(sobs, [i \in 1..k |-> TDim(as[i].cell)])>>,
                              !.sup = SumSeq([i \in 1..k |-> as[i].sup]), !.nsub = k, !.constant = FALSE, !.linear = FALSE]
       [] t.op = "restr" -> [a EXCEPT !.fam = "RestrictedElement", !.sob = IF t.dom = "interior" THEN <<Sp("L2")>> ELSE a.sob]
       [] t.op = "brk" -> [a EXCEPT !.fam = "BrokenElement", !.sob = <<Sp("L2")>>, !.var = "", !.nsub = 0, !.linear = FALSE, !.constant = IsInt(a.deg) /\ a.deg.v = 0]
       [] t.op \in {"hdiv", "hcurl"} ->
            [a EXCEPT !.fam = "TensorProductElement", !.rvs = <<TDim(a.cell)>>, !.map = IF t.op = "hdiv" THEN "contravariant Piola" ELSE "covariant Piola",
                      !.sob = <<Sp(IF t.op = "hdiv" THEN "HDiv" ELSE "HCurl")>>, !.nsub = 0, !.linear = FALSE]
       [] t.op = "wm" ->
            LET n == TDim(a.cell)
            IN [a EXCEPT !.map = t.mp, !.sob = IF t.mp = a.map THEN a.sob ELSE <<Sp("L2")>>, !.linear = FALSE, !.constant = FALSE, !.nsub = 0,
                         !.rvs = CASE t.mp \in {"covariant Piola", "contravariant Piola"} -> <<n>>
                                   [] t.mp \in {"double covariant Piola", "double contravariant Piola"} -> <<n, n>>
                                   [] OTHER -> a.rvs]

(* ------------------------------------------------------ components *)
Simple(t) == t.op \notin {"vec", "ten", "mix"}
Unravel(j, sh) == MultiIdx(sh)[j + 1]
SubNumber(t, i) ==      \* sub-element standing for component i of a tensor element
  LET rep == LET s == {k \in 1..Len(t.sym) : t.sym[k][1] = i} IN IF s = {} THEN i ELSE t.sym[CHOOSE k \in s : TRUE][2]
      free == SelectSeq(MultiIdx(t.shape), LAMBDA x : \A k \in 1..Len(t.sym) : t.sym[k][1] # x)
  IN (CHOOSE n \in 1..Len(free) : free[n] = rep) - 1
SubMap(t) == LET all == MultiIdx(t.shape) IN [n \in 1..Len(all) |-> SubNumber(t, all[n])]

(* reference components of t, in order: which sub-element owns each, its index there, and the path to a simple element *)
SubsOf(t) == CASE t.op = "mix" -> t.args [] t.op = "vec" -> Rep(t.args[1], t.dim)
               [] t.op = "ten" -> Rep(t.args[1], ProdSeq(t.shape) - Len(t.sym)) [] OTHER -> <<>>
RECURSIVE RefComps(_)
RefComps(t) ==
  LET sh == A(t).rvs
  IN IF Simple(t) THEN LET a == TLCEval(A(t)) IN
          [j \in 1..ProdSeq(sh) |-> [at |-> Unravel(j - 1, sh), sub |-> -1, loc |-> Unravel(j - 1, sh), path |-> <<>>, leaf |-> Unravel(j - 1, sh),
                                     deg |-> a.deg, constant |-> a.constant]]
     ELSE LET subs == SubsOf(t)
              inner == TLCEval(Flatten([s \in 1..Len(subs) |->
                         LET cs == TLCEval(RefComps(subs[s]))
                         IN [j \in 1..Len(cs) |-> [at |-> <<>>, sub |-> s - 1, loc |-> cs[j].at, path |-> <<s - 1>> \o cs[j].path, leaf |-> cs[j].leaf,
                                                   deg |-> cs[j].deg, constant |-> cs[j].constant]]]))
          IN [j \in 1..Len(inner) |-> [inner[j] EXCEPT !.at = Unravel(j - 1, sh)]]

(* physical value shape in g-dimensional space, and the components of physical values *)
RECURSIVE PhysShape(_, _)
PhysShape(t, g) ==
  CASE t.op = "mix" -> <<SumSeq([i \in 1..Len(t.args) |-> ProdSeq(PhysShape(t.args[i], g))])>>
    [] t.op = "vec" -> <<t.dim>> \o PhysShape(t.args[1], g)
    [] t.op = "ten" -> t.shape \o PhysShape(t.args[1], g)
    [] t.op = "wm" -> CASE t.mp \in {"covariant Piola", "contravariant Piola"} -> <<g>>
                        [] t.mp \in {"double covariant Piola", "double contravariant Piola"} -> <<g, g>>
                        [] OTHER -> A(t).rvs
    [] OTHER -> LET a == A(t) IN
                CASE a.map \in {"covariant Piola", "contravariant Piola"} -> <<g>>
                  [] a.map \in {"double covariant Piola", "double contravariant Piola", "covariant contravariant Piola"} -> <<g, g>>
                  [] OTHER -> a.rvs
RECURSIVE PhysDefined(_)     \* pullbacks of vectors and tensors of mixed or symmetric elements are not defined by UFL
PhysDefined(t) ==
  CASE t.op = "fe" -> TRUE
    [] t.op = "mix" -> \A i \in 1..Len(t.args) : PhysDefined(t.args[i])
    [] t.op \in {"vec", "ten"} -> t.args[1].op \notin {"mix"} /\ ~(t.args[1].op = "ten" /\ t.args[1].sym # <<>>) /\ PhysDefined(t.args[1])
                                  /\ (t.args[1].op \in {"vec", "ten"} => t.args[1].args[1].op = "fe")
    [] t.op = "wm" -> t.args[1].op = "fe"
    [] OTHER -> A(t).map \notin {"undefined", "symmetries"} /\ t.args[1].op = "fe"
RECURSIVE PhysComps(_, _)
PhysComps(t, g) ==
  LET sh == PhysShape(t, g)
  IN IF Simple(t) THEN [j \in 1..ProdSeq(sh) |-> [at |-> Unravel(j - 1, sh), sub |-> -1, loc |-> Unravel(j - 1, sh), path |-> <<>>, leaf |-> Unravel(j - 1, sh)]]
     ELSE LET owners == CASE t.op = "mix" -> Iota(Len(t.args)) [] t.op = "vec" -> Iota(t.dim) [] OTHER -> SubMap(t)
              inner == TLCEval(Flatten([s \in 1..Len(owners) |->
                         LET cs == TLCEval(PhysComps(IF t.op = "mix" THEN t.args[s] ELSE t.args[1], g))
                         IN [j \in 1..Len(cs) |-> [sub |-> owners[s], loc |-> cs[j].at, path |-> <<owners[s]>> \o cs[j].path, leaf |-> cs[j].leaf]]]))
          IN [j \in 1..Len(inner) |-> [at |-> Unravel(j - 1, sh), sub |-> inner[j].sub, loc |-> inner[j].loc, path |-> inner[j].path, leaf |-> inner[j].leaf]]
(* which physical components (flattened) stand for which *)
RECURSIVE Symm(_, _)
Symm(t, g) ==
  CASE t.op = "ten" -> [k \in 1..Len(t.sym) |-> <<Ravel(t.sym[k][1], t.shape), Ravel(t.sym[k][2], t.shape)>>]
    [] t.op = "mix" -> Flatten([i \in 1..Len(t.args) |->
         LET off == SumSeq([j \in 1..(i - 1) |-> ProdSeq(PhysShape(t.args[j], g))])  s == Symm(t.args[i], g)
         IN [k \in 1..Len(s) |-> <<s[k][1] + off, s[k][2] + off>>]])
    [] OTHER -> <<>>

(* ------------------------------------------------------ reconstruction *)
RECURSIVE Recon(_, _)
Recon(t, o) ==      \* t in normal form; o names the replaced options
  CASE t.op = "fe" -> [t EXCEPT !.fam = IF o.fam # "" THEN o.fam ELSE @, !.cell = IF o.cell.n # "none" THEN o.cell ELSE @,
                                !.deg = IF o.deg # NoDeg THEN o.deg ELSE @, !.qs = IF o.qs # "" THEN o.qs ELSE @, !.var = IF o.var # "" THEN o.var ELSE @]
    [] t.op = "tpe" -> [t EXCEPT !.args = [i \in 1..Len(@) |-> Recon(@[i], [o EXCEPT !.cell = NoCell])], !.cell = IF o.cell.n # "none" THEN o.cell ELSE @]
    [] t.op = "wm" -> [t EXCEPT !.args = [i \in 1..Len(@) |-> Recon(@[i], [o EXCEPT !.mp = ""])], !.mp = IF o.mp # "" THEN o.mp ELSE @]
    [] OTHER -> [t EXCEPT !.args = [i \in 1..Len(@) |-> Recon(@[i], o)]]
(* only a remapped element, at the top of the term, has a mapping to replace *)
RECURSIVE TakesMapping(_)
TakesMapping(t) == CASE t.op = "wm" -> TRUE [] t.op = "fe" -> FALSE [] OTHER -> \A i \in 1..Len(t.args) : TakesMapping(t.args[i])

(* ------------------------------------------------------ behaviours *)
Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)
VARIABLES stk, nops
vars == <<stk, nops>>
RECURSIVE Leaves(_)
Leaves(t) == IF t.op = "fe" THEN 1 ELSE SumSeq([i \in 1..Len(t.args) |-> Leaves(t.args[i])])
Init == stk = <<>> /\ nops = 0
OkTop == IF stk = <<>> THEN TRUE ELSE A(Norm(stk[Len(stk)])).ok
Push(i) == /\ Len(stk) < Focus.maxstack /\ OkTop /\ SumSeq([j \in 1..Len(stk) |-> Leaves(stk[j])]) < Focus.maxleaves
           /\ stk' = Append(stk, Focus.leaves[i]) /\ nops' = nops
Put(k, t) == stk' = Append(SubSeq(stk, 1, Len(stk) - k), t) /\ nops' = nops + 1
Top(k) == SubSeq(stk, Len(stk) - k + 1, Len(stk))
Wrap(i) == nops < Focus.maxops /\ Len(stk) >= 1 /\ OkTop /\ Put(1, [Focus.unary[i] EXCEPT !.args = Top(1)])
Join(i) == nops < Focus.maxops /\ Len(stk) >= Focus.nary[i].dim /\ OkTop
           /\ Put(Focus.nary[i].dim, [Focus.nary[i] EXCEPT !.args = Top(Focus.nary[i].dim), !.dim = NoDim])
Next == \/ \E i \in 1..Len(Focus.leaves) : Push(i)
        \/ \E i \in 1..Len(Focus.unary) : Wrap(i)
        \/ \E i \in 1..Len(Focus.nary) : Join(i)
Spec == Init /\ [][Next]_vars

Done == Len(stk) = 1
comps == "components" \in RangeOf(Focus.want)
Emit == Done =>
  LET nt == TLCEval(Norm(stk[1]))
      v == TLCEval(A(nt))
      n == TDim(v.cell)
  IN PrintT("@@" \o ToJson(
  [term |-> stk[1], norm |-> nt, a |-> v,
   ref |-> IF v.ok /\ comps THEN RefComps(nt) ELSE <<>>,
   phys |-> IF v.ok /\ comps /\ PhysDefined(nt)
            THEN [i \in 1..2 |-> [g |-> n + i - 1, shape |-> PhysShape(nt, n + i - 1), comps |-> PhysComps(nt, n + i - 1), sym |-> Symm(nt, n + i - 1)]] ELSE <<>>,
   submap |-> IF v.ok /\ nt.op = "ten" THEN SubMap(nt) ELSE <<>>,
   recon |-> IF v.ok /\ "recon" \in RangeOf(Focus.want)
             THEN [i \in 1..Len(Focus.options) |-> LET o == Focus.options[i]  r == Norm(Recon(nt, o))  ra == A(r)
                                                   IN [o |-> o, ok |-> ra.ok /\ (o.mp # "" => TakesMapping(nt)), why |-> ra.why, term |-> r]]
             ELSE <<>>]))

(* laws *)
NormIdem == Done => LET nt == TLCEval(Norm(stk[1])) IN Norm(nt) = nt
ReconLaw == Done => LET nt == TLCEval(Norm(stk[1])) IN A(nt).ok => Recon(nt, [fam |-> "", cell |-> NoCell, deg |-> NoDeg, qs |-> "", var |-> "", mp |-> ""]) = nt
CompLaw == Done /\ comps =>
  LET nt == TLCEval(Norm(stk[1]))  v == TLCEval(A(nt))  cs == TLCEval(RefComps(nt))
  IN v.ok => /\ Len(cs) = ProdSeq(v.rvs)
             /\ \A j \in 1..(Len(cs) - 1) : cs[j].sub <= cs[j + 1].sub                  \* laid end to end
             /\ nt.op = "ten" => Cardinality(RangeOf(SubMap(nt))) = v.nsub
DegreeLaw == Done => LET v == A(Norm(stk[1])) IN v.ok => v.sub <= v.sup
=============================================================================
