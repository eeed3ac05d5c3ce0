--------------------------- MODULE FinatUflTable ---------------------------
(* The published table of finite element families: what each name denotes, where it is offered and     *)
(* which space and pullback it has.  Written down once from the documentation of the registry; the     *)
(* implementation's registry is checked against it, never the other way round.                         *)
EXTENDS FinatUtil, TLC
Simplices == {"interval", "triangle", "tetrahedron", "pentatope"}
Cubes == {"interval", "quadrilateral", "hexahedron", "tesseract"}
AnyCell == Simplices \cup Cubes \cup {"vertex", "prism", "pyramid"}
NoMin == -1000
NoMax == 1000
Row(f, s, r, sob, m, lo, hi, cells) == [f |-> f, s |-> s, r |-> r, sob |-> sob, m |-> m, lo |-> lo, hi |-> hi, cells |-> cells]
Table == <<
  Row("Lagrange", "CG", 0, "H1", "identity", 1, NoMax, AnyCell),
  Row("Brezzi-Douglas-Marini", "BDM", 1, "HDiv", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Discontinuous Lagrange", "DG", 0, "L2", "identity", 0, NoMax, AnyCell),
  Row("Discontinuous Taylor", "TDG", 0, "L2", "identity", 0, NoMax, Simplices),
  Row("Nedelec 1st kind H(curl)", "N1curl", 1, "HCurl", "covariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Nedelec 2nd kind H(curl)", "N2curl", 1, "HCurl", "covariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Raviart-Thomas", "RT", 1, "HDiv", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Brezzi-Douglas-Fortin-Marini", "BDFM", 1, "HDiv", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Crouzeix-Raviart", "CR", 0, "L2", "identity", 1, 1, Simplices \ {"interval"}),
  Row("Discontinuous Raviart-Thomas", "DRT", 1, "L2", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Kong-Mulder-Veldhuizen", "KMV", 0, "H1", "identity", 1, NoMax, Simplices \ {"interval"}),
  Row("Regge", "Regge", 2, "HEin", "double covariant Piola", 0, NoMax, Simplices),
  Row("Hellan-Herrmann-Johnson", "HHJ", 2, "HDivDiv", "double contravariant Piola", 0, NoMax, {"triangle", "tetrahedron"}),
  Row("Gopalakrishnan-Lederer-Schoberl 1st kind", "GLS", 2, "HCurlDiv", "covariant contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Gopalakrishnan-Lederer-Schoberl 2nd kind", "GLS2", 2, "HCurlDiv", "covariant contravariant Piola", 0, NoMax, Simplices \ {"interval"}),
  Row("Nonconforming Arnold-Winther", "AWnc", 2, "HDiv", "double contravariant Piola", 2, 2, {"triangle"}),
  Row("Conforming Arnold-Winther", "AWc", 2, "HDiv", "double contravariant Piola", 3, NoMax, {"triangle"}),
  Row("Hu-Zhang", "HZ", 2, "HDiv", "double contravariant Piola", 3, NoMax, {"triangle"}),
  Row("Bernardi-Raugel", "BR", 1, "H1", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Bernardi-Raugel Bubble", "BRB", 1, "H1", "contravariant Piola", NoMin, NoMax, Simplices \ {"interval"}),
  Row("Mardal-Tai-Winther", "MTW", 1, "H1", "contravariant Piola", 3, 3, {"triangle"}),
  Row("Hermite", "HER", 0, "H1", "custom", 3, 3, Simplices),
  Row("Argyris", "ARG", 0, "H2", "custom", 5, NoMax, {"triangle"}),
  Row("Bell", "BELL", 0, "H2", "custom", 5, 5, {"triangle"}),
  Row("Morley", "MOR", 0, "H2", "custom", 2, 2, {"triangle"}),
  Row("QuadraticPowellSabin6", "PS6", 0, "H2", "custom", 2, 2, {"triangle"}),
  Row("QuadraticPowellSabin12", "PS12", 0, "H2", "custom", 2, 2, {"triangle"}),
  Row("Hsieh-Clough-Tocher", "HCT", 0, "H2", "custom", 3, NoMax, {"triangle"}),
  Row("Reduced-Hsieh-Clough-Tocher", "HCT-red", 0, "H2", "custom", 3, 3, {"triangle"}),
  Row("Johnson-Mercier", "JM", 2, "HDiv", "double contravariant Piola", 1, 1, Simplices \ {"interval"}),
  Row("Arnold-Qin", "AQ", 1, "H1", "identity", 2, 2, {"triangle"}),
  Row("Reduced-Arnold-Qin", "AQ-red", 1, "H1", "contravariant Piola", 2, 2, {"triangle"}),
  Row("Christiansen-Hu", "CH", 1, "H1", "contravariant Piola", 1, 1, Simplices \ {"interval"}),
  Row("Alfeld-Sorokina", "AS", 1, "H1", "contravariant Piola", 2, 2, Simplices \ {"interval"}),
  Row("Guzman-Neilan 1st kind H1", "GN", 1, "H1", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Guzman-Neilan 2nd kind H1", "GN2", 1, "H1", "contravariant Piola", 1, NoMax, Simplices \ {"interval"}),
  Row("Guzman-Neilan H1(div)", "GNH1div", 1, "H1", "contravariant Piola", 2, NoMax, Simplices \ {"interval"}),
  Row("Guzman-Neilan Bubble", "GNB", 1, "H1", "contravariant Piola", NoMin, NoMax, Simplices \ {"interval"}),
  Row("Boundary Quadrature", "BQ", 0, "L2", "identity", 0, NoMax, AnyCell),
  Row("Bubble", "B", 0, "H1", "identity", 2, NoMax, Simplices),
  Row("FacetBubble", "FB", 0, "H1", "identity", 2, NoMax, Simplices),
  Row("Quadrature", "Quadrature", 0, "L2", "identity", 0, NoMax, AnyCell),
  Row("Real", "R", 0, "HInf", "identity", 0, 0, AnyCell),
  Row("Undefined", "U", 0, "L2", "identity", 0, NoMax, AnyCell),
  Row("Radau", "Rad", 0, "L2", "identity", 0, NoMax, {"interval"}),
  Row("HDiv Trace", "HDivT", 0, "L2", "identity", 0, NoMax, AnyCell),
  Row("Gauss-Legendre", "GL", 0, "L2", "identity", 0, NoMax, {"interval"}),
  Row("Gauss-Lobatto-Legendre", "GLL", 0, "H1", "identity", 1, NoMax, {"interval"}),
  Row("Bernstein", "", 0, "H1", "identity", 1, NoMax, Simplices),
  Row("Q", "", 0, "H1", "identity", 1, NoMax, Cubes),
  Row("DQ", "", 0, "L2", "identity", 0, NoMax, Cubes),
  Row("RTCE", "", 1, "HCurl", "covariant Piola", 1, NoMax, {"quadrilateral"}),
  Row("RTCF", "", 1, "HDiv", "contravariant Piola", 1, NoMax, {"quadrilateral"}),
  Row("NCE", "", 1, "HCurl", "covariant Piola", 1, NoMax, {"hexahedron"}),
  Row("NCF", "", 1, "HDiv", "contravariant Piola", 1, NoMax, {"hexahedron"}),
  Row("S", "", 0, "H1", "identity", 1, NoMax, Cubes),
  Row("DPC", "", 0, "L2", "identity", 0, NoMax, Cubes),
  Row("BDMCE", "", 1, "HCurl", "covariant Piola", 1, NoMax, {"quadrilateral"}),
  Row("BDMCF", "", 1, "HDiv", "contravariant Piola", 1, NoMax, {"quadrilateral"}),
  Row("SminusE", "SminusE", 1, "HCurl", "covariant Piola", 1, NoMax, {"quadrilateral", "hexahedron"}),
  Row("SminusF", "SminusF", 1, "HDiv", "contravariant Piola", 1, NoMax, {"quadrilateral"}),
  Row("SminusDiv", "SminusDiv", 1, "HDiv", "contravariant Piola", 1, NoMax, {"quadrilateral", "hexahedron"}),
  Row("SminusCurl", "SminusCurl", 1, "HCurl", "covariant Piola", 1, NoMax, {"quadrilateral", "hexahedron"}),
  Row("AAE", "", 1, "HCurl", "covariant Piola", 1, NoMax, {"hexahedron"}),
  Row("AAF", "", 1, "HDiv", "contravariant Piola", 1, NoMax, {"hexahedron"}),
  Row("DPC L2", "", 0, "L2", "L2 Piola", 1, NoMax, Cubes),
  Row("DQ L2", "", 0, "L2", "L2 Piola", 0, NoMax, Cubes),
  Row("Gauss-Legendre L2", "GL L2", 0, "L2", "L2 Piola", 0, NoMax, {"interval"}),
  Row("Discontinuous Lagrange L2", "DG L2", 0, "L2", "L2 Piola", 0, NoMax, AnyCell),
  Row("Extended-Gauss-Legendre", "EGL", 0, "H1", "identity", 2, NoMax, {"interval"}),
  Row("Extended-Gauss-Legendre Edge", "EGL-Edge", 0, "L2", "identity", 1, NoMax, {"interval"}),
  Row("Extended-Gauss-Legendre Edge L2", "EGL-Edge L2", 0, "L2", "L2 Piola", 1, NoMax, {"interval"}),
  Row("Gauss-Lobatto-Legendre Edge", "GLL-Edge", 0, "L2", "identity", 0, NoMax, {"interval"}),
  Row("Gauss-Lobatto-Legendre Edge L2", "GLL-Edge L2", 0, "L2", "L2 Piola", 0, NoMax, {"interval"}),
  Row("Direct Serendipity", "Sdirect", 0, "H1", "physical", 1, NoMax, {"quadrilateral"}),
  Row("Direct Serendipity Full H(div)", "Sdirect H(div)", 1, "HDiv", "physical", 1, NoMax, {"quadrilateral"}),
  Row("Direct Serendipity Reduced H(div)", "Sdirect H(div) red", 1, "HDiv", "physical", 1, NoMax, {"quadrilateral"}) >>

(* aliases: the same family by another name *)
Renames == [x \in {"Lobatto", "Lob"} |-> "Gauss-Lobatto-Legendre"] @@ [x \in {"Nedelec 1st kind H(div)", "N1div", "RTF", "N1F"} |-> "Raviart-Thomas"]
  @@ [x \in {"Nedelec 2nd kind H(div)", "N2div", "BDMF", "N2F"} |-> "Brezzi-Douglas-Marini"] @@ [x \in {"Discontinuous Lagrange Trace", "DGT"} |-> "HDiv Trace"]
  @@ [x \in {"P"} |-> "Lagrange"] @@ [x \in {"DP"} |-> "Discontinuous Lagrange"] @@ [x \in {"RTE", "N1E"} |-> "Nedelec 1st kind H(curl)"]
  @@ [x \in {"BDME", "N2E"} |-> "Nedelec 2nd kind H(curl)"] @@ [x \in {"DP L2"} |-> "Discontinuous Lagrange L2"]

(* the four complexes of finite element exterior calculus: for each dimension, the space of k-forms *)
(* and how its order relates to the order of the complex                                            *)
Trimmed(a, b, c, d) == << << <<a, 0>>, <<d, -1>> >>, << <<a, 0>>, <<b, 0>>, <<d, -1>> >>, << <<a, 0>>, <<c[1], 0>>, <<c[2], 0>>, <<d, -1>> >> >>
Complete(a, b, c, d) == << << <<a, 0>>, <<d, 0>> >>, << <<a, 0>>, <<b, 0>>, <<d, 0>> >>, << <<a, 0>>, <<c[1], 0>>, <<c[2], 0>>, <<d, 0>> >> >>
Complexes(l2) ==
  [Pm |-> Trimmed("P", "RTE", <<"N1E", "N1F">>, "DP" \o l2), P |-> Complete("P", "BDME", <<"N2E", "N2F">>, "DP" \o l2),
   Qm |-> Trimmed("Q", "RTCE", <<"NCE", "NCF">>, "DQ" \o l2), S |-> Complete("S", "BDMCE", <<"AAE", "AAF">>, "DPC" \o l2)]
(* names of the complexes; those of Always are complexes only, the others are families when no form degree is given *)
Always == [x \in {"P- Lambda", "P-"} |-> <<"Pm", "">>] @@ [x \in {"P Lambda"} |-> <<"P", "">>] @@ [x \in {"Q- Lambda", "Q-"} |-> <<"Qm", "">>]
  @@ [x \in {"S Lambda"} |-> <<"S", "">>] @@ [x \in {"P- Lambda L2", "P- L2"} |-> <<"Pm", " L2">>] @@ [x \in {"P Lambda L2"} |-> <<"P", " L2">>]
  @@ [x \in {"Q- Lambda L2", "Q- L2"} |-> <<"Qm", " L2">>] @@ [x \in {"S Lambda L2"} |-> <<"S", " L2">>]
WithForm == [x \in {"P"} |-> <<"P", "">>] @@ [x \in {"S"} |-> <<"S", "">>] @@ [x \in {"P L2"} |-> <<"P", " L2">>] @@ [x \in {"S L2"} |-> <<"S", " L2">>]

NoForm == -99
No(why) == [ok |-> FALSE, why |-> why, f |-> "", o |-> 0, s |-> "", r |-> 0, sob |-> "", m |-> "", lo |-> 0, hi |-> 0, cells |-> {}]
RowsOf(name) == {i \in 1..Len(Table) : Table[i].f = name \/ (Table[i].s # "" /\ Table[i].s = name)}
Known(name) == RowsOf(name) # {}
RECURSIVE Named(_, _)
Named(name, o) ==
  IF name \in DOMAIN Renames THEN Named(Renames[name], o)
  ELSE IF ~Known(name) THEN No("unknown")
  ELSE LET w == Table[CHOOSE i \in RowsOf(name) : TRUE]
       IN [ok |-> TRUE, why |-> "", f |-> w.f, o |-> o, s |-> w.s, r |-> w.r, sob |-> w.sob, m |-> w.m, lo |-> w.lo, hi |-> w.hi, cells |-> w.cells]
Feec(cx, n, o, k) ==
  IF k \notin 0..n \/ n > 3 THEN No("form degree")
  ELSE LET w == Complexes(cx[2])[cx[1]][IF n = 0 THEN 1 ELSE n][k + 1] IN Named(w[1], o + w[2])
ByName(name, n, o, k) ==
  IF k # NoForm /\ name \in DOMAIN WithForm THEN Feec(WithForm[name], n, o, k)
  ELSE IF name \in DOMAIN Always THEN (IF k = NoForm THEN No("form degree") ELSE Feec(Always[name], n, o, k))
  ELSE Named(name, o)

(* on cubes and products, the simplicial names mean the tensor-product families *)
OnCube == [x \in {"Lagrange"} |-> "Q"] @@ [x \in {"Discontinuous Lagrange"} |-> "DQ"] @@ [x \in {"Discontinuous Lagrange L2"} |-> "DQ L2"]
TopDim(cn) == CASE cn = "vertex" -> 0 [] cn = "interval" -> 1 [] cn \in {"triangle", "quadrilateral"} -> 2
                [] cn \in {"tetrahedron", "hexahedron", "prism", "pyramid"} -> 3 [] OTHER -> 4
EnrichedDegree == {"Bernardi-Raugel", "Bernardi-Raugel Bubble", "Guzman-Neilan 1st kind H1", "Guzman-Neilan 2nd kind H1", "Guzman-Neilan H1(div)", "Guzman-Neilan Bubble"}
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b

(* what a description denotes on a cell; cn is the name of the cell, "none", or "product" with the dimension n *)
Describe(name, cn, n, o, k) ==
  IF cn = "none" /\ name \in DOMAIN Renames \cup DOMAIN Always THEN No("needs a cell")
  ELSE IF cn = "none" /\ k # NoForm /\ name \in DOMAIN WithForm THEN No("needs a cell")
  ELSE LET w == ByName(name, n, o, k)
           cube == cn = "product" \/ cn \in Cubes \ Simplices
       IN IF ~w.ok THEN w
          ELSE IF cn \notin {"none", "product"} /\ cn \notin w.cells THEN No("cell")
          ELSE IF w.o < w.lo \/ w.o > w.hi THEN No("order")
          ELSE IF w.r > 0 /\ cn = "none" THEN No("needs a cell")
          ELSE [ok |-> TRUE, why |-> "", fam |-> IF cube /\ w.f \in DOMAIN OnCube THEN OnCube[w.f] ELSE w.f, deg |-> w.o, short |-> w.s,
                rvs |-> Rep(n, w.r), sob |-> w.sob, map |-> w.m,
                sub |-> IF w.f \in EnrichedDegree THEN Lo(w.o, n) ELSE w.o, sup |-> IF w.f \in EnrichedDegree THEN Hi(w.o, n) ELSE w.o]

(* design checks of the table *)
UniqueNames == \A i, j \in 1..Len(Table) : (i # j) => {Table[i].f, Table[i].s} \cap {Table[j].f, Table[j].s} \subseteq {""}
AliasesResolve == \A a \in DOMAIN Renames : Known(Renames[a]) /\ ~Known(a)
SpaceFitsMap == \A i \in 1..Len(Table) : LET w == Table[i] IN
  /\ (w.m \in {"custom", "L2 Piola"} => w.r = 0)
  /\ (w.m \in {"contravariant Piola", "covariant Piola"} => w.r = 1)
  /\ (w.m \in {"double covariant Piola", "double contravariant Piola", "covariant contravariant Piola"} => w.r = 2)
  /\ (w.m = "covariant Piola" => w.sob = "HCurl") /\ (w.sob = "HCurl" => w.m = "covariant Piola")
  /\ w.lo <= w.hi /\ w.cells # {}
=============================================================================
