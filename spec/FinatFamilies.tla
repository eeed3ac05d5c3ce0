--------------------------- MODULE FinatFamilies ---------------------------
(* What a family name denotes: for every family, cell and degree, the DoFs  *)
(* on an entity of each dimension, value shape, form degree and mapping,    *)
(* from the definitions of the spaces (periodic table, Regge and trimmed    *)
(* serendipity families, FDM and mass-lumped variants).  TLC enumerates the *)
(* combinations, checks the dimension identities, and emits each one.       *)
EXTENDS FinatCells, TLC, Json, IOUtils

RECURSIVE Fall(_, _)
Fall(a, n) == IF n = 0 THEN 1 ELSE a * Fall(a - 1, n - 1)
Binom(a, n) == IF a < n \/ a < 0 THEN 0 ELSE Fall(a, n) \div Factorial(n)
P(k, n) == IF k < 0 THEN 0 ELSE Binom(k + n, n)          \* dim of polynomials of degree k in n variables
Sym(n) == (n * (n + 1)) \div 2

Cells == {"interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"}
Simplices == {"interval", "triangle", "tetrahedron"}
Dim(c) == CASE c = "interval" -> 1 [] c \in {"triangle", "quadrilateral"} -> 2 [] OTHER -> 3

RTdim(k, n) == n * P(k - 1, n) + (IF n = 1 THEN 1 ELSE P(k - 1, n - 1))       \* P_{k-1}^n + x Ptilde_{k-1}
RTcell(k, n) == n * P(k - 2, n)
NEDcell(k, n) == CASE n = 2 -> k * (k - 1) [] n = 3 -> (k * (k - 1) * (k - 2)) \div 2
NEDdim(k, n) == CASE n = 2 -> k * (k + 2) [] n = 3 -> (k * (k + 2) * (k + 3)) \div 2

Continuous == {"CG", "CGe", "GLL", "BERN", "ILEG"}
Discontinuous == {"DG", "DGe", "GL", "LEG", "DTAY"}
HDivs == {"RT", "RTp", "BDM", "BDMp"}
HCurls == {"N1C", "N1Cp", "N2C", "N2Cp"}
Tensors == {"REG", "HHJ", "GLSA", "GLSB"}
Lines == {"FDML", "FDMDL", "FDMQ", "FDMBH", "FDMBL", "FDMH"}
Quads == {"TSF", "TSE", "BDMCE", "BDMCF"}
Others == {"CR", "BUB", "FBUB", "S", "DPC", "TR", "KMV", "CGa", "CGi", "DGa"}
Families == Continuous \cup Discontinuous \cup HDivs \cup HCurls \cup Tensors \cup Lines \cup Quads \cup Others

Allowed(f, c, k) ==
  LET n == Dim(c) IN
  CASE f \in Continuous -> c \in Simplices /\ k >= 1
    [] f \in Discontinuous -> c \in Simplices
    [] f \in HDivs \cup HCurls -> c \in {"triangle", "tetrahedron"} /\ k >= 1
    [] f \in {"REG", "HHJ", "GLSB"} -> c \in {"triangle", "tetrahedron"}
    [] f = "GLSA" -> c \in {"triangle", "tetrahedron"} /\ k >= 1
    [] f \in {"FDML", "FDMQ", "FDMBH"} -> c = "interval" /\ k >= 1
    [] f \in {"FDMDL", "FDMBL"} -> c = "interval"
    [] f = "FDMH" -> c = "interval" /\ k \in 3..4         \* beyond, FIAT's eigenproblem is singular
    [] f \in Quads -> c = "quadrilateral" /\ k >= 1
    [] f = "CR" -> c \in {"triangle", "tetrahedron"} /\ k = 1
    [] f = "BUB" -> c \in Simplices /\ k >= n + 1
    [] f = "FBUB" -> c \in {"triangle", "tetrahedron"} /\ k >= n
    [] f = "S" -> c \in {"quadrilateral", "hexahedron"} /\ k >= 1
    [] f = "DPC" -> c \in {"quadrilateral", "hexahedron"}
    [] f = "TR" -> c \in {"triangle", "tetrahedron"}
    [] f = "KMV" -> (c = "triangle" /\ k \in 1..4) \/ (c = "tetrahedron" /\ k \in 1..3)
    [] f \in {"CGa", "CGi"} -> c \in Simplices /\ k >= 1
    [] f = "DGa" -> c \in Simplices

(* DoFs on an entity of dimension d (0..n) *)
On(f, n, k, d) ==
  LET cell == d = n  facet == d = n - 1 IN
  CASE f \in Continuous \cup {"FDML"} -> Binom(k - 1, d)                     \* interior lattice points
    [] f \in Discontinuous \cup {"DPC", "FDMDL", "FDMBL", "FDMQ", "FDMBH"} -> IF cell THEN P(k, n) ELSE 0
    [] f = "FDMH" -> IF cell THEN k - 1 ELSE 1
    [] f \in {"RT", "RTp"} -> IF cell THEN RTcell(k, n) ELSE IF facet THEN P(k - 1, n - 1) ELSE 0
    [] f \in {"BDM", "BDMp"} -> IF cell THEN (IF k = 1 THEN 0 ELSE NEDdim(k - 1, n)) ELSE IF facet THEN P(k, n - 1) ELSE 0
    [] f \in {"N1C", "N1Cp"} -> (CASE d = 0 -> 0 [] d = 1 -> k [] d = 2 -> NEDcell(k, 2) [] d = 3 -> NEDcell(k, 3))
    [] f \in {"N2C", "N2Cp"} -> (CASE d = 0 -> 0 [] d = 1 -> k + 1 [] d = 2 -> RTdim(k - 1, 2)
                                  [] d = 3 -> IF k <= 2 THEN 0 ELSE RTdim(k - 2, 3))
    [] f = "REG" -> IF d = 0 THEN 0 ELSE Sym(d) * Binom(k + 1, d)
    [] f = "HHJ" -> IF cell THEN Sym(n) * P(k, n) - (n + 1) * P(k, n - 1) ELSE IF facet THEN P(k, n - 1) ELSE 0
    [] f = "GLSB" -> IF cell THEN (n * n - 1) * P(k, n) - (n + 1) * (n - 1) * P(k, n - 1)
                     ELSE IF facet THEN (n - 1) * P(k, n - 1) ELSE 0
    [] f = "GLSA" -> IF cell THEN (n * n - 1) * P(k, n) - (n + 1) * (n - 1) * P(k, n - 1)
                     ELSE IF facet THEN (n - 1) * P(k - 1, n - 1) ELSE 0
    [] f = "S" -> (CASE d = 0 -> 1 [] d = 1 -> k - 1 [] d = 2 -> P(k - 4, 2) [] d = 3 -> P(k - 6, 3))
    [] f \in {"BDMCE", "BDMCF"} -> (CASE d = 0 -> 0 [] d = 1 -> k + 1 [] d = 2 -> k * (k - 1))
    [] f \in {"TSF", "TSE"} -> (CASE d = 0 -> 0 [] d = 1 -> k [] d = 2 -> (IF k = 1 THEN 0 ELSE k * (k - 1) - P(k - 3, 1)))
    [] f = "CR" -> IF facet THEN 1 ELSE 0
    [] f = "BUB" -> IF cell THEN Binom(k - 1, n) ELSE 0
    [] f = "FBUB" -> IF facet THEN Binom(k - 1, n - 1) ELSE 0
    [] f = "TR" -> IF facet THEN P(k, n - 1) ELSE 0
    [] f = "KMV" -> (CASE d = 0 -> 1 [] d = 1 -> k - 1
                      [] d = 2 -> (IF n = 2 THEN (<<0, 1, 3, 6>>)[k] ELSE (<<0, 1, 3>>)[k]) [] d = 3 -> (<<0, 1, 4>>)[k])
    [] f = "CGi" -> Binom(2 * k - 1, d)                                       \* the lattice of the refined cell
    [] f = "CGa" -> IF ~cell THEN Binom(k - 1, d)                             \* split at the barycentre
                    ELSE SumSeq([j \in 1..(n + 1) |-> Binom(n + 1, j - 1) * Binom(k - 1, j - 1)])
    [] f = "DGa" -> IF cell THEN (n + 1) * P(k, n) ELSE 0

Vsh(f, n) == CASE f \in HDivs \cup HCurls \cup Quads -> <<n>> [] f \in Tensors -> <<n, n>> [] OTHER -> <<>>
(* form degree, as the tuple <<-1>> when there is none *)
Fd(f, n) ==
  CASE f \in Continuous \cup {"FDML", "FDMQ", "FDMBH", "FDMH", "BUB", "FBUB", "S", "KMV", "CGa", "CGi", "TR"} ->
         (IF f = "TR" THEN <<n - 1>> ELSE <<0>>)
    [] f \in Discontinuous \cup {"DPC", "FDMDL", "FDMBL", "DGa"} -> <<n>>
    [] f \in HDivs \cup {"TSF", "BDMCF"} -> <<n - 1>>
    [] f \in HCurls \cup {"TSE", "BDMCE"} -> <<1>>
    [] f = "REG" -> <<1, 1>> [] f = "HHJ" -> <<n - 1, n - 1>> [] f \in {"GLSA", "GLSB"} -> <<1, n - 1>>
    [] f = "CR" -> <<-1>>
Mapping(f) ==
  CASE f \in HDivs \cup {"TSF", "BDMCF"} -> "contravariant piola"
    [] f \in HCurls \cup {"TSE", "BDMCE"} -> "covariant piola"
    [] f = "REG" -> "double covariant piola" [] f = "HHJ" -> "double contravariant piola"
    [] f \in {"GLSA", "GLSB"} -> "covariant contravariant piola" [] OTHER -> "affine"

NEnt(c, d) == Cardinality({i \in 1..CellIndex(CellNamed(c)) : EntDim(Entities(CellNamed(c))[i]) = d})
(* ------------------------------------------------------- variants ------- *)
(* A variant names a choice of degrees of freedom (which changes no count)  *)
(* or a split of the cell into subcells (which replaces the counts).        *)
Splits == {"alfeld", "iso", "iso(3)", "powell-sabin", "powell-sabin(12)", "worsey-farin"}
Points(f) == CASE f = "CG" -> {"spectral", "chebyshev", "equispaced", "gll"}
               [] f = "DG" -> {"spectral", "chebyshev", "equispaced", "equispaced_interior", "gll", "gl"}
               [] f \in {"RT", "BDM", "N1C", "N2C"} -> {"integral", "point", "integral(1)", "integral(2)"}
               [] f \in {"REG", "HHJ"} -> {"integral", "point", "integral(1)"}
               [] f \in {"LEG", "ILEG"} -> {"integral"}
               [] OTHER -> {}
Variants(f, c) == {""} \cup Points(f)
     \cup (IF f \in {"CG", "DG", "LEG", "ILEG"} THEN {s \in Splits : (s = "powell-sabin(12)" => c = "triangle") /\ (s = "worsey-farin" => c = "tetrahedron")
                                                               /\ (s = "powell-sabin" => c # "tetrahedron")} ELSE {})
     \cup (IF f = "CG" THEN {"spectral,alfeld", "chebyshev,iso"} ELSE IF f = "DG" THEN {"gl,alfeld", "chebyshev,iso"} ELSE {})
SplitOf(v) == CASE v \in {"spectral,alfeld", "gl,alfeld"} -> "alfeld" [] v = "chebyshev,iso" -> "iso" [] v \in Splits -> v [] OTHER -> ""
(* sub-simplices of each dimension inside an entity of dimension d of a cell of dimension n *)
Barycentric(d) == CASE d = 0 -> <<1>> [] d = 1 -> <<1, 2>> [] d = 2 -> <<1, 6, 6>> [] d = 3 -> <<1, 14, 36, 24>>
Whole(d) == [j \in 1..(d + 1) |-> IF j = d + 1 THEN 1 ELSE 0]
Alfeld(d) == IF d = 0 THEN <<1>> ELSE [j \in 1..(d + 1) |-> Binom(d + 1, j - 1)]
Inside(s, n, d) ==
  CASE s = "alfeld" -> IF d = n THEN Alfeld(d) ELSE Whole(d)
    [] s = "powell-sabin" -> Barycentric(d)
    [] s = "powell-sabin(12)" -> (CASE d = 0 -> <<1>> [] d = 1 -> <<1, 2>> [] d = 2 -> <<4, 15, 12>>)
    [] s = "worsey-farin" -> (CASE d = 3 -> <<1, 8, 18, 12>> [] d = 2 -> Alfeld(2) [] OTHER -> Whole(d))
    [] OTHER -> Whole(d)
SubCells(s, n) == CASE s = "iso" -> (<<2, 4, 8>>)[n] [] s = "iso(3)" -> (<<3, 9, 27>>)[n] [] OTHER -> Inside(s, n, n)[n + 1]
(* the split adds up: alternating sum over the closed cell is one *)
EulerLaw == \A n \in 1..3 : \A s \in {"alfeld", "powell-sabin"} \cup (IF n = 2 THEN {"powell-sabin(12)"} ELSE {}) \cup (IF n = 3 THEN {"worsey-farin"} ELSE {}) :
   \A d \in 0..n : LET I == Inside(s, n, d) IN SumSeq([j \in 1..(d + 1) |-> IF (d - j) % 2 = 1 THEN I[j] ELSE -I[j]]) = 1
ASSUME EulerLaw
OnV(f, v, n, k, d) == LET s == SplitOf(v) IN
  CASE s = "" -> On(f, n, k, d)
    [] f \in Discontinuous -> IF d = n THEN SubCells(s, n) * P(k, n) ELSE 0
    [] s = "iso" -> Binom(2 * k - 1, d)
    [] s = "iso(3)" -> Binom(3 * k - 1, d)
    [] OTHER -> LET I == Inside(s, n, d) IN SumSeq([j \in 1..(d + 1) |-> I[j] * Binom(k - 1, j - 1)])
Total(f, c, k) == SumSeq([d \in 1..(Dim(c) + 1) |-> NEnt(c, d - 1) * On(f, Dim(c), k, d - 1)])

TotalV(f, v, c, k) == SumSeq([d \in 1..(Dim(c) + 1) |-> NEnt(c, d - 1) * OnV(f, v, Dim(c), k, d - 1)])

VARIABLES fam, cel, deg, var
vars == <<fam, cel, deg, var>>
MaxDeg == CASE Dim(cel) = 1 -> 9 [] Dim(cel) = 2 /\ var = "" -> 7 [] OTHER -> 4
Init == fam \in Families /\ cel \in Cells /\ deg = 0 /\ var \in Variants(fam, cel)
Next == deg < MaxDeg /\ deg' = deg + 1 /\ UNCHANGED <<fam, cel, var>>
Spec == Init /\ [][Next]_vars

(* dimension identities that do not come from the per-entity counts *)
SpaceDim(f, n, k) ==
  CASE f \in Continuous \cup Discontinuous \cup {"DPC", "FDML", "FDMDL", "FDMBL", "FDMQ", "FDMBH", "FDMH"} -> P(k, n)
    [] f \in {"RT", "RTp"} -> RTdim(k, n)
    [] f \in {"BDM", "BDMp", "N2C", "N2Cp"} -> n * P(k, n)
    [] f \in {"N1C", "N1Cp"} -> NEDdim(k, n)
    [] f \in {"REG", "HHJ"} -> Sym(n) * P(k, n)
    [] f = "GLSB" -> (n * n - 1) * P(k, n)
    [] f \in {"BDMCE", "BDMCF"} -> 2 * P(k, 2) + 2
    [] f = "S" /\ n = 2 -> P(k, 2) + (IF k = 1 THEN 1 ELSE 2)
    [] f = "CGi" -> P(2 * k, n)
    [] OTHER -> -1
Laws == Allowed(fam, cel, deg) =>
  LET n == Dim(cel) IN
  /\ \A d \in 0..n : On(fam, n, deg, d) >= 0
  /\ Total(fam, cel, deg) > 0
  /\ SpaceDim(fam, n, deg) \in {-1, Total(fam, cel, deg)}
  /\ (SplitOf(var) = "" => TotalV(fam, var, cel, deg) = Total(fam, cel, deg))
  (* splitting refines: the split space contains the unsplit one *)
  /\ (SplitOf(var) # "" => TotalV(fam, var, cel, deg) >= Total(fam, cel, deg))
  /\ (SplitOf(var) = "iso" /\ fam \in Continuous => TotalV(fam, var, cel, deg) = P(2 * deg, n))
  /\ (var = "alfeld" /\ fam = "CG" => TotalV(fam, var, cel, deg) = Total("CGa", cel, deg))
Emit == Allowed(fam, cel, deg) =>
  PrintT("@@" \o ToJson([fam |-> fam, cell |-> cel, deg |-> deg, var |-> var, nd |-> TotalV(fam, var, cel, deg),
     on |-> [d \in 1..(Dim(cel) + 1) |-> OnV(fam, var, Dim(cel), deg, d - 1)],
     vsh |-> Vsh(fam, Dim(cel)), fd |-> Fd(fam, Dim(cel)), map |-> Mapping(fam)]))
=============================================================================
