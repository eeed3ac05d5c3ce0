-------------------------- MODULE FinatQuadrature --------------------------
(* Quadrature rules: a client asks for a rule on a cell, with a degree per  *)
(* factor and a scheme.  The specification gives the structure of the       *)
(* answer (how points and weights are indexed, which factors are labelled   *)
(* Gauss-Legendre, orientation maps), the polynomials it must integrate,    *)
(* and their exact integrals.                                               *)
EXTENDS FinatUtil, TLC, Json, IOUtils

Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)   \* [cells, schemes, maxdeg (by simplex dimension), negative]

(* A cell is a tree: <<"P">>, <<"I">>, <<"T">>, <<"K">>, <<"Q">>, <<"H">>, splits <<"S", name>>, or <<"X", c1, c2, ..>> *)
Kind(c) == c[1]
RECURSIVE Parts(_)
(* the simplex factors whose polynomials a rule on c must integrate *)
Parts(c) == CASE Kind(c) = "Q" -> << <<"I">>, <<"I">> >>
              [] Kind(c) = "H" -> << <<"I">>, <<"I">>, <<"I">> >>
              [] Kind(c) = "X" -> Flatten([i \in 1..(Len(c) - 1) |-> Parts(c[i + 1])])
              [] OTHER -> << c >>
SimplexDim(c) == CASE Kind(c) = "P" -> 0 [] Kind(c) = "I" -> 1 [] Kind(c) = "T" -> 2 [] Kind(c) = "K" -> 3
                   [] Kind(c) = "S" -> c[3]
Dims(c) == [i \in 1..Len(Parts(c)) |-> SimplexDim(Parts(c)[i])]
(* free indices of the points: one per simplex factor; a hexahedron is treated as a whole *)
RECURSIVE NIdx(_)
NIdx(c) == CASE Kind(c) = "H" -> 1 [] Kind(c) = "X" -> SumSeq([i \in 1..(Len(c) - 1) |-> NIdx(c[i + 1])])
             [] Kind(c) = "Q" -> 2 [] OTHER -> 1
RECURSIVE Labels(_)
(* per index: is the factor an (unsplit) line, whose rule must be labelled Gauss-Legendre? *)
Labels(c) == CASE Kind(c) = "H" -> <<FALSE>> [] Kind(c) = "X" -> Flatten([i \in 1..(Len(c) - 1) |-> Labels(c[i + 1])])
               [] Kind(c) = "Q" -> <<TRUE, TRUE>> [] OTHER -> <<Kind(c) = "I">>
(* degrees given for the whole cell, as one number or one per (possibly nested) factor *)
RECURSIVE Shape(_)
Shape(c) == CASE Kind(c) = "Q" -> <<1, 1>> [] Kind(c) = "X" -> [i \in 1..(Len(c) - 1) |-> Len(Parts(c[i + 1]))] [] OTHER -> <<1>>
(* a uniform degree reaches every part *)
MaxDeg(c, i) == Focus.maxdeg[SimplexDim(Parts(c)[i]) + 1]

(* ---------------------------------------------------------- moments ---- *)
(* integral of x^a over the unit simplex of dimension n:  prod a_i! / (n + |a|)!   (Dirichlet)   *)
(* as factors, so that no number grows beyond TLC's integers                                      *)
RECURSIVE UpTo(_)
UpTo(n) == IF n <= 0 THEN <<>> ELSE UpTo(n - 1) \o <<n>>
Moment(n, a) == LET big == MaxOf(RangeOf(a) \cup {0})  tot == SumSeq(a)
                    at == CHOOSE i \in 0..Len(a) : (i = 0 /\ a = <<>>) \/ (i > 0 /\ a[i] = big)
                IN [num |-> Flatten([i \in 1..Len(a) |-> IF i = at THEN <<>> ELSE UpTo(a[i])]),
                    den |-> [k \in 1..(n + tot - big) |-> k + big]]
Value(n, a) == ProdSeq(Moment(n, a).num)                       \* numerator over Den
Den(n, a) == ProdSeq(Moment(n, a).den)
Monomials(n, d) == IF n = 0 THEN << <<>> >> ELSE Flatten([o \in 1..(d + 1) |-> Mis(n, o - 1)])
(* laws: adding up over a partition of unity; symmetry; iterated integration in one variable *)
Bary(b) == [num |-> ProdSeq(Flatten([i \in 1..Len(b) |-> UpTo(b[i])])), den |-> Factorial(Len(b) - 1 + SumSeq(b))]
Bump(b, i) == [b EXCEPT ![i] = @ + 1]
UnityLaw == \A n \in 1..3 : \A k \in 0..3 : LET M == Mis(n + 1, k) IN \A j \in 1..Len(M) :
   LET b == M[j]  S == [i \in 1..(n + 1) |-> Bary(Bump(b, i))]
   IN SumSeq([i \in 1..(n + 1) |-> S[i].num]) * Bary(b).den = Bary(b).num * S[1].den
DirichletLaw == \A n \in 1..3 : LET M == Monomials(n, 4) IN \A j \in 1..Len(M) :
   Value(n, M[j]) * Bary(<<0>> \o M[j]).den = Den(n, M[j]) * Bary(<<0>> \o M[j]).num
VolumeLaw == \A n \in 1..3 : Value(n, Rep(0, n)) * Factorial(n) = Den(n, Rep(0, n))
(* On the line the shifted Legendre polynomials of positive degree have integral zero; at high degrees this, and  *)
(* not the monomials, is what tells a rule with one point too few from an exact one (rounding hides the latter).   *)
Choose2(a, b) == Factorial(a) \div (Factorial(b) * Factorial(a - b))
LegendreLaw == \A n \in 1..5 : SumSeq([j \in 1..(n + 1) |->
   LET k == j - 1  c == Choose2(n, k) * Choose2(n + k, k) * (60 \div j) * Value(1, <<k>>) * (j \div Den(1, <<k>>))
   IN IF (n + k) % 2 = 0 THEN c ELSE -c]) = 0
ASSUME LegendreLaw
ASSUME UnityLaw /\ DirichletLaw /\ VolumeLaw
ASSUME \A n \in 0..3 : PrintT("@@" \o ToJson([kind |-> "moments", n |-> n, tab |->
     LET M == Monomials(n, Focus.maxdeg[n + 1]) IN [j \in 1..Len(M) |-> [a |-> M[j], f |-> Moment(n, M[j])]]]))

(* --------------------------------------------------------- the client -- *)
VARIABLES cel, deg, scheme, uniform      \* deg: one per part; uniform: the degree is passed as one number
vars == <<cel, deg, scheme, uniform>>
Cells == RangeOf(Focus.cells)
NParts(c) == Len(Parts(c))
Lowest == IF Focus.negative THEN -1 ELSE 0
Init == /\ cel \in Cells /\ scheme \in RangeOf(Focus.schemes) /\ uniform \in BOOLEAN
        /\ deg = Rep(Lowest, NParts(cel))
        /\ (NParts(cel) = 1 \/ Kind(cel) = "H" => uniform)
RaiseOne(i) == ~uniform /\ deg[i] < MaxDeg(cel, i) /\ deg' = [deg EXCEPT ![i] = @ + 1] /\ UNCHANGED <<cel, scheme, uniform>>
RaiseAll == uniform /\ (\A i \in 1..Len(deg) : deg[i] < MaxDeg(cel, i)) /\ deg' = [i \in 1..Len(deg) |-> deg[i] + 1]
            /\ UNCHANGED <<cel, scheme, uniform>>
Next == RaiseAll \/ \E i \in 1..Len(deg) : RaiseOne(i)
Spec == Init /\ [][Next]_vars

Rejected == \E i \in 1..Len(deg) : deg[i] < 0
(* axes along which a factor can be reflected: the lines; reversing the points of a line rule preserves it *)
Axes == Len(SelectSeq(Labels(cel), LAMBDA b : b))
Oriented == Kind(cel) # "H" /\ \A i \in 1..NParts(cel) : Kind(Parts(cel)[i]) = "I"
Structure == /\ Len(Labels(cel)) = NIdx(cel)
             /\ (Kind(cel) # "H" => NIdx(cel) = NParts(cel))
             /\ SumSeq(Shape(cel)) = (IF Kind(cel) = "H" THEN 1 ELSE NParts(cel))
Emit == PrintT("@@" \o ToJson([kind |-> "rule", cell |-> cel, deg |-> deg, shape |-> Shape(cel), scheme |-> scheme, uniform |-> uniform,
          rejected |-> Rejected, nidx |-> NIdx(cel), labels |-> Labels(cel), dims |-> Dims(cel), oriented |-> Oriented, axes |-> Axes]))
=============================================================================
