----------------------------- MODULE FinatUtil -----------------------------
(* Sequences, products, row-major arithmetic and permutations used by all   *)
(* other modules.  Entities, DoFs and components are 0-based when they are  *)
(* values and 1-based when they index a TLA+ sequence.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE SumSeq(_), ProdSeq(_), Flatten(_), CartSeq(_), Factorial(_)
SumSeq(s)  == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Factorial(n) == IF n <= 1 THEN 1 ELSE n * Factorial(n - 1)
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Filter(s, T(_)) == SelectSeq(s, T)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Iota(n) == [i \in 1..n |-> i - 1]
Rep(x, n) == [i \in 1..n |-> x]
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
SortInts(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* Cartesian product of a sequence of sequences, in row-major order *)
CartSeq(ss) ==
  IF ss = <<>> THEN << <<>> >>
  ELSE LET rest == CartSeq(Tail(ss))
       IN  Flatten([i \in 1..Len(Head(ss)) |->
                      [j \in 1..Len(rest) |-> <<Head(ss)[i]>> \o rest[j]]])

(* all multi-indices of a shape, row-major *)
MultiIdx(shape) == CartSeq([i \in 1..Len(shape) |-> Iota(shape[i])])

RECURSIVE Ravel(_, _)
Ravel(idx, shape) ==
  IF shape = <<>> THEN 0
  ELSE Ravel(Front(idx), Front(shape)) * Last(shape) + Last(idx)

IsPermOf(s, n) == Len(s) = n /\ RangeOf(s) = 0..(n - 1)
Compose(p, q) == [i \in 1..Len(p) |-> p[q[i] + 1]]         \* (p o q)
IdPerm(n) == Iota(n)
InvPerm(p) == [i \in 1..Len(p) |-> (CHOOSE j \in 1..Len(p) : p[j] = i - 1) - 1]

RECURSIVE PermsLex(_)
(* permutations of the elements of set S (ints), lexicographically sorted *)
PermsLex(S) ==
  IF S = {} THEN << <<>> >>
  ELSE LET order == SortInts(S)
       IN Flatten([i \in 1..Len(order) |->
            LET rest == PermsLex(S \ {order[i]})
            IN [j \in 1..Len(rest) |-> <<order[i]>> \o rest[j]]])

RECURSIVE CombLex(_, _, _)
(* k-subsets of lo..hi as increasing sequences, lexicographic *)
CombLex(lo, hi, k) ==
  IF k = 0 THEN << <<>> >>
  ELSE IF hi - lo + 1 < k THEN <<>>
  ELSE LET with == CombLex(lo + 1, hi, k - 1)
       IN [j \in 1..Len(with) |-> <<lo>> \o with[j]] \o CombLex(lo + 1, hi, k)

RECURSIVE Mis(_, _)
(* multi-indices of length m summing to n, lexicographically decreasing, as FIAT's mis *)
Mis(m, n) ==
  IF m = 1 THEN << <<n>> >>
  ELSE IF n = 0 THEN << Rep(0, m) >>
  ELSE Flatten([i \in 1..(n + 1) |->
         LET f == n - (i - 1)  rest == Mis(m - 1, n - f)
         IN [j \in 1..Len(rest) |-> <<f>> \o rest[j]]])
=============================================================================
