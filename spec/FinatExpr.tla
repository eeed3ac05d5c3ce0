----------------------------- MODULE FinatExpr -----------------------------
(* Scalar expressions: a client builds expression trees on a stack; each    *)
(* tree's meaning under an assignment is defined by exact rational          *)
(* arithmetic and three-valued definedness.  TLC enumerates (or samples)    *)
(* programs and emits every tree with its value under every assignment.     *)
EXTENDS FinatUtil, TLC, Json, IOUtils

Focus == JsonDeserialize(IOEnv.FINAT_FOCUS)    \* [leaves, ops, envs, maxops, maxstack, maxleaves, ks]
VARIABLES stk, nops, last
vars == <<stk, nops, last>>

(* ------------------------------------------------------------ values --- *)
(* [k, n, d]: "num" a rational n/d in lowest terms, d > 0; "bool" with n in {0,1};           *)
(* "nan": no branch of a piecewise applies; "undef": no meaning, or numbers too large         *)
Val(k, n, d) == [k |-> k, n |-> n, d |-> d]
Undef == Val("undef", 0, 1)
NaN == Val("nan", 0, 1)
B(b) == Val("bool", IF b THEN 1 ELSE 0, 1)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Big == 20000
Norm(n, d) ==
  IF d = 0 THEN Undef
  ELSE LET s == IF d < 0 THEN -1 ELSE 1  g == Gcd(Abs(n), Abs(d))
           N == (s * n) \div g  D == (s * d) \div g
       IN IF Abs(N) > Big \/ D > Big THEN Undef ELSE Val("num", N, D)
Num(v) == v.k = "num"
Arith(a, b, F(_, _)) == IF a.k = "undef" \/ b.k = "undef" THEN Undef ELSE IF a.k = "nan" \/ b.k = "nan" THEN NaN
                        ELSE IF Num(a) /\ Num(b) THEN F(a, b) ELSE Undef
AddV(a, b) == Arith(a, b, LAMBDA x, y : Norm(x.n * y.d + y.n * x.d, x.d * y.d))
MulV(a, b) == Arith(a, b, LAMBDA x, y : Norm(x.n * y.n, x.d * y.d))
RECURSIVE PowV(_, _)
PowV(a, e) == IF e = 0 THEN Val("num", 1, 1) ELSE IF ~Num(a) THEN a
              ELSE IF e > 0 THEN MulV(a, PowV(a, e - 1)) ELSE IF a.n = 0 THEN Undef ELSE PowV(Norm(a.d, a.n), -e)
PowE(a, b) == IF Num(a) /\ Num(b) /\ b.d = 1 /\ Abs(b.n) <= 3 /\ ~(a.n = 0 /\ b.n <= 0) THEN PowV(a, b.n) ELSE Undef
AbsV(a) == IF Num(a) THEN Val("num", Abs(a.n), a.d) ELSE a
Order(op, a, b) == IF ~Num(a) \/ ~Num(b) THEN Undef
  ELSE LET l == a.n * b.d  r == b.n * a.d IN
       CASE op = "eq" -> B(l = r) [] op = "gt" -> B(l > r) [] op = "ge" -> B(l >= r) [] op = "lt" -> B(l < r) [] op = "le" -> B(l <= r)
Bool(v) == v.k = "bool"
True(v) == Bool(v) /\ v.n = 1

RECURSIVE Eval(_, _), FoldV(_, _, _, _), AllV(_, _, _, _), PieceV(_, _, _)
FoldV(F(_, _), args, i, env) == IF i = 1 THEN Eval(args[1], env) ELSE F(FoldV(F, args, i - 1, env), Eval(args[i], env))
(* conjunction (unit = TRUE) or disjunction (unit = FALSE) of all operands *)
AllV(args, i, unit, env) ==
  IF i = 0 THEN B(unit)
  ELSE LET v == Eval(args[i], env)  rest == AllV(args, i - 1, unit, env)
       IN IF ~Bool(v) \/ ~Bool(rest) THEN Undef ELSE B(IF unit THEN True(v) /\ True(rest) ELSE True(v) \/ True(rest))
(* the first branch, in order, whose condition is true *)
PieceV(args, i, env) ==
  IF i > Len(args) THEN NaN
  ELSE LET c == Eval(args[i + 1], env)
       IN IF ~Bool(c) THEN Undef ELSE IF True(c) THEN Eval(args[i], env) ELSE PieceV(args, i + 2, env)
Eval(e, env) ==
  CASE e.op = "num" -> Val("num", e.n, e.d)
    [] e.op = "bool" -> B(e.n = 1)
    [] e.op = "sym" -> LET v == env[e.s] IN Val("num", v[1], v[2])
    [] e.op = "add" -> FoldV(AddV, e.args, Len(e.args), env)
    [] e.op = "mul" -> FoldV(MulV, e.args, Len(e.args), env)
    [] e.op = "pow" -> PowE(Eval(e.args[1], env), Eval(e.args[2], env))
    [] e.op = "abs" -> AbsV(Eval(e.args[1], env))
    [] e.op \in {"eq", "gt", "ge", "lt", "le"} -> Order(e.op, Eval(e.args[1], env), Eval(e.args[2], env))
    [] e.op = "not" -> LET v == Eval(e.args[1], env) IN IF Bool(v) THEN B(~True(v)) ELSE Undef
    [] e.op = "and" -> AllV(e.args, Len(e.args), TRUE, env)
    [] e.op = "or" -> AllV(e.args, Len(e.args), FALSE, env)
    [] e.op = "ite" -> LET c == Eval(e.args[1], env) IN IF ~Bool(c) THEN Undef ELSE IF True(c) THEN Eval(e.args[2], env) ELSE Eval(e.args[3], env)
    [] e.op = "pw" -> PieceV(e.args, 1, env)

(* ----------------------------------------------------------- programs -- *)
Node(op, args) == [op |-> op, args |-> args, s |-> "", n |-> 0, d |-> 1]
IsBool(e) == e.op \in {"bool", "eq", "gt", "ge", "lt", "le", "not", "and", "or", "ite"}
Top(k) == SubSeq(stk, Len(stk) - k + 1, Len(stk))
Nums(s) == \A i \in 1..Len(s) : ~IsBool(s[i])
Bools(s) == \A i \in 1..Len(s) : IsBool(s[i])
RECURSIVE NLeaves(_)
NLeaves(e) == IF e.args = <<>> THEN 1 ELSE SumSeq([i \in 1..Len(e.args) |-> NLeaves(e.args[i])])
Total == SumSeq([i \in 1..Len(stk) |-> NLeaves(stk[i])])

Init == stk = <<>> /\ nops = 0 /\ last = "init"
Push(l) == /\ Len(stk) < Focus.maxstack /\ Total < Focus.maxleaves
           /\ stk' = Append(stk, [op |-> l.op, args |-> <<>>, s |-> l.s, n |-> l.n, d |-> l.d])
           /\ last' = "push" /\ UNCHANGED nops
Apply(op, k, typed) == /\ op \in RangeOf(Focus.ops) /\ nops < Focus.maxops /\ Len(stk) >= k /\ typed
                       /\ stk' = Append(SubSeq(stk, 1, Len(stk) - k), Node(op, Top(k))) /\ nops' = nops + 1 /\ last' = op
(* alternating value, condition *)
Pieces(s) == \A i \in 1..Len(s) : IsBool(s[i]) = (i % 2 = 0)
Next ==
  \/ \E i \in 1..Len(Focus.leaves) : Push(Focus.leaves[i])
  \/ \E op \in {"add", "mul"}, k \in RangeOf(Focus.ks) : Apply(op, k, Len(stk) >= k /\ Nums(Top(k)))
  \/ \E op \in {"and", "or"}, k \in RangeOf(Focus.ks) : Apply(op, k, Len(stk) >= k /\ Bools(Top(k)))
  \/ Apply("pow", 2, Len(stk) >= 2 /\ Nums(Top(2)))
  \/ Apply("abs", 1, Len(stk) >= 1 /\ Nums(Top(1)))
  \/ Apply("not", 1, Len(stk) >= 1 /\ Bools(Top(1)))
  \/ \E op \in {"eq", "gt", "ge", "lt", "le"} : Apply(op, 2, Len(stk) >= 2 /\ Nums(Top(2)))
  \/ Apply("ite", 3, Len(stk) >= 3 /\ Bools(Top(3)))
  \/ \E k \in {1, 2, 3} : Apply("pw", 2 * k, Len(stk) >= 2 * k /\ Pieces(Top(2 * k)))
Spec == Init /\ [][Next]_vars

(* -------------------------------------------------------------- laws --- *)
Ready == Len(stk) = 1 /\ nops > 0
Envs == Focus.envs
E(i) == Eval(stk[1], Envs[i])
Typed == Ready => \A i \in 1..Len(Envs) : E(i).k \in (IF IsBool(stk[1]) THEN {"bool", "undef"} ELSE {"num", "nan", "undef"})
(* algebra the definitions must satisfy, on every pair of values that occurs *)
Trichotomy == Ready /\ stk[1].op = "lt" => \A i \in 1..Len(Envs) :
   LET a == Eval(stk[1].args[1], Envs[i])  b == Eval(stk[1].args[2], Envs[i])
   IN Num(a) /\ Num(b) => (True(Order("lt", a, b)) <=> ~True(Order("ge", a, b))) /\ (True(Order("le", a, b)) <=> True(Order("ge", b, a)))
                          /\ (True(Order("eq", a, b)) <=> True(Order("le", a, b)) /\ True(Order("ge", a, b)))
DeMorgan == Ready /\ stk[1].op = "and" => \A i \in 1..Len(Envs) :
   Eval(Node("not", <<stk[1]>>), Envs[i]) = Eval(Node("or", [j \in 1..Len(stk[1].args) |-> Node("not", <<stk[1].args[j]>>)]), Envs[i])
(* a piecewise with one more branch agrees wherever the shorter one has a branch *)
Prefix == Ready /\ stk[1].op = "pw" /\ Len(stk[1].args) > 2 => \A i \in 1..Len(Envs) :
   LET short == PieceV(SubSeq(stk[1].args, 1, Len(stk[1].args) - 2), 1, Envs[i]) IN short.k = "num" => E(i) = short
Laws == Typed /\ Trichotomy /\ DeMorgan /\ Prefix
Emit == Ready /\ (\E i \in 1..Len(Envs) : E(i).k # "undef") =>
   PrintT("@@" \o ToJson([e |-> stk[1], vals |-> [i \in 1..Len(Envs) |-> LET v == E(i) IN <<v.k, v.n, v.d>>]]))
=============================================================================
