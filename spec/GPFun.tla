----------------------------- MODULE GPFun -----------------------------
(* What the built-in GP functions compute.  Numbers that are only compared    *)
(* and passed on are given by their rank (z is the rank of zero); small       *)
(* numbers are given exactly, in eighths; for protected functions the         *)
(* relation of the critical argument's magnitude to 0.001 decides the branch. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
B(x) == IF x THEN 1 ELSE 0
T(x, z) == x # z                       \* truth of a number

\* the operation behind each library name
Op(f) ==
  CASE f \in {"f_add", "add2floats"} -> "add" [] f \in {"f_sub", "sub2floats"} -> "sub" [] f \in {"f_mul", "mul2floats"} -> "mul"
    [] f \in {"f_div", "div2floats"} -> "div" [] f \in {"f_sqrt", "sqrt_float"} -> "sqrt" [] f \in {"f_log", "log_float"} -> "log"
    [] f \in {"f_abs", "abs_float"} -> "abs" [] f \in {"f_neg", "neg_float"} -> "neg" [] f \in {"f_inv", "inv_float"} -> "inv"
    [] f \in {"f_max", "max2floats"} -> "max" [] f \in {"f_min", "min2floats"} -> "min"
    [] f \in {"f_sin", "sin_float"} -> "sin" [] f \in {"f_cos", "cos_float"} -> "cos" [] f \in {"f_tan", "tan_float"} -> "tan"
    [] f \in {"f_iflte0", "iflte0_floats"} -> "iflte0" [] f \in {"f_ifgt0", "ifgt0_floats"} -> "ifgt0"
    [] f \in {"f_iflte", "iflte_floats"} -> "iflte" [] f \in {"f_ifgt", "ifgt_floats"} -> "ifgt"
    [] f \in {"f_and", "and2floats", "and2ints", "and2bools"} -> "and" [] f \in {"f_or", "or2floats", "or2ints", "or2bools"} -> "or"
    [] f \in {"f_not", "not2floats", "not2ints", "not2bools"} -> "not"
    [] f \in {"f_if_then_else", "if_then_else", "if_then_else3ints", "if_then_else3bools"} -> "ite"
    [] f = "argmax2floats" -> "argmax" [] OTHER -> "unknown"

\* operations that return one of their arguments: its rank
Choice(o, a, z) ==
  CASE o = "max" -> Max(a[1], a[2]) [] o = "min" -> Min(a[1], a[2])
    [] o = "iflte0" -> IF a[1] <= z THEN a[2] ELSE a[3] [] o = "ifgt0" -> IF a[1] > z THEN a[2] ELSE a[3]
    [] o = "iflte" -> IF a[1] <= a[2] THEN a[3] ELSE a[4] [] o = "ifgt" -> IF a[1] > a[2] THEN a[3] ELSE a[4]
    [] o = "ite" -> IF T(a[1], z) THEN a[2] ELSE a[3]
Choices == {"max", "min", "iflte0", "ifgt0", "iflte", "ifgt", "ite"}
\* operations that return a truth value or an index
Truth(o, a, z) ==
  CASE o = "and" -> B(T(a[1], z) /\ T(a[2], z)) [] o = "or" -> B(T(a[1], z) \/ T(a[2], z)) [] o = "not" -> B(~T(a[1], z))
    [] o = "argmax" -> B(a[2] > a[1])
Truths == {"and", "or", "not", "argmax"}
\* exact arithmetic in eighths (mul: in 64ths)
Exact(o, a) == CASE o = "add" -> a[1] + a[2] [] o = "sub" -> a[1] - a[2] [] o = "mul" -> a[1] * a[2]
                 [] o = "abs" -> Abs(a[1]) [] o = "neg" -> -a[1]
Exacts == {"add", "sub", "mul", "abs", "neg"}
\* protected operations: which branch is taken; t is the sign of |critical argument| - 0.001
Critical(o) == IF o = "div" THEN 2 ELSE 1
Protected == {"div", "inv", "log"}
Branch(o, t) == IF t[Critical(o)] = 1 THEN "plain" ELSE "zero"

\* where values that are no number (nan) go; n says which arguments are nan.  A
\* condition on nan is not judged, nor is the critical argument of a protected one
Conditions(o) == CASE o \in {"iflte0", "ifgt0", "ite"} -> {1} [] o \in {"iflte", "ifgt"} -> {1, 2} [] OTHER -> {}
Spreads == {"add", "sub", "mul", "neg", "abs", "sqrt", "sin", "cos", "tan"}
NanJudged(o, n) == \/ o \in Spreads \cup {"max", "min"}
                   \/ o = "div" /\ ~n[2]
                   \/ o \in Choices \ {"max", "min"} /\ \A i \in Conditions(o) : ~n[i]
NanResult(o, a, z, n, t) ==
  CASE o \in Spreads -> \E i \in DOMAIN n : n[i]
    [] o = "div" -> n[1] /\ Branch(o, t) = "plain"
    [] OTHER -> Choice(o, [i \in DOMAIN a |-> IF i \in Conditions(o) THEN a[i] ELSE B(n[i])], z) = 1

(* --------------------- the laws the definitions must obey ---------------- *)
CONSTANTS D, Bug
VARIABLES x
Neg(a, z) == 2 * z - a      \* mirror image of a rank around zero
Init == x \in [1..4 -> D]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
z0 == 0
Cond == IF Bug = "iflte0_strict" THEN (IF x[1] < z0 THEN x[2] ELSE x[3]) ELSE Choice("iflte0", x, z0)
Laws ==
  /\ Cond = Choice("ifgt0", <<x[1], x[3], x[2]>>, z0)
  /\ Choice("iflte", x, z0) = Choice("ifgt", <<x[1], x[2], x[4], x[3]>>, z0)
  /\ Choice("iflte0", x, z0) = Choice("iflte", <<x[1], z0, x[2], x[3]>>, z0)
  /\ Choice("max", x, z0) = Neg(Choice("min", <<Neg(x[1], z0), Neg(x[2], z0)>>, z0), z0)
  /\ Choice("max", x, z0) = Choice("ifgt", <<x[1], x[2], x[1], x[2]>>, z0)
  /\ Truth("and", x, z0) = 1 - Truth("or", <<Truth("not", <<x[1]>>, z0), Truth("not", <<x[2]>>, z0)>>, z0)
  /\ Truth("not", <<Truth("not", <<x[1]>>, z0)>>, z0) = B(T(x[1], z0))
  /\ Exact("sub", x) = Exact("add", <<x[1], Exact("neg", <<x[2]>>)>>)
  /\ Exact("abs", x) = Choice("max", <<x[1], Exact("neg", x)>>, z0)
  /\ x[1 + Truth("argmax", x, z0)] = Choice("max", x, z0)
=============================================================================
