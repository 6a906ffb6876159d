------------------------------ MODULE Booleanizer ------------------------------
(***************************************************************************)
(* Meaning of non-temporal expressions over the inputs.                     *)
(*                                                                          *)
(* An expression table is a sequence of nodes, operands first; a node is    *)
(* <<op, a, b, ty>> with a, b indices of operands and ty the type of its    *)
(* operands ("i" integers, "f" floats, "b" truth values).  Floats are        *)
(* multiples of 1/256 and are written as that multiple: every value a        *)
(* generated expression takes is exact, so rounding plays no part and        *)
(* equality up to R2U2_FLOAT_EPSILON (< 1/256) is equality.  Integers stay   *)
(* within the machine's range (no overflow), divisors are not zero.          *)
(*                                                                          *)
(* Integer division truncates towards zero and the sign of a remainder is    *)
(* that of the dividend (C).  prev(c, e) is the value of e one step before,  *)
(* c at the first step.  TAU is the number of the step.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

Scale == 256

AbsV(x) == IF x < 0 THEN -x ELSE x
TDiv(x, y) == LET q == AbsV(x) \div AbsV(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
TMod(x, y) == x - y * TDiv(x, y)
RECURSIVE IPow(_, _)
IPow(x, n) == IF n <= 0 THEN 1 ELSE x * IPow(x, n - 1)
(* bitwise operators on two's complement numbers of 24 bits: wide enough for all values *)
Wide == 16777216
U24(x) == IF x < 0 THEN x + Wide ELSE x
S24(x) == IF x >= Wide \div 2 THEN x - Wide ELSE x
RECURSIVE Root(_, _)
Root(n, r) == IF (r + 1) * (r + 1) > n THEN r ELSE Root(n, r + 1)
Bool01(b) == IF b THEN 1 ELSE 0
(* scaled division, exact by construction of the expressions: x / y = (x * Scale) / y *)
FDiv(x, y) == TDiv(x * Scale, y)

BzColumn(nd, cols, inputs, n) ==
  LET op == nd[1]
      ty == nd[4]
      x  == IF op \in {"in", "c", "tau"} THEN <<>> ELSE cols[nd[2]]
      y  == IF op \in {"in", "c", "tau", "neg", "abs", "sqrt", "~", "!"} THEN <<>> ELSE cols[nd[3]]
      f  == ty = "f"
      V(i) ==
        CASE op = "in"   -> inputs[nd[2] + 1][i]
          [] op = "c"    -> nd[2]
          [] op = "tau"  -> i - 1
          [] op = "+"    -> x[i] + y[i]
          [] op = "-"    -> x[i] - y[i]
          [] op = "*"    -> IF f THEN TDiv(x[i] * y[i], Scale) ELSE x[i] * y[i]
          [] op = "/"    -> IF f THEN FDiv(x[i], y[i]) ELSE TDiv(x[i], y[i])
          [] op = "%"    -> TMod(x[i], y[i])
          [] op = "pow"  -> IF f THEN TDiv(x[i] * x[i], Scale) ELSE IPow(x[i], y[i])   \* floats: squares only
          [] op = "neg"  -> -x[i]
          [] op = "abs"  -> AbsV(x[i])
          [] op = "sqrt" -> Root(x[i] * Scale, 0)
          [] op = "&"    -> S24(U24(x[i]) & U24(y[i]))
          [] op = "|"    -> S24(U24(x[i]) | U24(y[i]))
          [] op = "^"    -> S24(U24(x[i]) ^^ U24(y[i]))
          [] op = "~"    -> -x[i] - 1
          [] op = "prev" -> IF i = 1 THEN x[1] ELSE y[i - 1]
          [] op = "=="   -> Bool01(x[i] = y[i])
          [] op = "!="   -> Bool01(x[i] # y[i])
          [] op = "<"    -> Bool01(x[i] < y[i])
          [] op = "<="   -> Bool01(x[i] <= y[i])
          [] op = ">"    -> Bool01(x[i] > y[i])
          [] op = ">="   -> Bool01(x[i] >= y[i])
          [] op = "!"    -> 1 - x[i]
          [] op = "&&"   -> x[i] * y[i]
          [] op = "||"   -> IF x[i] + y[i] > 0 THEN 1 ELSE 0
  IN TLCEval([i \in 1..n |-> V(i)])

RECURSIVE BzColumnsUpTo(_, _, _, _, _)
BzColumnsUpTo(nodes, k, cols, inputs, n) ==
  IF k > Len(nodes) THEN cols
  ELSE BzColumnsUpTo(nodes, k + 1, Append(cols, BzColumn(nodes[k], cols, inputs, n)), inputs, n)
(* BzColumns(nodes, inputs, n)[k][i] is the value of node k at step i (counted from 1) *)
BzColumns(nodes, inputs, n) == BzColumnsUpTo(nodes, 1, <<>>, inputs, n)
===============================================================================
