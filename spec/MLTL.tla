--------------------------------- MODULE MLTL ---------------------------------
(***************************************************************************)
(* Denotational semantics of (mission-time) bounded LTL over a finite       *)
(* prefix of an unbounded trace.                                            *)
(*                                                                          *)
(* A formula is a table (sequence) of nodes in children-before-parents      *)
(* order; a node is <<op, a, b, lb, ub>> with a, b indices of earlier nodes *)
(* (0 when unused; the atom number for "v").                                *)
(*                                                                          *)
(* Truth values are 0 (false), 1 (true), 2 (not determined by the prefix):  *)
(* strong Kleene logic, so a 0 or 1 holds in every extension of the prefix. *)
(*                                                                          *)
(*   FT  F[l,u] f at i : f at some j in [i+l, i+u]                          *)
(*       G[l,u] f at i : f at every such j                                  *)
(*       f U[l,u] g    : g at some j in [i+l,i+u], f at all k in [i+l,j)     *)
(*       f R[l,u] g    : dual of U                                          *)
(*   PT  O, H, S, T    : mirror images over the positions that exist        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

KNot(x)    == IF x = 2 THEN 2 ELSE 1 - x
KAnd(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = 1 /\ y = 1 THEN 1 ELSE 2
KOr(x, y)  == IF x = 1 \/ y = 1 THEN 1 ELSE IF x = 0 /\ y = 0 THEN 0 ELSE 2
KIff(x, y) == IF x = 2 \/ y = 2 THEN 2 ELSE IF x = y THEN 1 ELSE 0
KXor(x, y) == IF x = 2 \/ y = 2 THEN 2 ELSE IF x = y THEN 0 ELSE 1

(* value of operand sequence s (position p is s[p+1]) beyond the prefix: unknown *)
At(s, p) == IF p + 1 > Len(s) THEN 2 ELSE s[p + 1]

RECURSIVE UntilFrom(_, _, _, _)
UntilFrom(f, g, j, last) ==            \* g at some m in j..last, f at all of j..m-1
  IF j > last THEN 0
  ELSE LET y == At(g, j) IN
       IF y = 1 THEN 1
       ELSE LET x == At(f, j) IN
            IF x = 0 THEN y
            ELSE LET z == UntilFrom(f, g, j + 1, last) IN KOr(y, KAnd(x, z))

RECURSIVE ReleaseFrom(_, _, _, _)
ReleaseFrom(f, g, j, last) ==
  IF j > last THEN 1
  ELSE LET y == At(g, j) IN
       IF y = 0 THEN 0
       ELSE LET x == At(f, j) IN
            IF x = 1 THEN y
            ELSE LET z == ReleaseFrom(f, g, j + 1, last) IN KAnd(y, KOr(x, z))

RECURSIVE SinceFrom(_, _, _, _)
SinceFrom(f, g, j, first) ==           \* downwards from j to first, existing positions only
  IF j < first \/ j < 0 THEN 0
  ELSE LET y == At(g, j) IN
       IF y = 1 THEN 1
       ELSE LET x == At(f, j) IN
            IF x = 0 THEN y
            ELSE LET z == SinceFrom(f, g, j - 1, first) IN KOr(y, KAnd(x, z))

RECURSIVE TriggerFrom(_, _, _, _)
TriggerFrom(f, g, j, first) ==
  IF j < first \/ j < 0 THEN 1
  ELSE LET y == At(g, j) IN
       IF y = 0 THEN 0
       ELSE LET x == At(f, j) IN
            IF x = 1 THEN y
            ELSE LET z == TriggerFrom(f, g, j - 1, first) IN KAnd(y, KOr(x, z))

RECURSIVE SomeIn(_, _, _)
SomeIn(g, j, last) ==
  IF j > last THEN 0
  ELSE LET y == At(g, j) IN IF y = 1 THEN 1 ELSE KOr(y, SomeIn(g, j + 1, last))
RECURSIVE AllIn(_, _, _)
AllIn(g, j, last) ==
  IF j > last THEN 1
  ELSE LET y == At(g, j) IN IF y = 0 THEN 0 ELSE KAnd(y, AllIn(g, j + 1, last))

Max2(x, y) == IF x > y THEN x ELSE y

(* The sequence of values of node nd, given those of the earlier nodes, for the
   atoms' columns `atoms` (atoms[k] is the column of atom k-1), positions 0..n-1 *)
NodeValues(nd, vals, atoms, n) ==
  LET op == nd[1]
      a  == IF op \in {"v", "t", "f"} THEN <<>> ELSE vals[nd[2]]
      b  == IF nd[3] = 0 \/ op \in {"v", "t", "f"} THEN <<>> ELSE vals[nd[3]]
      l  == nd[4]
      u  == nd[5]
  IN CASE op = "v" -> atoms[nd[2] + 1]
       [] op = "t" -> [i \in 1..n |-> 1]
       [] op = "f" -> [i \in 1..n |-> 0]
       [] op = "!" -> [i \in 1..n |-> KNot(a[i])]
       [] op = "&" -> [i \in 1..n |-> KAnd(a[i], b[i])]
       [] op = "|" -> [i \in 1..n |-> KOr(a[i], b[i])]
       [] op = "^" -> [i \in 1..n |-> KXor(a[i], b[i])]
       [] op = "=" -> [i \in 1..n |-> KIff(a[i], b[i])]
       [] op = ">" -> [i \in 1..n |-> KOr(KNot(a[i]), b[i])]
       [] op = "F" -> [i \in 1..n |-> SomeIn(a, i - 1 + l, i - 1 + u)]
       [] op = "G" -> [i \in 1..n |-> AllIn(a, i - 1 + l, i - 1 + u)]
       [] op = "U" -> [i \in 1..n |-> UntilFrom(a, b, i - 1 + l, i - 1 + u)]
       [] op = "R" -> [i \in 1..n |-> ReleaseFrom(a, b, i - 1 + l, i - 1 + u)]
       [] op = "O" -> [i \in 1..n |-> SomeIn(a, Max2(0, i - 1 - u), i - 1 - l)]
       [] op = "H" -> [i \in 1..n |-> AllIn(a, Max2(0, i - 1 - u), i - 1 - l)]
       [] op = "S" -> [i \in 1..n |-> SinceFrom(a, b, i - 1 - l, i - 1 - u)]
       [] op = "T" -> [i \in 1..n |-> TriggerFrom(a, b, i - 1 - l, i - 1 - u)]

RECURSIVE ValuesUpTo(_, _, _, _, _)
ValuesUpTo(nodes, k, vals, atoms, n) ==
  IF k > Len(nodes) THEN vals
  ELSE ValuesUpTo(nodes, k + 1, Append(vals, TLCEval(NodeValues(nodes[k], vals, atoms, n))), atoms, n)

(* values of every node: Values(nodes, atoms, n)[k][i+1] is node k at position i *)
Values(nodes, atoms, n) == ValuesUpTo(nodes, 1, <<>>, atoms, n)

(* Worst-case propagation delay: no position beyond i + wpd matters for i.  Past
   operators look back only, so they add nothing. *)
RECURSIVE DelaysUpTo(_, _, _)
DelaysUpTo(nodes, k, ds) ==
  IF k > Len(nodes) THEN ds
  ELSE LET nd == nodes[k]
           op == nd[1]
           c  == IF op \in {"v", "t", "f"} THEN 0
                 ELSE IF nd[3] = 0 THEN ds[nd[2]] ELSE Max2(ds[nd[2]], ds[nd[3]])
       IN DelaysUpTo(nodes, k + 1, Append(ds, IF op \in {"F", "G", "U", "R"} THEN c + nd[5] ELSE c))
Delays(nodes) == DelaysUpTo(nodes, 1, <<>>)
===============================================================================
