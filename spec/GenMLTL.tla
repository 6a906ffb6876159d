-------------------------------- MODULE GenMLTL --------------------------------
(***************************************************************************)
(* Enumerates a small scope of formulas completely: every formula with two  *)
(* levels of operators over two atoms and the given intervals, for one tense.*)
(* TLC prints each as a node table (spec/MLTL.tla); the harness transliterates*)
(* them into concrete syntax and runs them through the real tools.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Tense,      \* "FT" or "PT"
          MaxUb       \* intervals are all [l,u] with 0 <= l <= u <= MaxUb

Ivs == {<<l, u>> : l \in 0..MaxUb, u \in 0..MaxUb} \cap {iv \in (0..MaxUb) \X (0..MaxUb) : iv[1] <= iv[2]}
Un  == IF Tense = "FT" THEN {"F", "G"} ELSE {"O", "H"}
Bi  == IF Tense = "FT" THEN {"U", "R"} ELSE {"S", "T"}
Log == {"&", "|", ">", "=", "^"}

A == <<"v", 0>>
B == <<"v", 1>>
Leaves == {A, B}

\* formulas as nested tuples <<op, x, y, l, u>> / <<op, x>> ...
L1 == Leaves
      \cup {<<"!", A>>}
      \cup {<<op, A, B>> : op \in Log}
      \cup {<<op, A, iv[1], iv[2]>> : op \in Un, iv \in Ivs}
      \cup {<<op, A, B, iv[1], iv[2]>> : op \in Bi, iv \in Ivs}
T1 == {x \in L1 : x[1] \in Un \cup Bi}
Mirror(x) == IF x[1] \in Un THEN <<x[1], B, x[3], x[4]>> ELSE <<x[1], B, x[2], x[4], x[5]>>

L2 == {<<"!", x>> : x \in L1}
      \cup {<<op, x, B>> : op \in Log, x \in L1}
      \cup {<<op, x, iv[1], iv[2]>> : op \in Un, iv \in Ivs, x \in L1}
      \cup {<<op, x, B, iv[1], iv[2]>> : op \in Bi, iv \in Ivs, x \in L1}
      \cup {<<op, B, x, iv[1], iv[2]>> : op \in Bi, iv \in Ivs, x \in L1}
Pairs == {<<op, x, y>> : op \in {"&", "|"}, x \in T1, y \in {Mirror(z) : z \in T1} \cup T1}

VARIABLE todo
Init == todo \in L1 \cup L2 \cup Pairs
Next == UNCHANGED todo
Spec == Init /\ [][Next]_todo
Emit == PrintT(<<"F", ToJson(todo)>>)
================================================================================
