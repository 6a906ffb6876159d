--------------------------------- MODULE Sat ----------------------------------
(***************************************************************************)
(* Satisfiability and equivalence of future-time MLTL over finite traces,    *)
(* decided by enumeration: the set of the traces of n positions that satisfy  *)
(* each subformula at each position (docs/Preliminaries/mltl.md, with a       *)
(* proposition false behind the end of the trace).                            *)
(*                                                                          *)
(* A trace is a number whose digits are the values of the variables at the    *)
(* positions: variable v has r.sizes[v] values, the least of which is         *)
(* r.offs[v] (truth values: 2 values from 0).                                 *)
(*                                                                          *)
(* Nodes are <<op, a, b, lb, ub>> as in MLTL.tla, children first; bounds are   *)
(* terms over the symbolic bounds: <<"n", c>>, <<"b", k>>, <<"+", x, y>>, ...; *)
(* <<"cmp", op, x, y>> compares integer terms <<"i", v>>, <<"n", c>>,          *)
(* <<"+", x, y>>, ...                                                         *)
(*                                                                          *)
(* A record is [id, nodes, roots, sizes, offs, kind, ...]:                    *)
(*   "sat":   answers[k] \in {"sat", "unsat", ""} for each formula, `all` for  *)
(*            their conjunction, `strict` = 1 if traces of every length count, *)
(*            `partial` = 1 if it may overlook the shorter ones.               *)
(*   "equiv": answer \in {"equiv", "not-equiv", ""} for the chain of formulas, *)
(*            under constraints cons over the bounds, each from 0..top.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Records == JsonDeserialize(IOEnv.RECORDS)
VARIABLE rec

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
(* division of C: towards zero *)
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

(* terms over the symbolic bounds b (b[k + 1] is the value of bk) *)
RECURSIVE BT(_, _)
BT(e, b) == CASE e[1] = "n" -> e[2]
              [] e[1] = "b" -> b[e[2] + 1]
              [] e[1] = "+" -> BT(e[2], b) + BT(e[3], b)
              [] e[1] = "-" -> BT(e[2], b) - BT(e[3], b)
              [] e[1] = "*" -> BT(e[2], b) * BT(e[3], b)
              [] e[1] = "max" -> Max2(BT(e[2], b), BT(e[3], b))
              [] e[1] = "min" -> Min2(BT(e[2], b), BT(e[3], b))
Cmp(op, x, y) == CASE op = "==" -> x = y [] op = "!=" -> x # y [] op = "<" -> x < y
                   [] op = ">" -> x > y [] op = "<=" -> x <= y [] op = ">=" -> x >= y
Temporal == {"F", "G", "U", "R"}
Unary == {"!", "F", "G"}

(* the table with the bounds put in *)
Ground(nodes, b) == [k \in 1..Len(nodes) |-> IF nodes[k][1] \in Temporal
                                             THEN <<nodes[k][1], nodes[k][2], nodes[k][3], BT(nodes[k][4], b), BT(nodes[k][5], b)>>
                                             ELSE nodes[k]]
Legal(ns) == \A k \in 1..Len(ns) : ns[k][1] \in Temporal => 0 <= ns[k][4] /\ ns[k][4] <= ns[k][5]

(* positions behind its own that a node looks at *)
Reach(ns) ==
  LET f[k \in 1..Len(ns)] ==
        LET n == ns[k]
        IN IF n[1] \in {"v", "t", "f", "cmp"} THEN 0
           ELSE Max2(f[n[2]], IF n[1] \in Unary THEN 0 ELSE f[n[3]]) + (IF n[1] \in Temporal THEN n[5] ELSE 0)
  IN f

RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE s[k] * Prod(s, k - 1)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)

RECURSIVE IT(_, _)
IT(e, env) == CASE e[1] = "n" -> e[2]
                [] e[1] = "i" -> env[e[2] + 1]
                [] e[1] = "+" -> IT(e[2], env) + IT(e[3], env)
                [] e[1] = "-" -> IT(e[2], env) - IT(e[3], env)
                [] e[1] = "*" -> IT(e[2], env) * IT(e[3], env)
                [] e[1] = "/" -> Quot(IT(e[2], env), IT(e[3], env))
                [] e[1] = "%" -> LET x == IT(e[2], env) y == IT(e[3], env) IN x - y * Quot(x, y)
                [] e[1] = "neg" -> -IT(e[2], env)

(* sets of traces of `n` positions (told apart at 0..L-1) that satisfy each node at each position *)
Sets(ns, sizes, offs, L, n) ==
  LET P   == Prod(sizes, Len(sizes))
      All == 0..(Pow(P, L) - 1)
      W   == TLCEval([v \in 1..Len(sizes) |-> [p \in 0..(L - 1) |-> Pow(P, p) * Prod(sizes, v - 1)]])
      Val(w, v, p) == offs[v] + ((w \div W[v][p]) % sizes[v])
      RECURSIVE Build(_)
      Build(acc) ==
        IF Len(acc) = Len(ns) THEN acc
        ELSE LET nd == ns[Len(acc) + 1]
                 op == nd[1]
                 A(p) == acc[nd[2]][p]
                 B(p) == acc[nd[3]][p]
                 At(p) ==
                   (CASE op = "v" -> IF p >= n THEN {} ELSE {w \in All : Val(w, nd[2] + 1, p) = 1}
                      [] op = "t" -> All
                      [] op = "f" -> {}
                      [] op = "cmp" -> IF p >= n THEN {}
                                       ELSE {w \in All : LET env == TLCEval([v \in 1..Len(sizes) |-> Val(w, v, p)])
                                                         IN Cmp(nd[2], IT(nd[3], env), IT(nd[4], env))}
                      [] op = "!" -> All \ A(p)
                      [] op = "&" -> A(p) \cap B(p)
                      [] op = "|" -> A(p) \cup B(p)
                      [] op = ">" -> (All \ A(p)) \cup B(p)
                      [] op = "=" -> (A(p) \cap B(p)) \cup (All \ (A(p) \cup B(p)))
                      [] op = "^" -> (A(p) \cup B(p)) \ (A(p) \cap B(p))
                      [] op \in Temporal ->
                         LET lo == p + nd[4]
                             hi == p + nd[5]
                             (* fold from the last position of the interval back: what happens from j on *)
                             RECURSIVE From(_)
                             From(j) == IF j > hi THEN (IF op \in {"G", "R"} THEN All ELSE {})
                                        ELSE CASE op = "G" -> A(j) \cap From(j + 1)
                                               [] op = "F" -> A(j) \cup From(j + 1)
                                               [] op = "U" -> B(j) \cup (A(j) \cap From(j + 1))
                                               [] op = "R" -> B(j) \cap (A(j) \cup From(j + 1))
                         IN IF hi >= L THEN {}       \* never looked at
                            ELSE IF n <= lo THEN (IF op \in {"G", "R"} THEN All ELSE {})
                            ELSE From(lo))
             IN Build(Append(acc, TLCEval([p \in 0..(L - 1) |-> At(p)])))
  IN Build(<<>>)

(* satisfiable over traces of n positions *)
Root(r, ns, k, L, n) == TLCEval(Sets(ns, r.sizes, r.offs, L, n))[k][0]

RECURSIVE Meet(_, _)
Meet(s, k) == IF k = 1 THEN s[1] ELSE s[k] \cap Meet(s, k - 1)

JudgeSat(r) ==
  LET ns == TLCEval(Ground(r.nodes, <<>>))
      K  == 1..Len(r.roots)
      re == TLCEval(Reach(ns))
      L  == 1 + (CHOOSE m \in {re[r.roots[k]] : k \in K} : \A k \in K : re[r.roots[k]] <= m)
      At(n) == LET s == TLCEval(Sets(ns, r.sizes, r.offs, L, n))
                   each == [k \in K |-> s[r.roots[k]][0]]
               IN [each |-> [k \in K |-> each[k] # {}], all |-> Meet(each, Len(r.roots)) # {}]
      full == TLCEval(At(L))
      upto == TLCEval(IF r.strict = 1 THEN [n \in 0..L |-> At(n)] ELSE <<>>)
      (* must be called satisfiable / may be *)
      Must(p(_)) == p(full) \/ (r.strict = 1 /\ r.partial = 0 /\ \E n \in 1..L : p(upto[n]))
      May(p(_))  == p(full) \/ (r.strict = 1 /\ (r.partial = 1 \/ \E n \in 0..L : p(upto[n])))
      Wrong(a, p(_)) == (a = "unsat" /\ Must(p)) \/ (a = "sat" /\ ~May(p))
      bad == {k \in K : Wrong(r.answers[k], LAMBDA x : x.each[k])}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN <<<<"formula", k, "called", r.answers[k]>>>>
     ELSE IF Wrong(r.all, LAMBDA x : x.all) THEN <<<<"conjunction", "called", r.all>>>>
     ELSE <<>>

JudgeEquiv(r) ==
  LET Vals == {b \in [1..r.nb -> 0..r.top] : \A k \in 1..Len(r.cons) : Cmp(r.cons[k][1], BT(r.cons[k][2], b), BT(r.cons[k][3], b))}
      Tables == {ns \in {Ground(r.nodes, b) : b \in Vals} : Legal(ns)}
      Differs(ns) == LET re == TLCEval(Reach(ns))
                         K  == 1..Len(r.roots)
                         L  == 1 + (CHOOSE m \in {re[r.roots[k]] : k \in K} : \A k \in K : re[r.roots[k]] <= m)
                         s  == TLCEval(Sets(ns, r.sizes, r.offs, L, L))
                     IN \E k \in 1..(Len(r.roots) - 1) : s[r.roots[k]][0] # s[r.roots[k + 1]][0]
      differ == \E ns \in Tables : Differs(ns)
  IN IF r.answer = "equiv" /\ differ THEN <<<<"not equivalent", r.answer>>>>
     ELSE IF r.answer = "not-equiv" /\ ~differ THEN <<<<"equivalent", r.answer>>>>
     ELSE <<>>

Judge(r) == IF r.kind = "sat" THEN JudgeSat(r) ELSE JudgeEquiv(r)

Init == rec = 1
Next == /\ rec <= Len(Records)
        /\ LET b == Judge(Records[rec])
           IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
        /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
        /\ rec' = rec + 1
Spec == Init /\ [][Next]_rec
===============================================================================
