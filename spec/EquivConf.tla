------------------------------ MODULE EquivConf -------------------------------
(***************************************************************************)
(* Is the specification a tool wrote out equivalent to the one it was given, *)
(* and of the form it promised?                                             *)
(*                                                                          *)
(* A record is [id, nodes, roots, nodes2, roots2, trees, forms, traces]: the *)
(* given formulas, the written formulas (as node tables for the semantics and*)
(* as trees for the form), the forms promised, and the input columns to      *)
(* compare on.                                                              *)
(***************************************************************************)
EXTENDS MLTL, Json, IOUtils

Records == JsonDeserialize(IOEnv.RECORDS)
VARIABLE rec

Op(t)   == t[1]
Kids(t) == t[2]
RECURSIVE AllNodes(_, _)
AllNodes(Pred(_), t) == Pred(t) /\ \A k \in 1..Len(Kids(t)) : AllNodes(Pred, Kids(t)[k])

Literal(t) == Op(t) \in {"v", "c"}
NNF(t)      == AllNodes(LAMBDA x : (Op(x) = "!" => Literal(Kids(x)[1])) /\ Op(x) \notin {"->", "xor"}, t)
BNF(t)      == AllNodes(LAMBDA x : Op(x) \in {"v", "c", "!", "&&", "U"}, t)
Binary(t)   == AllNodes(LAMBDA x : Len(Kids(x)) <= 2, t)
RECURSIVE Wpd(_)
Wpd(t) == LET ks == Kids(t)
              RECURSIVE Mx(_)
              Mx(k) == IF k > Len(ks) THEN 0 ELSE Max2(Wpd(ks[k]), Mx(k + 1))
          IN Mx(1) + (IF Op(t) \in {"F", "G", "U", "R"} THEN t[3] ELSE 0)
Sorted(t)   == AllNodes(LAMBDA x : Op(x) \in {"&&", "||"} =>
                          \A k \in 1..(Len(Kids(x)) - 1) : Wpd(Kids(x)[k]) <= Wpd(Kids(x)[k + 1]), t)
Core(t)     == AllNodes(LAMBDA x : Op(x) \notin {"->", "xor", "F", "G", "O", "H"}, t)
NoRelease(t) == AllNodes(LAMBDA x : Op(x) # "R", t)

HasForm(f, t) == CASE f = "nnf" -> NNF(t) [] f = "bnf" -> BNF(t) [] f = "binary" -> Binary(t) [] f = "sorted" -> Sorted(t)
                   [] f = "core" -> Core(t) [] f = "norelease" -> NoRelease(t)

Judge(r) ==
  LET Forms == {<<f, k>> \in {r.forms[j] : j \in 1..Len(r.forms)} \X (1..Len(r.trees)) : ~HasForm(f, r.trees[k])}
      B0 == IF Len(r.roots) # Len(r.roots2) THEN <<<<"count", Len(r.roots), Len(r.roots2)>>>> ELSE <<>>
      B1 == IF Forms # {} THEN <<<<"form", CHOOSE x \in Forms : TRUE>>>> ELSE <<>>
      Diff(tr) ==
        LET n == Len(tr[1])
            v1 == TLCEval(Values(r.nodes, tr, n))
            v2 == TLCEval(Values(r.nodes2, tr, n))
            W == {<<k, i>> \in (1..Len(r.roots)) \X (1..n) :
                    LET x == v1[r.roots[k]][i]
                        y == v2[r.roots2[k]][i]
                    IN x # 2 /\ y # 2 /\ x # y}
        IN W
      D == IF B0 # <<>> THEN {} ELSE {k \in 1..Len(r.traces) : Diff(r.traces[k]) # {}}
      B2 == IF D # {} THEN LET k == CHOOSE k \in D : TRUE
                               w == CHOOSE w \in Diff(r.traces[k]) : TRUE
                           IN <<<<"meaning", w, k>>>>
            ELSE <<>>
  IN B0 \o B1 \o B2

Init == rec = 1
Next == /\ rec <= Len(Records)
        /\ LET b == Judge(Records[rec])
           IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
        /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
        /\ rec' = rec + 1
Spec == Init /\ [][Next]_rec
===============================================================================
