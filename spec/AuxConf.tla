-------------------------------- MODULE AuxConf --------------------------------
(***************************************************************************)
(* What a monitor built with R2U2_AUX_STRING_SPECS prints: verdicts under    *)
(* the names of the specifications, and the states of the assume-guarantee   *)
(* contracts.                                                                *)
(*                                                                          *)
(* items, in the order of the file: [k |-> "f", name, a] a formula (name ""  *)
(* without a label), [k |-> "c", name, a, b] the contract name: a => b       *)
(* (a, b are nodes).  A formula takes one number, a contract three: its      *)
(* assumption a, a -> b and a && b.                                          *)
(*                                                                          *)
(* A verdict line <<step, "v", who, time, truth>> is a verdict of the        *)
(* formula that is called who: its label if it has one, and if not its       *)
(* number or the name generated from it (.mltl counts those from 1, r.base);  *)
(* without auxiliary data in                                                  *)
(* the binary, always the number.  They are judged by VerdictConf.           *)
(*                                                                          *)
(* A contract line <<step, "c", who, time, state>>:                          *)
(*    inactive: a is false; invalid: a is true, b is false; verified: both   *)
(*    are true                                                              *)
(* right   : the contract is in that state at that time                      *)
(* order   : the times of one state are increasing                           *)
(* complete: by step t + wpd every time t in the state is answered by a line *)
(*           of this state for t or for a later time with only such times    *)
(*           between                                                        *)
(***************************************************************************)
EXTENDS VerdictConf

(* the items with the number of their first formula *)
RECURSIVE Numbered(_, _, _)
Numbered(items, k, n) ==
  IF k > Len(items) THEN <<>>
  ELSE <<[num |-> n] @@ items[k]>> \o Numbered(items, k + 1, n + (IF items[k].k = "f" THEN 1 ELSE 3))

(* per formula: the names it may go by, and its column and delay *)
Formulas(its, vals, ds, n, aux, base) ==
  LET Auto(k) == IF aux THEN {"__f" \o ToString(k + base) \o "__", ToString(k)} ELSE {ToString(k)}
      Part(it, j, w) == IF aux THEN {"__" \o it.name \o "_" \o w \o "__", ToString(it.num + j)} ELSE {ToString(it.num + j)}
      Of(it) ==
        IF it.k = "f"
        THEN <<[who |-> IF aux /\ it.name # "" THEN {it.name} ELSE Auto(it.num), c |-> vals[it.a], d |-> ds[it.a]]>>
        ELSE LET a == vals[it.a]
                 b == vals[it.b]
                 d == Max2(ds[it.a], ds[it.b])
             IN <<[who |-> Part(it, 0, "active"), c |-> a, d |-> ds[it.a]],
                  [who |-> Part(it, 1, "valid"), c |-> TLCEval([i \in 1..n |-> KOr(KNot(a[i]), b[i])]), d |-> d],
                  [who |-> Part(it, 2, "verified"), c |-> TLCEval([i \in 1..n |-> KAnd(a[i], b[i])]), d |-> d]>>
  IN FlattenSeq([k \in 1..Len(its) |-> Of(its[k])])

States == {"inactive", "invalid", "verified"}

(* is the contract in the state at a position? Kleene *)
InState(a, b, s) ==
  CASE s = "inactive" -> KNot(a)
    [] s = "invalid"  -> KAnd(a, KNot(b))
    [] s = "verified" -> KAnd(a, b)

JudgeContract(r, it, vals, ds) ==
  LET a == vals[it.a]
      b == vals[it.b]
      d == Max2(ds[it.a], ds[it.b])
      In(s) == TLCEval([i \in 1..r.n |-> InState(a[i], b[i], s)])
      Of(s) ==
        LET col == In(s)
            ls  == SelectSeq(r.lines, LAMBDA l : l[2] = "c" /\ l[3] = it.name /\ l[5] = s)
            Wrong == {k \in 1..Len(ls) : ls[k][4] < r.n /\ col[ls[k][4] + 1] = 0}
            Order == {k \in 2..Len(ls) : ls[k][4] <= ls[k - 1][4]}
            Answered(t) == \E k \in 1..Len(ls) :
                              /\ ls[k][4] >= t /\ ls[k][1] <= t + d
                              /\ \A u \in t..ls[k][4] : u < r.n => col[u + 1] # 0
            Missing == {t \in 0..(r.steps - 1 - d) : col[t + 1] = 1 /\ ~Answered(t)}
        IN (IF Wrong # {} THEN <<<<"state", ls[CHOOSE k \in Wrong : TRUE]>>>> ELSE <<>>)
           \o (IF Order # {} THEN <<<<"order", ls[CHOOSE k \in Order : TRUE]>>>> ELSE <<>>)
           \o (IF Missing # {} THEN <<<<"missing", it.name, s, CHOOSE t \in Missing : \A u \in Missing : t <= u>>>> ELSE <<>>)
  IN Of("inactive") \o Of("invalid") \o Of("verified")

JudgeAux(r) ==
  LET its  == Numbered(r.items, 1, 0)
      vals == Values(r.nodes, r.atoms, r.n)
      ds   == Delays(r.nodes)
      fs   == Formulas(its, vals, ds, r.n, r.aux, r.base)
      Num(w) == LET K == {k \in 1..Len(fs) : w \in fs[k].who}
                IN IF K = {} THEN -1 ELSE (CHOOSE k \in K : TRUE) - 1
      vs   == SelectSeq(r.lines, LAMBDA l : l[2] = "v")
      outs == TLCEval([k \in 1..Len(vs) |-> <<vs[k][1], Num(vs[k][3]), vs[k][4], vs[k][5]>>])
      cons == {k \in 1..Len(its) : its[k].k = "c"}
      Stray == {k \in 1..Len(r.lines) : r.lines[k][2] = "c" /\
                  (~r.aux \/ r.lines[k][5] \notin States \/ ~\E c \in cons : its[c].name = r.lines[k][3])}
  IN JudgeWith([id |-> r.id, n |-> r.n, steps |-> r.steps, end |-> r.end, outs |-> outs],
               [v |-> TLCEval([k \in 1..Len(fs) |-> fs[k].c]), d |-> TLCEval([k \in 1..Len(fs) |-> fs[k].d])])
     \o (IF Stray # {} THEN <<<<"stray", r.lines[CHOOSE k \in Stray : TRUE]>>>> ELSE <<>>)
     \o (IF r.aux /\ r.end = "ok"
         THEN FlattenSeq([k \in 1..Len(its) |-> IF its[k].k = "c" THEN JudgeContract(r, its[k], vals, ds) ELSE <<>>])
         ELSE <<>>)

NextAux ==
  /\ rec <= Len(Records)
  /\ LET b == JudgeAux(Records[rec])
     IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
  /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
  /\ rec' = rec + 1
SpecAux == Init /\ [][NextAux]_rec
===============================================================================
