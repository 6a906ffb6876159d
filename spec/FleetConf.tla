------------------------------- MODULE FleetConf -------------------------------
(***************************************************************************)
(* Several monitors in one process, driven through the library interface:   *)
(* any interleaving of loading specifications, setting signals and stepping.*)
(*                                                                          *)
(* Each monitor is independent of the others, and loading a specification   *)
(* into it starts afresh: what it reports from then on, until the next      *)
(* load, is a behaviour of a monitor for that specification alone that      *)
(* counts its steps from 0 (VerdictConf).  A signal keeps its value until   *)
(* it is set again.  A callback, when installed, receives exactly the        *)
(* verdicts that are written, in the same order.                             *)
(*                                                                          *)
(* A record is [id, n, m, programs, events, end]; events are                 *)
(*   ["load", k, p]           program p into monitor k (after any reset)     *)
(*   ["set", k, [[i, v], ..]] signals                                        *)
(*   ["step", k, outs, cbs, o, c]   outs, cbs: [formula, time, truth] each;  *)
(*                            o, c: is there an output file, a callback?     *)
(***************************************************************************)
EXTENDS VerdictConf

NoEra == [p |-> 0, cur |-> <<>>, rows |-> <<>>, outs |-> <<>>, cb |-> TRUE]

Put(cur, ps) == [i \in 1..Len(cur) |->
  LET hits == {j \in 1..Len(ps) : ps[j][1] + 1 = i}
  IN IF hits = {} THEN cur[i] ELSE ps[CHOOSE j \in hits : \A h \in hits : h <= j][2]]

Upd(acc, k, a) == [acc EXCEPT !.m = [@ EXCEPT ![k] = a]]

(* one event; acc.m[k] is the running era of monitor k, acc.done the finished ones *)
Ev(acc, e, R) ==
  LET k == e[2] + 1
      a == acc.m[k]
  IN CASE e[1] = "load" ->
            [Upd(acc, k, [NoEra EXCEPT !.p = e[3], !.cur = [i \in 1..R.programs[e[3]].nv |-> 0]])
               EXCEPT !.done = IF a.p = 0 THEN @ ELSE Append(@, a)]
       [] e[1] = "set" -> Upd(acc, k, [a EXCEPT !.cur = TLCEval(Put(@, e[3]))])
       [] e[1] = "step" ->
            LET t  == Len(a.rows)
                os == IF e[5] THEN e[3] ELSE e[4]
            IN Upd(acc, k,
                 [a EXCEPT !.rows = Append(@, a.cur),
                           !.outs = @ \o [j \in 1..Len(os) |-> <<t, os[j][1], os[j][2], os[j][3]>>],
                           !.cb   = @ /\ (e[5] /\ e[6] => e[4] = e[3])])

RECURSIVE RunFleet(_, _, _)
RunFleet(acc, j, R) == IF j > Len(R.events) THEN acc ELSE RunFleet(TLCEval(Ev(acc, R.events[j], R)), j + 1, R)

JudgeEra(a, R, ended) ==
  LET p    == R.programs[a.p]
      n    == Len(a.rows)
      cols == TLCEval([i \in 1..p.nv |-> TLCEval([t \in 1..n |-> a.rows[t][i]])])
      base == [id |-> 0, n |-> n, steps |-> n, end |-> ended, outs |-> a.outs, inputs |-> cols, atoms |-> cols]
      r    == IF "items" \in DOMAIN p
              THEN base @@ [items |-> p.items, structs |-> p.structs]
              ELSE base @@ [nodes |-> p.nodes, roots |-> p.roots]
  IN (IF a.cb THEN <<>> ELSE <<<<"callback", a.p>>>>) \o (IF n = 0 THEN <<>> ELSE Judge(r))

JudgeFleet(R) ==
  LET fin  == RunFleet([m |-> [k \in 1..R.m |-> NoEra], done |-> <<>>], 1, R)
      eras == fin.done \o SelectSeq(fin.m, LAMBDA a : a.p # 0)
      (* if the process died, which monitor is to blame does not matter *)
      bads == [j \in 1..Len(eras) |-> JudgeEra(eras[j], R, "ok")]
  IN (IF R.end = "ok" THEN <<>> ELSE <<<<"died", R.end>>>>) \o FlattenSeq(bads)

NextFleet ==
  /\ rec <= Len(Records)
  /\ LET b == JudgeFleet(Records[rec])
     IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
  /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
  /\ rec' = rec + 1
SpecFleet == Init /\ [][NextFleet]_rec
===============================================================================
