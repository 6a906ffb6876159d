------------------------------ MODULE VerdictConf ------------------------------
(***************************************************************************)
(* Trace specification: is a recorded run of the real monitor a behaviour   *)
(* of a monitor for these formulas?                                         *)
(*                                                                          *)
(* (The formulas may also be given as a surface program, r.items; then     *)
(* spec/Surface.tla says what they mean.)                                   *)
(* A record is [id, nodes, roots, atoms, n, end, outs] where roots[f] is the*)
(* node of formula f, atoms the input columns over n steps, outs the        *)
(* sequence of verdicts <<step, formula, time, truth>> in output order.     *)
(* A verdict (time, truth) of formula f answers all positions not answered  *)
(* before, up to time.                                                      *)
(*                                                                          *)
(* Abstract state: frontier[f] = first position not answered yet.           *)
(* Emit(f, time, truth) is allowed iff                                      *)
(*     stream: f is a formula, time >= frontier[f]      (gapless, in order)  *)
(*     value : no position in frontier[f]..time has the opposite value      *)
(* (An answer for a position that is not determined yet, or lies ahead, is  *)
(* compared as soon as the columns determine it.)                            *)
(* and at the end of step t                                                 *)
(*     late  : frontier[f] > t - wpd(f)                                     *)
(* (only for t in r.ticks if that is given)                                 *)
(* A record with end = "constant" stands for a specification that was        *)
(* rejected because some formula is constant: allowed iff one of them may be.*)
(***************************************************************************)
EXTENDS MLTL, Booleanizer, Surface, Json, IOUtils, SequencesExt

Records == JsonDeserialize(IOEnv.RECORDS)

VARIABLE rec

(* columns of the atoms: given, or those of the expressions r.atomnodes of the table r.bz *)
Atoms(r) ==
  IF "bz" \in DOMAIN r
  THEN LET cols == BzColumns(r.bz, r.inputs, r.n)
       IN TLCEval([k \in 1..Len(r.atomnodes) |-> cols[r.atomnodes[k]]])
  ELSE r.atoms

(* per formula: its column of values and its worst-case propagation delay *)
Model(r) ==
  IF "items" \in DOMAIN r
  THEN LET sv == SurfaceValues(r)
       IN [v |-> TLCEval([f \in 1..Len(sv) |-> sv[f].c]), d |-> TLCEval([f \in 1..Len(sv) |-> sv[f].d])]
  ELSE LET vals == Values(r.nodes, Atoms(r), r.n)
           ds   == Delays(r.nodes)
       IN [v |-> TLCEval([f \in 1..Len(r.roots) |-> vals[r.roots[f]]]),
           d |-> TLCEval([f \in 1..Len(r.roots) |-> ds[r.roots[f]]])]

(* m: the columns of the formulas and their delays, as Model gives them *)
JudgeWith(r, m) ==
  LET vals == m.v
      ds   == m.d
      nf   == Len(vals)
      Emit(acc, o) ==
        LET f == o[2] + 1
            fr == acc.fr
        IN IF f < 1 \/ f > nf
           THEN [acc EXCEPT !.bad = Append(@, <<"stream", o>>)]
           ELSE LET v  == vals[f]
                    lo == fr[f]
                    B0 == IF o[3] < lo THEN <<<<"stream", o, lo>>>> ELSE <<>>
                    W  == {i \in lo..o[3] : i < r.n /\ v[i + 1] = 1 - o[4]}
                    B1 == IF W # {} THEN <<<<"value", o, CHOOSE i \in W : \A j \in W : i <= j>>>> ELSE <<>>
                IN [acc EXCEPT !.fr = [fr EXCEPT ![f] = Max2(@, o[3] + 1)], !.bad = acc.bad \o B0 \o B1]
      (* ends of the steps from acc.t up to t - 1: nothing is reported between them, so the last one that counts suffices *)
      EndSteps(acc, t) ==
        LET ends == IF "ticks" \in DOMAIN r THEN {e \in acc.t..(t - 1) : e \in r.ticks} ELSE IF t > acc.t THEN {t - 1} ELSE {}
            last == CHOOSE e \in ends : \A x \in ends : x <= e
            L    == {f \in 1..nf : acc.fr[f] <= last - ds[f]}
            now  == [acc EXCEPT !.t = t]
        IN IF ends = {} \/ L = {} THEN now
           ELSE LET f == CHOOSE f \in L : TRUE
                IN [now EXCEPT !.bad = Append(@, <<"late", <<last, f - 1>>, acc.fr[f]>>)]
      Event(acc, o) == IF acc.bad # <<>> THEN acc
                       ELSE LET x == EndSteps(acc, o[1]) IN IF x.bad # <<>> THEN x ELSE TLCEval(Emit(x, o))
      run == FoldLeft(Event, [fr |-> [f \in 1..nf |-> 0], bad |-> <<>>, t |-> 0], r.outs)
      res == IF run.bad # <<>> THEN run ELSE EndSteps(run, r.steps)
      Const(f) == LET v == vals[f] IN ~(\E i, j \in 1..r.n : v[i] = 0 /\ v[j] = 1)
  IN IF r.end = "constant"
     THEN IF \E f \in 1..nf : Const(f) THEN <<>> ELSE <<<<"reject", "no formula is constant">>>>
     ELSE res.bad \o (IF r.end = "ok" THEN <<>> ELSE <<<<"died", r.end>>>>)

Judge(r) == JudgeWith(r, TLCEval(Model(r)))

Init == rec = 1
Next == /\ rec <= Len(Records)
        /\ LET b == Judge(Records[rec])
           IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
        /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
        /\ rec' = rec + 1
Spec == Init /\ [][Next]_rec
===============================================================================
