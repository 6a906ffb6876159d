------------------------------- MODULE FrontConf -------------------------------
(***************************************************************************)
(* From the files of a run to its verdicts: a map file (or the header of    *)
(* the trace) says which column of the trace is which variable, the lines   *)
(* of the trace say which values the variables have at which times; the     *)
(* verdicts printed are then those of VerdictConf.                          *)
(*                                                                          *)
(* vars: the program's variables in the order of its columns, each          *)
(*       <<symbol, element>> (element -1 unless it is an element of an      *)
(*       array)                                                             *)
(* map:  entries <<symbol, from, to, column>>: elements from..to of symbol  *)
(*       are columns column, column + 1, ...; the last entry for a variable *)
(*       counts                                                             *)
(* lines: <<T, cells>>: a line @T holds from the time after the previous    *)
(*       line up to T; a plain line (T = -1) is the next time               *)
(***************************************************************************)
EXTENDS VerdictConf

ColumnOf(v, map) ==
  LET hits == {k \in 1..Len(map) : map[k][1] = v[1] /\ map[k][2] <= v[2] /\ v[2] <= map[k][3]}
      k    == CHOOSE h \in hits : \A g \in hits : g <= h
  IN map[k][4] + (v[2] - map[k][2])

RECURSIVE Ends(_, _, _)
Ends(lines, k, acc) ==
  IF k > Len(lines) THEN acc
  ELSE LET last == IF acc = <<>> THEN -1 ELSE acc[Len(acc)]
       IN Ends(lines, k + 1, Append(acc, IF lines[k][1] = -1 THEN last + 1 ELSE lines[k][1]))

Expand(r) ==
  LET ends == TLCEval(Ends(r.lines, 1, <<>>))
      n    == IF ends = <<>> THEN 0 ELSE ends[Len(ends)] + 1
      lineof == TLCEval([t \in 1..n |-> CHOOSE k \in 1..Len(ends) : ends[k] >= t - 1 /\ \A j \in 1..(k - 1) : ends[j] < t - 1])
      col  == TLCEval([v \in 1..Len(r.vars) |-> ColumnOf(r.vars[v], r.map) + 1])
      vals == TLCEval([v \in 1..Len(r.vars) |-> TLCEval([t \in 1..n |-> r.lines[lineof[t]][2][col[v]]])])
      seen == IF r.flat THEN {n - 1} ELSE {ends[k] : k \in 1..Len(ends)}
  IN [n |-> n, steps |-> n, ticks |-> seen, inputs |-> vals, atoms |-> vals] @@ r

(* verdicts printed without marks for the lines come after everything *)
AtEnd(r, n) == IF r.flat THEN [r EXCEPT !.outs = [k \in 1..Len(@) |-> <<n - 1, @[k][2], @[k][3], @[k][4]>>]] ELSE r

JudgeFront(r) ==
  LET e == TLCEval(Expand(r))
  IN IF e.n = 0 THEN (IF r.outs = <<>> THEN <<>> ELSE <<<<"stream", r.outs[1]>>>>)
     ELSE Judge(AtEnd(e, e.n))

NextFront ==
  /\ rec <= Len(Records)
  /\ LET b == JudgeFront(Records[rec])
     IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
  /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
  /\ rec' = rec + 1
SpecFront == Init /\ [][NextFront]_rec
===============================================================================
