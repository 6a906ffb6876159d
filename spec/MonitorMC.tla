------------------------------- MODULE MonitorMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Monitor.tla for every input trace of the        *)
(* programs in Progs.                                                        *)
(***************************************************************************)
EXTENDS Monitor

VARIABLES p,      \* index of the program
          ts,     \* clock (saturates at K, then time shifts)
          S,      \* monitor configuration after the last step
          win,    \* the last inputs (oldest first): win[k] is the row at ts - Len(win) + k - 1
          fr,     \* frontier per formula, in the same time frame
          hist,   \* complete input history (hidden by the view)
          log,    \* complete output history <<step, formula, time, truth>> (hidden by the view)
          bad     \* first violated clause, or <<>>

vars == <<p, ts, S, win, fr, hist, log, bad>>

(* What distinguishes two configurations: once time has begun to shift, the time of a slot that all
   its readers have passed does not matter, nor the truth of one that is not the latest, nor the
   time of an edge that is out of use. *)
ViewQ(P, k) ==
  LET c == S.q[k]
      pv == IF c.w = 0 THEN Len(c.s) ELSE c.w       \* index of the latest slot
      Passed(j) == c.s[j] # Inf /\ \A m \in DOMAIN P.readers[k] : c.s[j][1] < S.q[P.readers[k][m]].nt
  IN << [j \in DOMAIN c.s |-> IF ts >= P.K /\ Passed(j) THEN (IF j = pv THEN <<-2, c.s[j][2]>> ELSE <<-2, 0>>) ELSE c.s[j]],
        c.w, c.r1, c.r2, c.nt, IF c.edge[2] = 0 THEN <<0, 0>> ELSE c.edge, c.prev>>
View == <<p, ts, [k \in DOMAIN S.q |-> ViewQ(Progs[p], k)], S.stuck, win, fr, bad>>

Ds == [i \in 1..Len(Progs) |-> Delays(Progs[i].nodes)]

Rows(nv) == [1..nv -> {0, 1}]

Init == /\ p \in 1..Len(Progs)
        /\ ts = 0
        /\ S = InitMon(Progs[p])
        /\ win = <<>>
        /\ fr = [f \in 1..Len(Progs[p].roots) |-> 0]
        /\ hist = <<>>
        /\ log = <<>>
        /\ bad = <<>>

(* values of the formulas given the window that ends at time t (positions before it unknown,
   or non-existent when the trace has just begun) *)
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Judge(P, ds, outs, t, w, f0) ==
  LET base == t + 1 - Len(w)              \* time of w[1]; 0 as long as nothing was dropped
      n    == Len(w) + P.ahead
      cols == TLCEval([a \in 1..P.nv |-> TLCEval([k \in 1..n |-> IF k <= Len(w) THEN w[k][a] ELSE 2])])
      vals == TLCEval(Values(P.nodes, cols, n))
      RECURSIVE Go(_, _)
      Go(acc, k) ==
        IF k > Len(outs) \/ acc.bad # <<>> THEN acc
        ELSE LET o == outs[k]
                 f == o[1] + 1
                 lo == acc.fr[f]
             IN IF o[2] < lo THEN [acc EXCEPT !.bad = <<"stream", o[1], o[2], lo>>]
                ELSE LET W == {i \in lo..o[2] : i >= base /\ i - base < n /\ vals[P.roots[f]][i - base + 1] # o[3]}
                     IN IF W # {} THEN [acc EXCEPT !.bad = <<"value", o[1], o[2], lo>>]
                        ELSE Go([acc EXCEPT !.fr[f] = o[2] + 1], k + 1)
      r == Go([fr |-> f0, bad |-> <<>>], 1)
      L == {f \in DOMAIN f0 : r.fr[f] <= t - ds[P.roots[f]]}
  IN IF r.bad = <<>> /\ L # {} THEN [r EXCEPT !.bad = <<"late", (CHOOSE f \in L : TRUE) - 1, t, 0>>] ELSE r

Next ==
  /\ bad = <<>>
  /\ UNCHANGED p
  /\ LET P == Progs[p] IN
     /\ Len(hist) < P.maxDepth
     /\ \E row \in Rows(P.nv) :
        LET S1 == TLCEval(StepMon(P, S, row, ts))
            w1 == Last(Append(win, row), P.need)
            j  == TLCEval(Judge(P, Ds[p], S1.outs, ts, w1, fr))
        IN /\ bad' = IF S1.stuck THEN <<"stuck", 0, ts, 0>> ELSE j.bad
           /\ win' = w1
           /\ hist' = Append(hist, row)
           /\ log' = log \o [k \in 1..Len(S1.outs) |->
                        <<Len(hist), S1.outs[k][1], S1.outs[k][2] + Len(hist) - ts, S1.outs[k][3]>>]
           /\ IF ts >= P.K
              THEN ts' = ts /\ S' = Shift(S1) /\ fr' = [f \in DOMAIN j.fr |-> Dn(j.fr[f])]
              ELSE ts' = ts + 1 /\ S' = S1 /\ fr' = j.fr
Spec == Init /\ [][Next]_vars

(* reporting invariants (they never fail: the counterexamples are replayed on the real monitor) *)
Code(row) == LET RECURSIVE G(_)
                 G(k) == IF k > Len(row) THEN 0 ELSE row[k] + 2 * G(k + 1)
             IN G(1)
Report ==
  /\ (bad # <<>>) => PrintT(<<"CEX", ToJson([id |-> Progs[p].id, why |-> bad, hist |-> [k \in 1..Len(hist) |-> Code(hist[k])]])>>)
  /\ (Emit /\ bad = <<>>) => PrintT(<<"H", ToJson([id |-> Progs[p].id, h |-> [k \in 1..Len(hist) |-> Code(hist[k])], log |-> log])>>)
=============================================================================
