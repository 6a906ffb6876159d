-------------------------------- MODULE Monitor --------------------------------
(***************************************************************************)
(* Operational model of the monitor's temporal engine running a compiled    *)
(* program: instructions, shared connection queues (ring buffers with write *)
(* compaction and per-reader positions), temporal blocks and the scheduling  *)
(* of one time step.  Programs are those the real compiler produced.         *)
(*                                                                          *)
(* The state space of a monitor over unbounded traces is made finite by      *)
(* shifting time: when the clock reaches K all times move down by one        *)
(* (clamped at 0), so K only has to exceed every distance that matters.      *)
(* TLC then visits every reachable configuration for every input trace.      *)
(*                                                                          *)
(* Checked in every step, against the denotational semantics (MLTL.tla) of   *)
(* the formula the program was compiled from: values, stream form,           *)
(* deadlines, termination of a step.                                         *)
(***************************************************************************)
EXTENDS MLTL, Json, IOUtils, FiniteSets

Progs == JsonDeserialize(IOEnv.PROGRAMS)
\* program: [id, ins, size, lb, ub, nodes, roots, nv, need, K, maxDepth]
\*   ins : sequence of <<op, t1, v1, t2, v2, queue>>, queues numbered from 1
\*   t   : 0 atomic, 1 constant, 2 subformula, 3 none
Emit   == IOEnv.EMIT = "1"          \* print the input history of every new configuration

Inf == <<-1, 0>>
Min2(x, y) == IF x < y THEN x ELSE y

-----------------------------------------------------------------------------
(* queues: [s, w, r1, r2, nt, edge, prev]; s[k] is slot k-1; a verdict is <<time, truth>> *)

Write(S, q, v) ==
  LET c == S.q[q]
      len == Len(c.s)
      pv == IF c.w = 0 THEN len - 1 ELSE c.w - 1
      compact == /\ c.s[pv + 1][2] = v[2] /\ c.s[pv + 1] # Inf
                 /\ c.s[pv + 1] # c.s[c.w + 1]
                 /\ c.s[c.w + 1] # Inf
      w == IF compact THEN pv ELSE c.w
  IN [S EXCEPT !.q[q].s = [c.s EXCEPT ![w + 1] = v], !.q[q].w = (w + 1) % len, !.prog = TRUE]

RECURSIVE Scan(_, _, _)
Scan(c, r, nt) ==        \* <<found, new read position>>
  IF c.s[r + 1][1] >= nt THEN <<TRUE, r>>
  ELSE LET r2 == (r + 1) % Len(c.s)
       IN IF r2 = c.w THEN <<FALSE, IF r2 = 0 THEN Len(c.s) - 1 ELSE r2 - 1>>
          ELSE Scan(c, r2, nt)

(* operand k (1 or 2) of instruction i with next_time nt: <<S', ready, verdict>> *)
Opnd(S, i, k, nt, first, row, ts, ub) ==
  LET t == IF k = 1 THEN i[2] ELSE i[4]
      v == IF k = 1 THEN i[3] ELSE i[5]
  IN CASE t = 1 -> LET time == IF i[1] \in {"S", "T"} THEN ts + ub ELSE ts
                   IN <<S, time >= nt, <<time, IF v # 0 THEN 1 ELSE 0>>>>
       [] t = 0 -> <<S, first, <<ts, IF first THEN row[v + 1] ELSE 0>>>>
       [] t = 2 -> LET c == S.q[v]
                       r == IF k = 1 THEN S.q[i[6]].r1 ELSE S.q[i[6]].r2
                   IN IF c.s[r + 1] = Inf THEN <<S, FALSE, <<0, 0>>>>
                      ELSE LET sc == Scan(c, r, nt)
                           IN << IF k = 1 THEN [S EXCEPT !.q[i[6]].r1 = sc[2]] ELSE [S EXCEPT !.q[i[6]].r2 = sc[2]],
                                 sc[1], c.s[sc[2] + 1]>>
       [] OTHER -> <<S, FALSE, <<0, 0>>>>

-----------------------------------------------------------------------------
Put(S, q, v, nt) == [Write(S, q, v) EXCEPT !.q[q].nt = nt]

ExecUnary(S, i, first, row, ts) ==
  LET o == Opnd(S, i, 1, S.q[i[6]].nt, first, row, ts, 0) IN
  IF ~o[2] THEN o[1]
  ELSE CASE i[1] = "load"   -> Put(o[1], i[6], o[3], o[3][1] + 1)
         [] i[1] = "!"      -> Put(o[1], i[6], <<o[3][1], 1 - o[3][2]>>, o[3][1] + 1)
         [] i[1] = "return" -> [o[1] EXCEPT !.q[i[6]].nt = o[3][1] + 1, !.prog = TRUE,
                                            !.outs = Append(@, <<i[5], o[3][1], o[3][2]>>)]

ExecBool(S, i, first, row, ts) ==
  LET nt == S.q[i[6]].nt
      o0 == Opnd(S, i, 1, nt, first, row, ts, 0)
      o1 == Opnd(o0[1], i, 2, nt, first, row, ts, 0)
      S1 == o1[1]
      x  == o0[3]
      y  == o1[3]
      Res(v) == Put(S1, i[6], v, v[1] + 1)
      lo == Min2(x[1], y[1])
      hi == Max2(x[1], y[1])
      dom == IF i[1] = "&" THEN 0 ELSE 1        \* the value that decides alone
  IN IF i[1] = "="
     THEN IF o0[2] /\ o1[2] THEN Res(<<lo, IF x[2] = y[2] THEN 1 ELSE 0>>) ELSE S1
     ELSE IF o0[2] /\ o1[2] /\ x[2] = 1 - dom /\ y[2] = 1 - dom THEN Res(<<lo, 1 - dom>>)
     ELSE IF o0[2] /\ o1[2] /\ x[2] = dom /\ y[2] = dom THEN Res(<<hi, dom>>)
     ELSE IF o0[2] /\ x[2] = dom THEN Res(x)
     ELSE IF o1[2] /\ y[2] = dom THEN Res(y)
     ELSE S1

(* until and release: `hit` is the value of the right operand that decides *)
ExecUntil(S0, i, first, row, ts, lb, ub) ==
  LET q == i[6]
      S == [S0 EXCEPT !.q[q].nt = Max2(@, lb)]
      hit == IF i[1] = "U" THEN 1 ELSE 0
      nt == S.q[q].nt
      o0 == Opnd(S, i, 1, nt, first, row, ts, 0)
      o1 == Opnd(o0[1], i, 2, nt, first, row, ts, 0)
      S1 == o1[1]
      x == o0[3]
      y == o1[3]
      tau == Min2(x[1], y[1])
      Both == o0[2]
      S2 == IF Both THEN [S1 EXCEPT !.q[q].nt = tau + 1, !.prog = TRUE] ELSE S1
      prev == S.q[q].prev                      \* <<time, produced>>
      r == y[1] - ub
  IN IF ~o1[2] THEN S1
     ELSE IF y[2] = hit
          THEN [Put(S1, q, <<y[1] - lb, hit>>, y[1] + 1) EXCEPT !.q[q].prev = <<y[1] - lb, 1>>]
     ELSE IF Both /\ x[2] = 1 - hit
          THEN [Put(S2, q, <<tau - lb, 1 - hit>>, tau + 1) EXCEPT !.q[q].prev = <<tau - lb, 1>>]
     ELSE IF y[1] >= prev[1] + ub /\ (r > prev[1] \/ (r = 0 /\ prev[2] = 0))
          THEN [Put(S2, q, <<r, 1 - hit>>, Max2(S2.q[q].nt, r + lb + 1)) EXCEPT !.q[q].prev = <<r, 1>>]
     ELSE S2

(* since and trigger *)
RECURSIVE SinceLoop(_, _, _, _, _, _, _)
SinceLoop(S, i, first, row, ts, lb, ub) ==
  LET q == i[6]
      hit == IF i[1] = "S" THEN 1 ELSE 0
      c == S.q[q]
      next == IF c.prev[2] = 1 THEN c.prev[1] + 1 ELSE 0
      edgeOk == c.edge[2] = 1 /\ c.edge[1] + ub >= next
      o1 == Opnd(S, i, 2, c.nt, first, row, ts, ub)
      o0 == Opnd(o1[1], i, 1, Max2(c.nt, IF next < lb THEN 0 ELSE next - lb), first, row, ts, ub)
      S1 == o0[1]
      x == o0[3]
      y == o1[3]
      Done(S2, v) == IF v[1] >= next
                     THEN [Write(S2, q, v) EXCEPT !.q[q].prev = <<v[1], 1>>]
                     ELSE SinceLoop(S2, i, first, row, ts, lb, ub)
  IN IF o1[2] /\ y[2] = hit
     THEN Done([S1 EXCEPT !.q[q].edge = <<y[1], 1>>, !.q[q].nt = y[1] + 1], <<y[1] + lb, hit>>)
     ELSE IF o1[2] /\ y[1] + lb < next
     THEN SinceLoop([S1 EXCEPT !.q[q].nt = y[1] + 1], i, first, row, ts, lb, ub)
     ELSE IF o1[2] /\ (~edgeOk \/ (o0[2] /\ x[2] = 1 - hit))
     THEN Done([S1 EXCEPT !.q[q].edge = <<@[1], 0>>, !.q[q].nt = y[1] + 1], <<y[1] + lb, 1 - hit>>)
     ELSE IF o0[2] /\ x[2] = hit /\ edgeOk
     THEN Done(S1, <<Min2(x[1] + lb, c.edge[1] + ub), hit>>)
     ELSE S1

ExecSince(S, i, first, row, ts, lb, ub) ==
  LET c == S.q[i[6]]
      v == <<lb - 1, IF i[1] = "S" THEN 0 ELSE 1>>
  IN IF c.prev[2] = 0 /\ c.prev[1] < lb
     THEN [Put(S, i[6], v, 0) EXCEPT !.q[i[6]].prev = <<lb - 1, 1>>]
     ELSE SinceLoop(S, i, first, row, ts, lb, ub)

Exec(P, S, k, first, row, ts) ==
  LET i == P.ins[k] IN
  CASE i[1] \in {"load", "!", "return"} -> ExecUnary(S, i, first, row, ts)
    [] i[1] \in {"&", "|", "="} -> ExecBool(S, i, first, row, ts)
    [] i[1] \in {"U", "R"} -> ExecUntil(S, i, first, row, ts, P.lb[i[6]], P.ub[i[6]])
    [] i[1] \in {"S", "T"} -> ExecSince(S, i, first, row, ts, P.lb[i[6]], P.ub[i[6]])

(* one time step: all instructions once in order, then from the last one backwards, starting
   over from the end whenever one made progress *)
RECURSIVE Forward(_, _, _, _, _)
Forward(P, S, k, row, ts) ==
  IF k > Len(P.ins) THEN [S EXCEPT !.prog = FALSE]
  ELSE Forward(P, TLCEval(Exec(P, S, k, TRUE, row, ts)), k + 1, row, ts)

RECURSIVE Backward(_, _, _, _, _, _)
Backward(P, S, k, row, ts, fuel) ==
  IF k = 0 THEN S
  ELSE IF fuel = 0 THEN [S EXCEPT !.stuck = TRUE]
  ELSE LET S1 == TLCEval(Exec(P, S, k, FALSE, row, ts))
       IN IF S1.prog THEN Backward(P, [S1 EXCEPT !.prog = FALSE], Len(P.ins), row, ts, fuel - 1)
          ELSE Backward(P, S1, k - 1, row, ts, fuel - 1)

StepMon(P, S, row, ts) ==
  Backward(P, Forward(P, [S EXCEPT !.outs = <<>>], 1, row, ts), Len(P.ins), row, ts, 3000)

InitMon(P) ==
  [q |-> [k \in 1..Len(P.size) |->
            [s |-> [j \in 1..P.size[k] |-> IF j = 1 THEN Inf ELSE <<0, 0>>],
             w |-> 0, r1 |-> 0, r2 |-> 0, nt |-> 0, edge |-> <<0, 0>>, prev |-> <<0, 0>>]],
   prog |-> FALSE, stuck |-> FALSE, outs |-> <<>>]

-----------------------------------------------------------------------------
(* time shift by one *)
Dn(t) == IF t <= 0 THEN t ELSE t - 1
DnV(v) == IF v = Inf THEN v ELSE <<Dn(v[1]), v[2]>>
Shift(S) ==
  [S EXCEPT !.q = [k \in DOMAIN S.q |->
     [S.q[k] EXCEPT !.s = [j \in DOMAIN @ |-> DnV(@[j])], !.nt = Dn(@), !.edge = <<Dn(@[1]), @[2]>>,
                    !.prev = <<Dn(@[1]), @[2]>>]]]
=============================================================================
