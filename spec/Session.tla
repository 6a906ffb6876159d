-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* Command scripts: a machine whose state is changed by commands that       *)
(* succeed, saved by push and restored by pop, and left alone by commands    *)
(* that only look at it or cannot be executed.                              *)
(*                                                                          *)
(* The state is kept symbolically: which program was read, and which         *)
(* commands were applied to it since, under which settings.  Reading a       *)
(* program starts afresh except for settings and signal mapping.             *)
(*                                                                          *)
(* Trace specification over families of scripts.  Every command observes     *)
(* the state: what it prints and writes, and whether it succeeds, is a       *)
(* function of the command and the state, across all scripts of a family     *)
(* (which run in processes of their own).  Clauses:                          *)
(*   function  two equal states, the same command, different observations    *)
(*   guard     a command ran in a state in which it must not                 *)
(*   refused   a command failed in a state in which it must succeed          *)
(*   code      exit code: 0 iff no command failed, else that of the last     *)
(*             failure                                                       *)
(*   after exit, internal                                                    *)
(*   and those of VerdictConf for the binaries: they monitor the program     *)
(*   in the state, with the mapping in the state                             *)
(*                                                                          *)
(* A record is [id, progs, maps, scripts, runs].                              *)
(*   progs[k]: [file, bz, mt, ill, vars, model..]; maps: [file, prog, entries] *)
(*   scripts[j]: [cmds, rc], each command [op, arg, num, mal, res, obs]; mal = 1 if it  *)
(*     is not a command of the language; res is "ok",                        *)
(*     "internal", "none" (not executed) or the kind of its failure           *)
(*   runs: [script, pos, prog, map, lines, outs, end] of assembled binaries   *)
(***************************************************************************)
EXTENDS FrontConf

Parse  == {"parse_c2po", "parse_mltl"}
MapCmd == {"parse_map", "parse_trace"}
Looks  == {"print_c2po", "print_mltl", "print_prefix", "print_stats", "print_stats_format", "write_c2po", "write_mltl", "write_prefix",
           "write_pickle", "echo", "help", "write_bounds_c", "write_bounds_rust", "run_r2u2"}
(* failures that are found before anything is done *)
Before == {"guard", "unknown", "shlex", "args", "pop", "parse", "file"}

NeedProgram == {"type_check"}
NeedTyped   == {"desugar", "to_nnf", "to_bnf", "multi_operators_to_binary", "flatten_multi_operators", "remove_extended_operators",
                "remove_release_operators", "sort_operands_by_pd", "optimize_rewrites", "optimize_cse", "compute_atomics",
                "compute_scq_sizes", "generate_map", "assemble", "unsafe_assemble"}
NeedAssembled == {"write_bounds_c", "write_bounds_rust", "run_r2u2"}
Passes == {"optimize_rewrites", "optimize_cse", "multi_operators_to_binary", "flatten_multi_operators", "remove_extended_operators",
           "sort_operands_by_pd", "compute_atomics", "compute_scq_sizes"}
(* passes that may leave operators that the monitor does not have *)
Introduce == {"desugar", "to_nnf", "to_bnf", "flatten_multi_operators", "remove_release_operators", "optimize_rewrites"}

Start == [prog |-> 0, hist |-> <<>>, bz |-> 0, mt |-> -1, map |-> <<"none">>]

Applied(s, ops) == \E k \in 1..Len(s.hist) : s.hist[k][1] \in ops /\ s.hist[k][3] = "ok"
Typed(s)     == Applied(s, {"type_check", "compile"}) /\ \A k \in 1..Len(s.hist) : s.hist[k][1] \in {"type_check", "compile"} => s.hist[k][3] = "ok"
(* programs are type checked for the setting of the booleanizer *)
MaybeTyped(s) == \E k \in 1..Len(s.hist) : /\ s.hist[k][1] \in {"type_check", "compile"}
                                           /\ \A h \in k+1..Len(s.hist) : s.hist[h][1] \notin {"enable_booleanizer", "disable_booleanizer"}
Desugared(s) == Applied(s, {"desugar", "compile"})
Assembled(s) == Applied(s, {"assemble", "unsafe_assemble", "compile"})
(* none of ops since the last of these *)
Since(s, ops, these) == \E k \in 1..Len(s.hist) : s.hist[k][1] \in these /\ s.hist[k][3] = "ok" /\ \A h \in k+1..Len(s.hist) : s.hist[h][1] \notin ops
MaybeAssembled(s) == \E k \in 1..Len(s.hist) : s.hist[k][1] \in {"assemble", "unsafe_assemble", "compile"}

Prog(r, file) == IF \E k \in 1..Len(r.progs) : r.progs[k].file = file
                 THEN CHOOSE k \in 1..Len(r.progs) : r.progs[k].file = file ELSE 0

(* the state after a command *)
After(r, s, c) ==
  IF (c.res \in Before /\ ~(c.op = "compile" /\ c.res = "guard" /\ s.prog # 0)) \/ c.op \in Looks THEN s
  ELSE IF c.op \in {"enable_booleanizer", "disable_booleanizer"}
  THEN LET b == IF c.op = "enable_booleanizer" THEN 1 ELSE 0
       IN IF s.bz = b THEN s
          ELSE [s EXCEPT !.bz = b, !.hist = IF @ = <<>> THEN @ ELSE Append(@, <<c.op, c.arg, c.res, b, s.mt, <<"none">>>>)]
  ELSE IF c.op = "set_mission_time" THEN [s EXCEPT !.mt = c.num]
  ELSE IF c.op \in Parse
  THEN [s EXCEPT !.prog = Prog(r, c.arg), !.map = IF c.op = "parse_mltl" THEN <<"own", c.arg>> ELSE @,
                 !.hist = <<<<c.op, c.arg, c.res, s.bz, s.mt, <<"none">>>>>>]
  ELSE LET map == IF c.op \in MapCmd THEN (IF c.res = "ok" THEN <<c.op, c.arg>> ELSE <<"none">>) ELSE s.map
       IN [s EXCEPT !.map = map,
                    !.hist = Append(@, <<c.op, c.arg, c.res, s.bz, s.mt, IF c.op \in {"type_check", "desugar"} THEN <<"none">> ELSE map>>)]

(* the state before each command (and the stack); <<state, stack>> sequences *)
States(r, cmds) ==
  LET RECURSIVE Go(_, _, _, _)
      Go(k, s, st, acc) ==
        IF k > Len(cmds) THEN acc
        ELSE LET c == cmds[k]
                 a == Append(acc, s)
             IN IF c.op = "push" THEN Go(k + 1, s, Append(st, s), a)
                ELSE IF c.op = "pop"
                THEN IF st = <<>> THEN Go(k + 1, s, st, a) ELSE Go(k + 1, st[Len(st)], SubSeq(st, 1, Len(st) - 1), a)
                ELSE Go(k + 1, TLCEval(After(r, s, c)), st, a)
      RECURSIVE Depth(_, _, _)
      Depth(k, d, acc) ==
        IF k > Len(cmds) THEN acc
        ELSE Depth(k + 1, IF cmds[k].op = "push" THEN d + 1 ELSE IF cmds[k].op = "pop" /\ d > 0 THEN d - 1 ELSE d, Append(acc, d))
  IN [s |-> TLCEval(Go(1, Start, <<>>, <<>>)), d |-> TLCEval(Depth(1, 0, <<>>))]

(* the mapping in s is one for its program *)
Mapped(r, s) ==
  /\ s.prog # 0
  /\ \/ s.map[1] = "own" /\ s.map[2] = r.progs[s.prog].file
     \/ s.map[1] \in MapCmd /\ (\E m \in 1..Len(r.maps) : r.maps[m].file = s.map[2] /\ r.maps[m].prog = s.prog)
(* the settings were those of the program throughout *)
Settled(r, s) == LET p == r.progs[s.prog]
                 IN /\ s.bz = p.bz /\ \A k \in 1..Len(s.hist) : s.hist[k][4] = p.bz
                    /\ p.mt = -1 \/ s.hist[1][5] = p.mt

(* what must be the result of c in s: "ok", "guard" or "" *)
Must(r, s, c) ==
  IF c.mal = 1 THEN "malformed"
  ELSE IF c.op \in NeedProgram /\ s.prog = 0 THEN "guard"
  ELSE IF c.op \in NeedTyped /\ ~MaybeTyped(s) THEN "guard"
  ELSE IF c.op \in NeedAssembled /\ ~MaybeAssembled(s) THEN "guard"
  ELSE IF c.op \in {"echo", "help", "enable_booleanizer", "disable_booleanizer", "set_mission_time", "push", "print_stats_format"} THEN "ok"
  ELSE IF c.op \in Parse
  THEN LET k == Prog(r, c.arg) IN IF k # 0 /\ (r.progs[k].mt = -1 \/ s.mt = r.progs[k].mt) THEN "ok" ELSE ""
  ELSE IF s.prog = 0 THEN ""
  ELSE IF r.progs[s.prog].ill = 1 THEN IF c.op \in {"type_check", "compile"} THEN "fail" ELSE ""
  ELSE IF ~Settled(r, s) THEN ""
  ELSE IF c.op \in {"type_check", "compile"} /\ (\E k \in 1..Len(s.hist) : s.hist[k][1] \notin Parse \cup MapCmd \cup {"type_check", "desugar"}) THEN ""
  ELSE IF c.op = "type_check" THEN "ok"
  ELSE IF c.op = "desugar" /\ Typed(s) THEN "ok"
  ELSE IF c.op \in Passes /\ Desugared(s) /\ Typed(s) THEN "ok"
  ELSE IF c.op \in {"print_c2po", "write_c2po", "write_prefix", "print_prefix", "print_stats"} THEN "ok"
  ELSE IF c.op \in MapCmd /\ \E m \in 1..Len(r.maps) : r.maps[m].file = c.arg /\ r.maps[m].prog = s.prog THEN "ok"
  ELSE IF c.op = "compile" /\ Mapped(r, s) THEN "ok"
  ELSE IF c.op = "assemble" /\ Mapped(r, s) /\ Desugared(s) /\ Typed(s) /\ Applied(s, {"multi_operators_to_binary"}) THEN "made"
  ELSE IF c.op \in NeedAssembled \ {"run_r2u2"} /\ Assembled(s) /\ Mapped(r, s)
          /\ s.hist[Len(s.hist)][1] = "compile" /\ s.hist[Len(s.hist)][3] = "ok" THEN "ok"
  ELSE ""

Fits(m, res) == \/ m = ""
                \/ m = "ok" /\ res \in {"ok", "constant"}
                \/ m = "made" /\ res \in {"ok", "constant", "guard"}     \* operators left that are not of the monitor
                \/ m = "guard" /\ res = "guard"
                \/ m = "malformed" /\ res \in {"args", "shlex", "unknown"}
                \/ m = "fail" /\ res \notin {"ok", "internal", "none"}

Code(res) == CASE res = "guard" -> {5} [] res = "unknown" -> {8} [] res = "shlex" -> {6} [] res = "pop" -> {7} [] res = "args" -> {10}
               [] res = "parse" -> {4} [] res = "file" -> {1, 3, 4} [] OTHER -> {1, 11}

JudgeScript(r, j, st) ==
  LET sc   == r.scripts[j]
      cs   == sc.cmds
      K    == 1..Len(cs)
      exit == {k \in K : cs[k].op = "exit"}
      last == IF exit = {} THEN Len(cs) ELSE CHOOSE k \in exit : \A h \in exit : k <= h
      bad  == {k \in 1..last : cs[k].res \notin {"ok", "none"}}
      lf   == CHOOSE k \in bad : \A h \in bad : h <= k
      int  == {k \in K : cs[k].res = "internal"}
      out  == {k \in K : k > last /\ cs[k].res # "none"}
      gone == {k \in K : k <= last /\ cs[k].res = "none"}
      pops == {k \in 1..last : cs[k].op = "pop" /\ (cs[k].res = "pop") # (st.d[k] = 0)}
      wr   == {k \in 1..last : cs[k].op \notin {"push", "pop", "exit"} /\ ~Fits(Must(r, st.s[k], cs[k]), cs[k].res)}
      E(k, what) == <<what, j, k, cs[k].op, cs[k].arg, cs[k].res>>
  IN IF int # {} THEN <<E(CHOOSE k \in int : \A h \in int : k <= h, "internal")>>
     ELSE IF gone # {} THEN <<E(CHOOSE k \in gone : \A h \in gone : k <= h, "not executed")>>
     ELSE IF out # {} THEN <<E(CHOOSE k \in out : TRUE, "after exit")>>
     ELSE IF pops # {} THEN <<E(CHOOSE k \in pops : TRUE, "pop")>>
     ELSE IF wr # {} THEN LET k == CHOOSE k \in wr : \A h \in wr : k <= h
                          IN <<Append(E(k, IF Must(r, st.s[k], cs[k]) = "guard" THEN "guard" ELSE "refused"), st.s[k].hist)>>
     ELSE IF (sc.rc = 0) # (bad = {}) \/ (bad # {} /\ sc.rc \notin Code(cs[lf].res)) THEN <<<<"code", j, sc.rc>>>>
     ELSE <<>>

(* observations are a function of state and command *)
Function(r, sts) ==
  LET Pts == UNION {{<<j, k>> : k \in {k \in 1..Len(r.scripts[j].cmds) : r.scripts[j].cmds[k].obs # ""}} : j \in 1..Len(r.scripts)}
      Obs == TLCEval([p \in Pts |-> LET c == r.scripts[p[1]].cmds[p[2]] IN <<<<sts[p[1]].s[p[2]], c.op, c.arg>>, <<c.res, c.obs>>>>])
      Seen == {Obs[p] : p \in Pts}
      Keys == {x[1] : x \in Seen}
  IN IF Cardinality(Keys) = Cardinality(Seen) THEN [bad |-> <<>>, same |-> Cardinality(Pts) - Cardinality(Keys)]
     ELSE LET key == CHOOSE x \in Keys : Cardinality({y \in Seen : y[1] = x}) > 1
          IN [bad |-> <<<<"function", {p \in Pts : Obs[p][1] = key}, key[2], key[3]>>>>, same |-> 0]

JudgeRun(r, sts, u) ==
  LET s == sts[u.script].s[u.pos]
      op == r.scripts[u.script].cmds[u.pos].op
  IN IF s.prog # u.prog \/ ~Mapped(r, s) \/ ~Settled(r, s) THEN <<>>
     (* assembling operators that the monitor may not have only warns; the normal form has a known finding of its own *)
     ELSE IF \E k \in 1..Len(s.hist) : s.hist[k][1] = "to_nnf" THEN <<>>
     ELSE IF op # "compile" /\ ~Since(s, Introduce, {"remove_extended_operators", "compile"}) THEN <<>>
     ELSE LET p == r.progs[s.prog]
              m == CHOOSE m \in 1..Len(r.maps) : r.maps[m].file = s.map[2] /\ r.maps[m].prog = s.prog
              b == JudgeFront([map |-> r.maps[m].entries, lines |-> u.lines, flat |-> TRUE, outs |-> u.outs, end |-> u.end, vars |-> p.vars] @@ p.model)
          IN IF b = <<>> THEN <<>> ELSE <<<<"verdicts", u.script, u.pos, b>>>>

JudgeFamily(r) ==
  LET sts == TLCEval([j \in 1..Len(r.scripts) |-> TLCEval(States(r, r.scripts[j].cmds))])
      f   == TLCEval(Function(r, sts))
      bs  == FlattenSeq([j \in 1..Len(r.scripts) |-> JudgeScript(r, j, sts[j])]) \o f.bad
             \o FlattenSeq([u \in 1..Len(r.runs) |-> JudgeRun(r, sts, r.runs[u])])
  IN [bad |-> bs, same |-> f.same]

NextSession ==
  /\ rec <= Len(Records)
  /\ LET b == TLCEval(JudgeFamily(Records[rec]))
     IN /\ b.bad # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b.bad])>>)
        /\ PrintT(<<"SAME", b.same>>)
  /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
  /\ rec' = rec + 1
SpecSession == Init /\ [][NextSession]_rec
===============================================================================
