-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* Concrete syntax: how a sequence of tokens is grouped, which expressions  *)
(* are well-typed, and what they then mean.                                 *)
(*                                                                          *)
(* Tokens are tuples: <<"id", name>>, <<"int", v>>, <<"flt", v>> (scaled),   *)
(* <<"true">>, <<"false">>, <<"tau">>, <<"(">>, <<")">>, <<",">>, the         *)
(* functions <<"abs">>, <<"sqrt">>, <<"prev">>, operators <<op>> or           *)
(* <<op, lb, ub>> for temporal ones, and <<"?", ch>>, a character that starts *)
(* no token.                                                                 *)
(*                                                                          *)
(* Binding strength (loosest first), all binary operators left associative:  *)
(*   c2po  -> xor <-> ; || ; && ; U R S T ; G F H O ; | ; ^ ; & ; == != ;     *)
(*         < > <= >= ; + - ; * / % pow ; ! ~ unary -                          *)
(*   mltl  -> <-> ; | ; & ; U R S T ; ! G F H O                               *)
(* A prefix operator reaches as far as operators bind tighter than it.       *)
(*                                                                          *)
(* A parsed expression is [e, ty, st, p, z]: its tree for Surface.tla, type  *)
(* ("b", "i", "f"), status ("ok", "ill" = not well-typed, "un" = outside of   *)
(* what is specified here), the position after it and whether the            *)
(* booleanizer computes it.                                                  *)
(*                                                                          *)
(* A record is one for VerdictConf with vars (<<name, type, column>>),        *)
(* formulas as token sequences in r.toks, r.past for a PTSPEC section, r.bz   *)
(* if the booleanizer is enabled; end = "ill" if C2PO rejected it.            *)
(***************************************************************************)
EXTENDS VerdictConf

(* [lang |-> ..] tables: binary operators to levels, prefix operators to the least level of their operand *)
Level(lang, op) ==
  IF lang = "c2po"
  THEN CASE op \in {"->", "xor", "<->"} -> 1
         [] op = "||" -> 2
         [] op = "&&" -> 3
         [] op \in {"U", "R", "S", "T"} -> 4
         [] op = "|" -> 6
         [] op = "^" -> 7
         [] op = "&" -> 8
         [] op \in {"==", "!="} -> 9
         [] op \in {"<", ">", "<=", ">="} -> 10
         [] op \in {"+", "-"} -> 12
         [] op \in {"*", "/", "%", "pow"} -> 13
         [] OTHER -> 0
  ELSE CASE op \in {"->", "<->"} -> 1
         [] op = "|" -> 2
         [] op = "&" -> 3
         [] op \in {"U", "R", "S", "T"} -> 4
         [] OTHER -> 0
OperandLevel(lang, op) == IF lang = "c2po" /\ op \in {"G", "F", "H", "O"} THEN 6
                          ELSE IF lang = "c2po" THEN 14 ELSE 5
Prefix == {"!", "~", "-", "G", "F", "H", "O"}

(* MLTL's names of the operators *)
TlName(lang, op) == CASE op \in {"&&", "&"} -> "&" [] op \in {"||", "|"} -> "|" [] op = "->" -> ">"
                      [] op \in {"<->", "=="} -> "=" [] op \in {"xor", "!="} -> "^" [] OTHER -> op
Worst(a, b) == IF "ill" \in {a, b} THEN "ill" ELSE IF "un" \in {a, b} THEN "un" ELSE "ok"
(* z: computed by the booleanizer, which cannot refer to temporal operators and connectives *)
NZ(e, ty, st, p, z) == [e |-> e, ty |-> ty, st |-> st, p |-> p, z |-> z]
N(e, ty, st, p) == NZ(e, ty, st, p, e[1] # "tl")

Logic(lang) == IF lang = "c2po" THEN {"->", "xor", "<->", "||", "&&"} ELSE {"->", "<->", "|", "&"}
Temporal == {"U", "R", "S", "T", "G", "F", "H", "O"}

Interval(t) == IF t[2] > t[3] THEN "ill" ELSE "ok"

(* division by zero and inexact results are not judged *)
Exact(op, f, y) ==
  LET k == IF y[1] = "c" THEN y[2] ELSE 0
  IN CASE op = "/"   -> IF f THEN AbsV(k) \in {128, 256, 512, 1024} ELSE k # 0
       [] op = "%"   -> ~f /\ k # 0
       [] op = "pow" -> y[1] = "c" /\ (IF f THEN k = 512 ELSE k \in 0..4)
       [] OTHER      -> TRUE

MkBin(lang, t, x, y) ==
  LET op == t[1]
      w  == Worst(x.st, y.st)
      If(c) == IF c THEN w ELSE "ill"
  IN IF op \in Temporal
     THEN N(<<"tl", op, t[2], t[3], <<x.e, y.e>>>>, "b", Worst(If(x.ty = "b" /\ y.ty = "b"), Interval(t)), y.p)
     ELSE IF op \in Logic(lang)
     THEN N(<<"tl", TlName(lang, op), 0, 0, <<x.e, y.e>>>>, "b", If(x.ty = "b" /\ y.ty = "b"), y.p)
     ELSE IF op \in {"==", "!="}
     THEN IF x.ty = "b" /\ y.ty = "b"
          THEN NZ(<<"tl", TlName(lang, op), 0, 0, <<x.e, y.e>>>>, "b", w, y.p, x.z /\ y.z)
          ELSE N(<<"bz", op, x.ty, <<x.e, y.e>>>>, "b", If(x.ty = y.ty), y.p)
     ELSE IF op \in {"<", ">", "<=", ">="}
     THEN N(<<"bz", op, x.ty, <<x.e, y.e>>>>, "b", If(x.ty = y.ty /\ x.ty # "b"), y.p)
     ELSE IF op \in {"|", "^", "&"}
     THEN IF x.ty = "b"      \* also of truth values
          THEN NZ(<<"tl", op, 0, 0, <<x.e, y.e>>>>, "b", If(y.ty = "b" /\ x.z /\ y.z), y.p, TRUE)
          ELSE N(<<"bz", op, "i", <<x.e, y.e>>>>, "i", If(x.ty = "i" /\ y.ty = "i"), y.p)
     ELSE N(<<"bz", op, x.ty, <<x.e, y.e>>>>, x.ty,
            Worst(If(x.ty = y.ty /\ x.ty # "b"), IF Exact(op, x.ty = "f", y.e) THEN "ok" ELSE "un"), y.p)

MkPre(lang, t, x) ==
  LET op == t[1]
      If(c) == IF c THEN x.st ELSE "ill"
  IN IF op \in Temporal THEN N(<<"tl", op, t[2], t[3], <<x.e>>>>, "b", Worst(If(x.ty = "b"), Interval(t)), x.p)
     ELSE IF op = "!" THEN N(<<"tl", "!", 0, 0, <<x.e>>>>, "b", If(x.ty = "b"), x.p)
     ELSE IF op = "~" THEN N(<<"bz", "~", "i", <<x.e>>>>, "i", If(x.ty = "i"), x.p)
     ELSE N(<<"bz", "neg", x.ty, <<x.e>>>>, x.ty, If(x.ty # "b"), x.p)

Var(vars, name) == vars[CHOOSE k \in 1..Len(vars) : vars[k][1] = name]

RECURSIVE Expr(_, _, _, _, _), Rest(_, _, _, _, _), Primary(_, _, _, _)
(* expression whose operators bind at level `min` or tighter, from position p on *)
Expr(lang, ts, vars, p, min) == Rest(lang, ts, vars, TLCEval(Primary(lang, ts, vars, p)), min)
Rest(lang, ts, vars, x, min) ==
  IF x.p > Len(ts) THEN x
  ELSE LET t == ts[x.p]
           l == Level(lang, t[1])
       IN IF l = 0 \/ l < min THEN x
          ELSE Rest(lang, ts, vars, TLCEval(MkBin(lang, t, x, TLCEval(Expr(lang, ts, vars, x.p + 1, l + 1)))), min)
Primary(lang, ts, vars, p) ==
  LET t  == IF p > Len(ts) THEN <<"end">> ELSE ts[p]
      op == t[1]
      Wrong == N(<<"c", 0>>, "b", "ill", Len(ts) + 2)
      Closed(x) == x.p <= Len(ts) /\ ts[x.p][1] = ")"
      Opened == p < Len(ts) /\ ts[p + 1][1] = "("
  IN CASE op = "id"    -> IF \E k \in 1..Len(vars) : vars[k][1] = t[2]
                          THEN LET v == Var(vars, t[2]) IN N(<<"in", v[3]>>, v[2], "ok", p + 1)
                          ELSE N(<<"c", 0>>, "b", "ill", p + 1)
       [] op = "int"   -> N(<<"c", t[2]>>, "i", "ok", p + 1)
       [] op = "flt"   -> N(<<"c", t[2]>>, "f", "ok", p + 1)
       [] op = "true"  -> N(<<"c", 1>>, "b", "ok", p + 1)
       [] op = "false" -> N(<<"c", 0>>, "b", "ok", p + 1)
       [] op = "tau"   -> N(<<"tau">>, "i", "ok", p + 1)
       [] op = "("     -> LET x == TLCEval(Expr(lang, ts, vars, p + 1, 0)) IN IF Closed(x) THEN [x EXCEPT !.p = @ + 1] ELSE Wrong
       [] op = "abs"   -> IF ~Opened THEN Wrong
                          ELSE LET x == TLCEval(Expr(lang, ts, vars, p + 2, 0))
                               IN IF ~Closed(x) THEN Wrong
                                  ELSE N(<<"bz", "abs", x.ty, <<x.e>>>>, x.ty, IF x.ty = "b" THEN "ill" ELSE x.st, x.p + 1)
       [] op = "prev"  -> IF ~Opened THEN Wrong
                          ELSE LET c == TLCEval(Expr(lang, ts, vars, p + 2, 0))
                                   x == TLCEval(IF c.p > Len(ts) \/ ts[c.p][1] # "," THEN Wrong ELSE Expr(lang, ts, vars, c.p + 1, 0))
                               IN IF ~Closed(x) THEN Wrong
                                  ELSE N(<<"bz", "prev", x.ty, <<c.e, x.e>>>>, x.ty,
                                         IF x.ty # c.ty \/ ~x.z THEN "ill" ELSE Worst(c.st, x.st), x.p + 1)
       [] op \in Prefix -> MkPre(lang, t, TLCEval(Expr(lang, ts, vars, p + 1, OperandLevel(lang, op))))
       [] OTHER -> Wrong

(* a formula is all of its tokens *)
Parsed(r) == [f \in 1..Len(r.toks) |-> LET x == TLCEval(Expr(r.lang, r.toks[f], r.vars, 1, 0))
                                       IN [x EXCEPT !.st = IF x.p = Len(r.toks[f]) + 1 THEN @ ELSE "ill"]]

(* operators of one section (in mltl: file) have one tense *)
Past == {"H", "O", "S", "T"}
Future == {"F", "G", "U", "R"}
TenseOk(r) ==
  LET ops == UNION {{r.toks[f][k][1] : k \in 1..Len(r.toks[f])} : f \in 1..Len(r.toks)}
  IN IF r.lang = "mltl" THEN ops \cap Past = {} \/ ops \cap Future = {} ELSE ops \cap (IF r.past = 1 THEN Future ELSE Past) = {}
(* without the booleanizer there are truth values, connectives and temporal operators only *)
RECURSIVE Plain(_, _)
Plain(e, cols) == CASE e[1] = "in" -> e[2] \in cols
                    [] e[1] = "c"  -> TRUE
                    [] e[1] = "tl" -> \A k \in 1..Len(e[5]) : Plain(e[5][k], cols)
                    [] OTHER -> FALSE
NoBz(r, f) == \A k \in 1..Len(r.toks[f]) : r.toks[f][k][1] \notin {"&", "|", "^"}

JudgeSyntax(r) ==
  LET ps == TLCEval(Parsed(r))
      F  == 1..Len(ps)
      bools == {r.vars[k][3] : k \in {k \in 1..Len(r.vars) : r.vars[k][2] = "b"}}
      Stat(f) == IF ps[f].ty # "b" \/ ~TenseOk(r) \/ (r.bz = 0 /\ r.lang = "c2po" /\ (~Plain(ps[f].e, bools) \/ ~NoBz(r, f)))
                 THEN "ill" ELSE ps[f].st
      ill == \E f \in F : Stat(f) = "ill"
  IN IF ~ill /\ \E f \in F : Stat(f) = "un" THEN <<>>
     ELSE IF ill THEN IF r.end = "ill" THEN <<>> ELSE <<<<"accepted", "not well-typed">>>>
     ELSE IF r.end = "ill" THEN <<<<"rejected", "well-typed">>>>
     ELSE Judge([items |-> TLCEval([f \in F |-> <<"", ps[f].e, 1>>]), structs |-> <<>>, inputs |-> r.inputs, n |-> r.n,
                 steps |-> r.steps, end |-> r.end, outs |-> r.outs])

NextSyntax == /\ rec <= Len(Records)
              /\ LET b == JudgeSyntax(Records[rec])
                 IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
              /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
              /\ rec' = rec + 1
SpecSyntax == Init /\ [][NextSyntax]_rec
===============================================================================
