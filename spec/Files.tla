--------------------------------- MODULE Files ---------------------------------
(***************************************************************************)
(* Whole specification files: sections, declarations, the scope of names,   *)
(* types, and what an accepted file then means.                             *)
(*                                                                          *)
(* A file is a sequence of tokens (as in Syntax.tla, except that the bounds *)
(* of temporal operators are tokens of their own): <<"id", name>>,           *)
(* <<"int", v>>, <<"big">> (an integer beyond 32 bits), <<"flt", v>>,         *)
(* <<"?", ch>>, and otherwise <<text>>.                                      *)
(*                                                                          *)
(* Types: <<"b">>, <<"i">>, <<"f">>, <<"e", enum>>, <<"m", member>> (a member  *)
(* of some enum), <<"a", type, size>> (-1: any size), <<"r", struct>>,        *)
(* <<"?">> (not specified here).                                             *)
(*                                                                          *)
(* An expression is [e, ty, st, p, z, mx, tn, lit, pv]: its tree for          *)
(* Surface.tla, its type, its status, the position after it, whether the      *)
(* booleanizer computes it, a bound of its values, the tenses of the temporal *)
(* operators in it, "c" for a literal and "tau" for TAU, and whether it has    *)
(* a prev in it.                                                             *)
(*                                                                          *)
(* Status: "ok" must be accepted, and means what Surface.tla says; "nm" must  *)
(* be accepted, its values are not specified here (rounding, overflow);       *)
(* "un" may be accepted or refused; "ill" must be refused.                   *)
(*                                                                          *)
(* A record is one for VerdictConf with r.toks (the file), r.base (<<name,    *)
(* first column, number of columns, kind>> of every identifier; the trace has *)
(* numbers with a decimal point in the columns of kind "f"), r.mission (the   *)
(* mission time, -1 if not set).  end = "ill" if C2PO refused the file,       *)
(* "crash: .." if it failed in any other way.                                *)
(***************************************************************************)
EXTENDS Syntax

Rank(s) == CASE s = "ok" -> 0 [] s = "nm" -> 1 [] s = "un" -> 2 [] s = "ill" -> 3
W2(a, b) == IF Rank(a) >= Rank(b) THEN a ELSE b
W3(a, b, c) == W2(W2(a, b), c)

Cap == 100000
Capped(v) == IF v > Cap THEN Cap ELSE v
Prod(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Cap \div b THEN Cap ELSE Capped(a * b)
RECURSIVE Power(_, _)
Power(a, k) == IF k <= 0 THEN 1 ELSE IF a <= 1 THEN a ELSE IF a >= Cap THEN Cap ELSE Prod(a, Power(a, k - 1))
MaxN(a, b) == IF a > b THEN a ELSE b

B == <<"b">>
I == <<"i">>
Fl == <<"f">>
Q == <<"?">>
Arr(t, n) == <<"a", t, n>>

RECURSIVE Compat(_, _), Vague(_)
Compat(t, u) == IF t[1] = "a" /\ u[1] = "a"
                THEN Compat(t[2], u[2]) /\ (t[3] = -1 \/ u[3] = -1 \/ t[3] = u[3])
                ELSE t = u
Vague(t) == t[1] = "?" \/ (t[1] = "a" /\ Vague(t[2]))

X(e, ty, st, p) == [e |-> e, ty |-> ty, st |-> st, p |-> p, z |-> TRUE, mx |-> 1, tn |-> {}, lit |-> "", pv |-> FALSE]
From(x, y) == [tn |-> x.tn \cup y.tn, pv |-> x.pv \/ y.pv]
(* an operator's result: of operands x and y *)
Op(e, ty, st, p, z, mx, x, y) ==
  [e |-> e, ty |-> ty, st |-> W2(st, IF ~z \/ (x.z /\ y.z) THEN "ok" ELSE "un"), p |-> p, z |-> z, mx |-> Capped(mx), tn |-> x.tn \cup y.tn, lit |-> "", pv |-> x.pv \/ y.pv]

Has(s, name) == \E k \in 1..Len(s) : s[k][1] = name
Get(s, name) == s[CHOOSE k \in 1..Len(s) : s[k][1] = name /\ \A j \in k + 1..Len(s) : s[j][1] # name][2]

LevelF(op) == IF op \in {"<<", ">>"} THEN 11 ELSE Level("c2po", op)
MaxInt == 2147483647

(* --------------------------------------------------------------- operators *)
Bin(C, t, iv, x, y) ==
  LET op == t[1]
      w  == W2(x.st, y.st)
      If(c) == IF c THEN w ELSE "ill"
      a  == x.ty
      b  == y.ty
      vague == Vague(a) \/ Vague(b)
      Tree(ty) == <<"bz", op, ty, <<x.e, y.e>>>>
      TlTree == <<"tl", TlName("c2po", op), iv.l, iv.u, <<x.e, y.e>>>>
      big == MaxN(x.mx, y.mx)
      Ten == IF op \in Past THEN {"P"} ELSE IF op \in Future THEN {"F"} ELSE {}
      Tensed(r) == [r EXCEPT !.tn = @ \cup Ten]
      EnumOf(e, m) == Has(C.enums, e[2]) /\ Has(Get(C.enums, e[2]), m[2])
      Mem(e, m) == <<"c", Get(Get(C.enums, e[2]), m[2])>>
      Rel(tree, st, z) == Op(tree, B, st, y.p, z, 1, x, y)
  IN IF op \in Temporal \cup Logic("c2po")
     THEN Tensed(Op(TlTree, B, IF vague THEN W3(w, iv.st, "un") ELSE W2(If(a = B /\ b = B), iv.st), y.p, FALSE, 1, x, y))
     ELSE IF op \in {"<<", ">>"} THEN Op(Tree("i"), I, IF vague THEN W2(w, "un") ELSE "ill", y.p, TRUE, 1, x, y)
     ELSE IF vague THEN Op(Tree("i"), IF op \in {"==", "!=", "<", ">", "<=", ">="} THEN B ELSE Q, W2(w, "un"), y.p, TRUE, 1, x, y)
     ELSE IF op \in {"==", "!=", "<", ">", "<=", ">="}
     THEN LET eq == op \in {"==", "!="} IN
          (CASE a = B /\ b = B -> IF eq THEN [Op(TlTree, B, w, y.p, x.z /\ y.z, 1, x, y) EXCEPT !.st = w] ELSE Rel(Tree("b"), "ill", TRUE)
             [] a \in {I, Fl} /\ a = b -> Rel(Tree(a[1]), w, TRUE)
             [] a[1] = "e" /\ b[1] = "m" -> IF EnumOf(a, b) THEN Rel(<<"bz", op, "i", <<x.e, Mem(a, b)>>>>, IF eq THEN w ELSE W2(w, "un"), TRUE)
                                            ELSE Rel(Tree("i"), "ill", TRUE)
             [] a[1] = "m" /\ b[1] = "e" -> IF EnumOf(b, a) THEN Rel(<<"bz", op, "i", <<Mem(b, a), y.e>>>>, IF eq THEN w ELSE W2(w, "un"), TRUE)
                                            ELSE Rel(Tree("i"), "ill", TRUE)
             [] a[1] = "e" /\ a = b -> Rel(Tree("i"), IF eq THEN w ELSE W2(w, "un"), TRUE)
             [] a[1] = "a" /\ b[1] = "a" /\ Compat(a, b) ->
                  Rel(Tree(a[2][1]), IF a[2] \in {I, Fl} /\ a[3] > 0 /\ a[3] = b[3] THEN w ELSE W2(w, "un"), FALSE)
             [] a[1] = "r" /\ a = b -> Rel(Tree("i"), W2(w, "un"), TRUE)
             [] OTHER -> Rel(Tree("i"), "ill", TRUE))
     ELSE IF op \in {"|", "^", "&"}
     THEN (CASE a = B /\ b = B -> Op(TlTree, B, w, y.p, TRUE, 1, x, y)
             [] a = I /\ b = I -> Op(Tree("i"), I, w, y.p, TRUE, 2 * big + 1, x, y)
             [] a[1] \in {"e", "m"} /\ a = b -> Op(Tree("i"), Q, W2(w, "un"), y.p, TRUE, 1, x, y)
             [] OTHER -> Op(Tree("i"), Q, "ill", y.p, TRUE, 1, x, y))
     ELSE (CASE a = I /\ b = I ->
                  (CASE op \in {"+", "-"} -> Op(Tree("i"), I, w, y.p, TRUE, x.mx + y.mx, x, y)
                     [] op = "*" -> Op(Tree("i"), I, w, y.p, TRUE, Prod(x.mx, y.mx), x, y)
                     [] op \in {"/", "%"} -> Op(Tree("i"), I, IF y.lit = "c" /\ y.e[2] = 0 THEN "ill" ELSE IF y.lit = "c" THEN w ELSE W2(w, "nm"), y.p, TRUE, x.mx, x, y)
                     [] op = "pow" -> Op(Tree("i"), I, IF y.lit = "c" /\ y.e[2] >= 0 THEN w ELSE IF y.lit = "tau" THEN W2(w, "nm") ELSE "ill", y.p, TRUE,
                                         IF y.lit = "c" THEN Power(x.mx, y.e[2]) ELSE Cap, x, y))
             [] a = Fl /\ b = Fl ->
                  Op(Tree("f"), Fl, IF op = "%" \/ (op = "/" /\ y.lit = "c" /\ y.e[2] = 0) THEN "ill" ELSE IF op \in {"+", "-"} THEN w ELSE W2(w, "nm"), y.p, TRUE,
                     x.mx + y.mx, x, y)
             [] a[1] \in {"e", "m", "a", "r"} /\ Compat(a, b) -> Op(Tree("i"), Q, W2(w, "un"), y.p, TRUE, 1, x, y)
             [] OTHER -> Op(Tree("i"), Q, "ill", y.p, TRUE, 1, x, y))

Pre(t, iv, x) ==
  LET op == t[1]
      a  == x.ty
      If(c) == IF Vague(a) THEN W2(x.st, "un") ELSE IF c THEN x.st ELSE "ill"
      Ten == IF op \in Past THEN {"P"} ELSE IF op \in Future THEN {"F"} ELSE {}
  IN IF op \in Temporal
     THEN [Op(<<"tl", op, iv.l, iv.u, <<x.e>>>>, B, W2(If(a = B), iv.st), x.p, FALSE, 1, x, x) EXCEPT !.tn = @ \cup Ten]
     ELSE IF op = "!" THEN Op(<<"tl", "!", 0, 0, <<x.e>>>>, B, If(a = B), x.p, FALSE, 1, x, x)
     ELSE IF op = "~" THEN Op(<<"bz", "~", "i", <<x.e>>>>, I, IF a[1] \in {"e", "m"} THEN W2(x.st, "un") ELSE If(a = I), x.p, TRUE, x.mx + 1, x, x)
     ELSE Op(<<"bz", "neg", a[1], <<x.e>>>>, IF a \in {I, Fl} THEN a ELSE Q,
             IF a[1] \in {"e", "m", "a", "r"} THEN W2(x.st, "un") ELSE If(a \in {I, Fl}), x.p, TRUE, x.mx, x, x)

Fun(op, x) ==
  LET a == x.ty
      st == IF a[1] \in {"e", "m", "a", "r", "?"} THEN "un" ELSE IF a = B \/ (op = "sqrt" /\ a = I) THEN "ill" ELSE IF op = "sqrt" THEN "nm" ELSE "ok"
  IN Op(<<"bz", op, a[1], <<x.e>>>>, IF a \in {I, Fl} THEN a ELSE Q, W2(x.st, st), x.p, TRUE, x.mx, x, x)

(* prev(c, x) *)
Previous(C, c, x) ==
  LET a == c.ty
      b == x.ty
      w == W2(c.st, x.st)
      st == IF c.pv \/ x.pv THEN "ill"
            ELSE IF Vague(a) \/ Vague(b) THEN "un"
            ELSE IF a[1] = "m" /\ b[1] = "e" THEN IF Has(C.enums, b[2]) /\ Has(Get(C.enums, b[2]), a[2]) THEN "ok" ELSE "ill"
            ELSE IF a[1] = "e" \/ a[1] = "m" THEN "ill"
            ELSE IF a # b THEN "ill"
            ELSE IF a \notin {B, I, Fl} THEN "un"
            ELSE IF c.lit = "c" THEN "ok"
            ELSE IF c.e[1] = "id" THEN "un" ELSE "ill"       \* a definition may be a literal
      e0 == IF st = "ok" /\ a[1] = "m" THEN <<"c", Get(Get(C.enums, b[2]), a[2])>> ELSE c.e
  IN [Op(<<"bz", "prev", IF b[1] = "e" THEN "i" ELSE b[1], <<e0, x.e>>>>, IF b[1] \in {"b", "i", "f", "e"} THEN b ELSE Q, W2(w, st), x.p, TRUE, MaxN(c.mx, x.mx), c, x)
      EXCEPT !.pv = TRUE]

(* ------------------------------------------------------------- expressions *)
Tok(C, p) == IF p > Len(C.ts) THEN "end" ELSE C.ts[p][1]
Stop(C) == Len(C.ts) + 2
Wrong(C) == X(<<"c", 0>>, Q, "ill", Stop(C))
(* x, if the tokens at x.p are those of w; then after them *)
RECURSIVE Skip(_, _, _)
Skip(C, x, w) == IF w = <<>> THEN x
                 ELSE IF Tok(C, x.p) = w[1] THEN Skip(C, [x EXCEPT !.p = @ + 1], Tail(w))
                 ELSE Wrong(C)

Bound(C, p) ==
  CASE Tok(C, p) = "int" -> [v |-> C.ts[p][2], st |-> IF C.ts[p][2] < 0 THEN "ill" ELSE "ok"]
    [] Tok(C, p) = "M"   -> [v |-> C.r.mission, st |-> IF C.r.mission < 0 THEN "ill" ELSE "ok"]
    [] Tok(C, p) = "big" -> [v |-> 0, st |-> "un"]
    [] OTHER -> [v |-> 0, st |-> "syn"]
BoundsAt(C, p) ==
  LET l == Bound(C, p + 1)
      u == Bound(C, p + 3)
      no == [l |-> 0, u |-> 0, st |-> "ill", p |-> Stop(C)]
  IN IF Tok(C, p) # "[" \/ l.st = "syn" THEN no
     ELSE IF Tok(C, p + 2) = "]" THEN [l |-> 0, u |-> l.v, st |-> l.st, p |-> p + 3]
     ELSE IF Tok(C, p + 2) # "," \/ u.st = "syn" \/ Tok(C, p + 4) # "]" THEN no
     ELSE [l |-> l.v, u |-> u.v, st |-> W3(l.st, u.st, IF l.v > u.v /\ "un" \notin {l.st, u.st} THEN "ill" ELSE "ok"), p |-> p + 5]

Kinds == [foreach |-> "each", forsome |-> "some", forexactly |-> "exactly", foratleast |-> "atleast", foratmost |-> "atmost"]

(* the declared type of a member, where structures are declared so far *)
RECURSIVE Known(_, _)
Known(C, t) == CASE t[1] = "r" -> IF Has(C.structs, t[2]) THEN t ELSE Q
                 [] t[1] = "a" -> Arr(Known(C, t[2]), t[3])
                 [] OTHER -> t

RECURSIVE Ex(_, _, _), Infix(_, _, _), Unary(_, _), Atom(_, _), Post(_, _), List(_, _, _)
Ex(C, p, min) == Infix(C, TLCEval(Unary(C, p)), min)
Infix(C, x, min) ==
  IF x.p > Len(C.ts) THEN x
  ELSE LET t == C.ts[x.p]
           l == LevelF(t[1])
       IN IF l = 0 \/ l < min THEN x
          ELSE LET iv == IF t[1] \in Temporal THEN BoundsAt(C, x.p + 1) ELSE [l |-> 0, u |-> 0, st |-> "ok", p |-> x.p + 1]
               IN Infix(C, TLCEval(Bin(C, t, iv, x, TLCEval(Ex(C, iv.p, l + 1)))), min)
Unary(C, p) ==
  LET op == Tok(C, p)
  IN IF op \in Prefix
     THEN LET iv == IF op \in Temporal THEN BoundsAt(C, p + 1) ELSE [l |-> 0, u |-> 0, st |-> "ok", p |-> p + 1]
          IN Pre(C.ts[p], iv, TLCEval(Ex(C, iv.p, OperandLevel("c2po", op))))
     ELSE Post(C, TLCEval(Atom(C, p)))
(* expressions separated by commas, from p on: [xs, p] *)
List(C, p, xs) ==
  LET x == TLCEval(Ex(C, p, 0))
      ys == Append(xs, x)
  IN IF Tok(C, x.p) = "," THEN List(C, x.p + 1, ys) ELSE [xs |-> ys, p |-> x.p]
RECURSIVE WorstOf(_, _), TensesOf(_, _), MostOf(_, _)
WorstOf(xs, k) == IF k = 0 THEN "ok" ELSE W2(xs[k].st, WorstOf(xs, k - 1))
TensesOf(xs, k) == IF k = 0 THEN {} ELSE xs[k].tn \cup TensesOf(xs, k - 1)
MostOf(xs, k) == IF k = 0 THEN 0 ELSE MaxN(xs[k].mx, MostOf(xs, k - 1))
Of(e, ty, st, p, xs) == [e |-> e, ty |-> ty, st |-> W2(st, WorstOf(xs, Len(xs))), p |-> p, z |-> \A k \in 1..Len(xs) : xs[k].z, mx |-> MostOf(xs, Len(xs)),
                         tn |-> TensesOf(xs, Len(xs)), lit |-> "", pv |-> \E k \in 1..Len(xs) : xs[k].pv]
Trees(xs) == TLCEval([k \in 1..Len(xs) |-> xs[k].e])

Name(C, name, p) ==
  IF Has(C.bound, name) THEN [Get(C.bound, name) EXCEPT !.p = p, !.e = <<"id", name>>]
  ELSE IF Has(C.sigs, name) THEN [Get(C.sigs, name) EXCEPT !.p = p]
  ELSE IF Has(C.defs, name) THEN [Get(C.defs, name) EXCEPT !.p = p, !.e = <<"id", name>>, !.lit = "", !.pv = FALSE]
  ELSE IF name \in C.members THEN X(<<"c", 0>>, <<"m", name>>, "ok", p)
  ELSE X(<<"c", 0>>, Q, "ill", p)                           \* unknown, or a structure, an enumeration, a contract

Atom(C, p) ==
  LET op == Tok(C, p)
      t  == C.ts[p]
  IN CASE op = "id" -> IF Tok(C, p + 1) # "(" THEN Name(C, t[2], p + 1)
                       ELSE LET l == IF Tok(C, p + 2) = ")" THEN [xs |-> <<>>, p |-> p + 2] ELSE TLCEval(List(C, p + 2, <<>>))
                                n == Len(l.xs)
                                ms == IF Has(C.structs, t[2]) THEN Get(C.structs, t[2]) ELSE <<>>
                                mt == TLCEval([k \in 1..Len(ms) |-> Known(C, ms[k][2])])
                                st == IF ~Has(C.structs, t[2]) THEN "ill"
                                      ELSE IF \E k \in 1..n : Vague(l.xs[k].ty) THEN "un"
                                      ELSE IF n # Len(ms) THEN "ill"
                                      ELSE IF \E k \in 1..n : Vague(mt[k]) THEN "un"
                                      ELSE IF \E k \in 1..n : ~Compat(l.xs[k].ty, mt[k]) THEN "ill"
                                      ELSE IF n = 0 THEN "un" ELSE "ok"
                            IN Skip(C, Of(<<"str", t[2], Trees(l.xs)>>, <<"r", t[2]>>, st, l.p, l.xs), <<")">>)
       [] op = "int"   -> [X(<<"c", t[2]>>, I, "ok", p + 1) EXCEPT !.lit = "c", !.mx = Capped(AbsV(t[2]))]
       [] op = "big"   -> [X(<<"c", 0>>, I, "ill", p + 1) EXCEPT !.lit = "c"]
       [] op = "flt"   -> [X(<<"c", t[2]>>, Fl, "ok", p + 1) EXCEPT !.lit = "c", !.mx = Capped(AbsV(t[2]) \div 256 + 1)]
       [] op = "true"  -> [X(<<"c", 1>>, B, "ok", p + 1) EXCEPT !.lit = "c"]
       [] op = "false" -> [X(<<"c", 0>>, B, "ok", p + 1) EXCEPT !.lit = "c"]
       [] op = "TAU"   -> [X(<<"tau">>, I, "ok", p + 1) EXCEPT !.lit = "tau", !.mx = 40]
       [] op = "("     -> Skip(C, TLCEval(Ex(C, p + 1, 0)), <<")">>)
       [] op = "{"     -> IF Tok(C, p + 1) = "}" THEN X(<<"arr", <<>>>>, Q, "ill", p + 2)
                          ELSE LET l == TLCEval(List(C, p + 1, <<>>))
                                   xs == l.xs
                                   t1 == xs[1].ty
                                   st == IF \E k \in 1..Len(xs) : Vague(xs[k].ty) THEN "un"
                                         ELSE IF \E k \in 2..Len(xs) : ~Compat(xs[k].ty, t1) THEN "ill"
                                         ELSE IF t1[1] = "m" THEN "ill" ELSE IF t1[1] = "a" THEN "un" ELSE "ok"
                               IN Skip(C, Of(<<"arr", Trees(xs)>>, IF st = "ok" THEN Arr(t1, Len(xs)) ELSE Q, st, l.p, xs), <<"}">>)
       [] op \in {"abs", "sqrt"} -> IF Tok(C, p + 1) # "(" THEN Wrong(C) ELSE Skip(C, Fun(op, TLCEval(Ex(C, p + 2, 0))), <<")">>)
       [] op = "prev"  -> IF Tok(C, p + 1) # "(" THEN Wrong(C)
                          ELSE LET c == TLCEval(Skip(C, TLCEval(Ex(C, p + 2, 0)), <<",">>))
                               IN IF c.p > Len(C.ts) THEN Wrong(C) ELSE Skip(C, Previous(C, c, TLCEval(Ex(C, c.p, 0))), <<")">>)
       [] op \in DOMAIN Kinds ->
            IF Tok(C, p + 1) # "(" \/ Tok(C, p + 2) # "id" \/ Tok(C, p + 3) # ":" THEN Wrong(C)
            ELSE LET v == C.ts[p + 2][2]
                     kind == Kinds[op]
                     count == kind \in {"exactly", "atleast", "atmost"}
                     s == TLCEval(Ex(C, p + 4, 0))
                     n == IF count THEN TLCEval(Ex(C, Skip(C, s, <<",">>).p, 0)) ELSE [X(<<"c", 0>>, I, "ok", s.p) EXCEPT !.lit = "c"]
                     q == Skip(C, n, <<")", "(">>).p
                     isarr == s.ty[1] = "a"
                     el == [s EXCEPT !.ty = IF isarr THEN s.ty[2] ELSE Q, !.st = "ok", !.tn = {}, !.pv = FALSE, !.lit = ""]
                     body == TLCEval(Ex([C EXCEPT !.bound = Append(@, <<v, el>>)], q, 0))
                     st == IF Has(C.sigs, v) \/ (~isarr /\ ~Vague(s.ty)) \/ (~Vague(body.ty) /\ body.ty # B) \/ (count /\ n.ty \notin {I, B, Q} /\ n.ty[1] \notin {"e", "m"})
                           THEN "ill"
                           ELSE IF Vague(s.ty) \/ Vague(body.ty) \/ n.ty # I \/ (count /\ ~body.z) \/ s.ty[3] = -1 THEN "un" ELSE "ok"
                 IN Skip(C, [Of(<<"agg", kind, n.e, v, s.e, body.e>>, B, st, body.p, <<s, n, body>>) EXCEPT !.z = FALSE], <<")">>)
       [] OTHER -> Wrong(C)

Post(C, x) ==
  LET op == Tok(C, x.p)
      t  == x.ty
  IN IF op = "." THEN
        IF Tok(C, x.p + 1) # "id" THEN Wrong(C)
        ELSE LET m == C.ts[x.p + 1][2]
                 ms == IF t[1] = "r" /\ Has(C.structs, t[2]) THEN Get(C.structs, t[2]) ELSE <<>>
                 st == IF Vague(t) THEN "un" ELSE IF ~Has(ms, m) THEN "ill" ELSE "ok"
                 ty == IF st = "ok" THEN Known(C, Get(ms, m)) ELSE Q
             IN Post(C, TLCEval([x EXCEPT !.e = <<"acc", x.e, m>>, !.ty = ty, !.st = W3(@, st, IF Vague(ty) THEN "un" ELSE "ok"), !.p = @ + 2, !.lit = ""]))
     ELSE IF op = "[" THEN
        LET big(k) == Tok(C, k) = "big"
            a == IF Tok(C, x.p + 1) = "int" THEN C.ts[x.p + 1][2] ELSE -1
            b == IF Tok(C, x.p + 3) = "int" THEN C.ts[x.p + 3][2] ELSE -1
            isarr == t[1] = "a"
            size == IF isarr THEN t[3] ELSE -1
            ty == IF isarr THEN t[2] ELSE Q
            Chk(k) == IF isarr /\ size >= 0 /\ AbsV(k) > size THEN "ill" ELSE IF k < 0 \/ (isarr /\ AbsV(k) = size) \/ size < 0 THEN "un" ELSE "ok"
            base == IF Vague(t) THEN "un" ELSE IF ~isarr THEN "ill" ELSE IF Vague(ty) THEN "un" ELSE "ok"
        IN IF Tok(C, x.p + 1) \notin {"int", "big"} THEN Wrong(C)
           ELSE IF Tok(C, x.p + 2) = "]"
           THEN Post(C, TLCEval([x EXCEPT !.e = <<"idx", x.e, a>>, !.ty = ty, !.st = W3(@, base, IF big(x.p + 1) THEN "un" ELSE Chk(a)), !.p = @ + 3, !.lit = ""]))
           ELSE IF Tok(C, x.p + 2) = ".." /\ Tok(C, x.p + 3) \in {"int", "big"} /\ Tok(C, x.p + 4) = "]"
           THEN LET st == IF big(x.p + 1) \/ big(x.p + 3) THEN "un" ELSE W3(Chk(a), Chk(b), IF a > b /\ a >= 0 /\ b >= 0 THEN "ill" ELSE "ok")
                IN Post(C, TLCEval([x EXCEPT !.e = <<"slice", x.e, a, b>>, !.ty = IF isarr /\ st = "ok" THEN Arr(ty, b - a + 1) ELSE Q, !.st = W3(@, base, st),
                                             !.p = @ + 5, !.lit = ""]))
           ELSE Wrong(C)
     ELSE x

(* ---------------------------------------------------------------- sections *)
Bad(C) == [C EXCEPT !.st = "ill", !.p = Stop(C)]
Mark(C, st) == IF st = "ill" THEN Bad(C) ELSE [C EXCEPT !.st = W2(@, st)]

(* a type: [ty, p, st]; named types are <<"r", name>> *)
RECURSIVE TypeTail(_, _)
TypeTail(C, t) ==
  IF Tok(C, t.p) # "[" THEN t
  ELSE IF Tok(C, t.p + 1) = "]" THEN TypeTail(C, [t EXCEPT !.ty = Arr(@, -1), !.p = @ + 2])
  ELSE IF Tok(C, t.p + 1) = "int" /\ Tok(C, t.p + 2) = "]"
  THEN LET n == C.ts[t.p + 1][2] IN TypeTail(C, [t EXCEPT !.ty = Arr(@, n), !.p = @ + 3, !.st = IF n <= 0 THEN "ill" ELSE @])
  ELSE [t EXCEPT !.st = "ill", !.p = Stop(C)]
TypeAt(C, p) ==
  IF Tok(C, p) # "id" THEN [ty |-> Q, p |-> Stop(C), st |-> "ill"]
  ELSE LET n == C.ts[p][2]
       IN TypeTail(C, [ty |-> CASE n = "bool" -> B [] n = "int" -> I [] n = "float" -> Fl [] OTHER -> <<"r", n>>, p |-> p + 1, st |-> "ok"])

(* declarations "a, b: type;" from p on: [ds, p, st] with ds a sequence of <<name, type>> *)
RECURSIVE NamesAt(_, _, _), Decls(_, _, _)
NamesAt(C, p, ns) == IF Tok(C, p) # "id" THEN [ns |-> <<>>, p |-> Stop(C)]
                     ELSE IF Tok(C, p + 1) = "," THEN NamesAt(C, p + 2, Append(ns, C.ts[p][2]))
                     ELSE [ns |-> Append(ns, C.ts[p][2]), p |-> p + 1]
Decls(C, p, ds) ==
  IF Tok(C, p) # "id" THEN [ds |-> ds, p |-> p, st |-> "ok"]
  ELSE LET ns == NamesAt(C, p, <<>>)
           t  == TypeAt(C, ns.p + 1)
       IN IF Tok(C, ns.p) # ":" \/ t.st = "ill" \/ Tok(C, t.p) # ";" THEN [ds |-> ds, p |-> Stop(C), st |-> "ill"]
          ELSE Decls(C, t.p + 1, ds \o TLCEval([k \in 1..Len(ns.ns) |-> <<ns.ns[k], t.ty>>]))
Repeats(ns) == \E j, k \in 1..Len(ns) : j < k /\ ns[j] = ns[k]
Firsts(ds) == [k \in 1..Len(ds) |-> ds[k][1]]

Base(C, name) == LET k == CHOOSE k \in 1..Len(C.r.base) : C.r.base[k][1] = name IN C.r.base[k]
Signal(C, name, ty) ==
  LET b == Base(C, name)
      cols(n) == {b[2] + k : k \in 0..n - 1}
      vals(n) == UNION {{C.r.inputs[c + 1][i] : i \in 1..C.r.n} : c \in cols(n)}
      Bits(n) == \A v \in vals(n) : v \in {0, 1}
      ElSt(t, n) == IF (t = B /\ ~Bits(n)) \/ (t = Fl) # (b[4] = "f") THEN "nm" ELSE "ok"
  IN IF ty \in {B, I, Fl} THEN [X(<<"in", b[2]>>, ty, ElSt(ty, 1), 0) EXCEPT !.mx = IF ty = B THEN 1 ELSE 8]
     ELSE IF ty[1] = "r" THEN IF b[4] = "f" THEN X(<<"c", 0>>, Q, "un", 0) ELSE IF Has(C.enums, ty[2]) THEN [X(<<"in", b[2]>>, <<"e", ty[2]>>, "ok", 0) EXCEPT !.mx = 8] ELSE X(<<"c", 0>>, Q, "un", 0)
     ELSE IF ty[2] \in {B, I, Fl} /\ ty[3] > 0 /\ ty[3] <= b[3]
     THEN [X(<<"ina", TLCEval([k \in 1..ty[3] |-> b[2] + k - 1])>>, ty, ElSt(ty[2], ty[3]), 0) EXCEPT !.mx = 8]
     ELSE X(<<"c", 0>>, Q, "un", 0)

RECURSIVE AddSignals(_, _, _)
AddSignals(C, ds, k) ==
  IF k > Len(ds) THEN C
  ELSE LET s == TLCEval(Signal(C, ds[k][1], ds[k][2]))
       IN IF ds[k][1] \in C.used THEN Bad(C)
          ELSE AddSignals([Mark(C, IF s.st = "un" THEN "un" ELSE "ok") EXCEPT !.sigs = Append(@, <<ds[k][1], s>>), !.used = @ \cup {ds[k][1]}], ds, k + 1)

Input(C) ==
  LET d == TLCEval(Decls(C, C.p, <<>>))
  IN IF d.st = "ill" \/ d.ds = <<>> THEN Bad(C)
     ELSE LET D == TLCEval(AddSignals(C, d.ds, 1)) IN IF D.st = "ill" THEN D ELSE [D EXCEPT !.p = d.p]

RECURSIVE Structs(_), Enums(_), EnumMembers(_, _, _, _, _), Defines(_), Specs(_)
Odd(n) == IF n \in {"bool", "int", "float"} THEN "un" ELSE "ok"     \* a type named like a basic one
Structs(C) ==
  IF Tok(C, C.p) # "id" THEN C
  ELSE LET n == C.ts[C.p][2]
           d == TLCEval(Decls(C, C.p + 3, <<>>))
       IN IF Tok(C, C.p + 1) # ":" \/ Tok(C, C.p + 2) # "{" \/ d.st = "ill" \/ Tok(C, d.p) # "}" \/ Tok(C, d.p + 1) # ";"
             \/ n \in C.used \/ Repeats(Firsts(d.ds)) THEN Bad(C)
          ELSE Structs([Mark(C, Odd(n)) EXCEPT !.structs = Append(@, <<n, d.ds>>), !.used = @ \cup {n}, !.p = d.p + 2])

(* members of an enumeration from p on; ms those so far, next the next implicit value *)
EnumMembers(C, p, ms, next, st) ==
  IF Tok(C, p) # "id" THEN [ms |-> ms, p |-> Stop(C), st |-> "ill"]
  ELSE LET m == C.ts[p][2]
           given == Tok(C, p + 1) = ":"
           x == IF given THEN TLCEval(Ex(C, p + 2, 0)) ELSE X(<<"c", next>>, I, "ok", p + 1)
           xst == IF ~given THEN "ok" ELSE IF x.lit # "c" \/ x.st = "ill" \/ x.ty = Fl THEN "ill" ELSE IF x.ty = B THEN "un" ELSE "ok"
           ns == Append(ms, <<m, x.e[2]>>)
           s2 == W2(st, xst)
       IN IF xst = "ill" THEN [ms |-> ms, p |-> Stop(C), st |-> "ill"]
          ELSE IF Tok(C, x.p) = "," THEN EnumMembers(C, x.p + 1, ns, IF given THEN next ELSE next + 1, s2)
          ELSE [ms |-> ns, p |-> x.p, st |-> s2]
Enums(C) ==
  IF Tok(C, C.p) # "id" THEN C
  ELSE LET n == C.ts[C.p][2]
           d == TLCEval(EnumMembers(C, C.p + 3, <<>>, 0, "ok"))
           ns == {d.ms[k][1] : k \in 1..Len(d.ms)}
       IN IF Tok(C, C.p + 1) # ":" \/ Tok(C, C.p + 2) # "{" \/ d.st = "ill" \/ Tok(C, d.p) # "}" \/ Tok(C, d.p + 1) # ";"
             \/ n \in C.used \/ n \in ns \/ Repeats(Firsts(d.ms)) \/ ns \cap (C.used \ C.members) # {} THEN Bad(C)
          ELSE Enums([Mark(C, W2(d.st, Odd(n))) EXCEPT !.enums = Append(@, <<n, d.ms>>), !.used = @ \cup {n} \cup ns, !.members = @ \cup ns, !.p = d.p + 2])

Big(x) == W2(x.st, IF x.mx >= Cap THEN "nm" ELSE "ok")
Defines(C) ==
  IF Tok(C, C.p) # "id" THEN C
  ELSE LET n == C.ts[C.p][2]
           x == TLCEval(Ex(C, C.p + 2, 0))
           st == Big(x)
       IN IF Tok(C, C.p + 1) # ":=" \/ x.st = "ill" \/ Tok(C, x.p) # ";" \/ n \in C.used THEN Bad(C)
          ELSE Defines([Mark(C, IF x.ty[1] = "m" THEN W2(st, "un") ELSE st)
                        EXCEPT !.defs = Append(@, <<n, [x EXCEPT !.ty = IF @[1] = "m" THEN Q ELSE @, !.st = IF x.ty[1] = "m" \/ @ = "un" THEN "un" ELSE "ok"]>>),
                               !.items = Append(@, <<n, x.e, 0>>), !.used = @ \cup {n}, !.p = x.p + 1])

(* one formula: [C after it]; kw tells the tense of the section *)
Fits(C, x) == x.ty = B \/ Vague(x.ty)
TenseOf(C, x) == IF C.past = 1 THEN "F" \notin x.tn ELSE "P" \notin x.tn
Specs(C) ==
  LET more == Tok(C, C.p) \notin {"STRUCT", "ENUM", "INPUT", "DEFINE", "FTSPEC", "PTSPEC", "end"}
      labelled == Tok(C, C.p) = "id" /\ Tok(C, C.p + 1) = ":"
      lab == IF labelled THEN C.ts[C.p][2] ELSE ""
      x == TLCEval(Ex(C, IF labelled THEN C.p + 2 ELSE C.p, 0))
      contract == labelled /\ Tok(C, x.p) = "=>"
      y == IF contract THEN TLCEval(Ex(C, x.p + 1, 0)) ELSE x
      used == IF labelled THEN C.used \cup {lab} ELSE C.used
      st == W3(Big(x), Big(y), IF Vague(x.ty) \/ Vague(y.ty) THEN "un" ELSE "ok")
      wrong == \/ labelled /\ lab \in C.used
               \/ x.st = "ill" \/ y.st = "ill" \/ ~Fits(C, x) \/ ~Fits(C, y) \/ ~TenseOf(C, x) \/ ~TenseOf(C, y)
               \/ Tok(C, y.p) # ";"
  IN IF ~more THEN C
     ELSE IF wrong THEN Bad(C)
     ELSE Specs([Mark(C, st) EXCEPT
                   !.defs = IF contract \/ ~labelled THEN @ ELSE Append(@, <<lab, [x EXCEPT !.z = FALSE, !.st = IF st = "un" THEN "un" ELSE "ok"]>>),
                   !.items = @ \o (IF contract
                                   THEN <<<<"", x.e, 1>>, <<"", <<"tl", ">", 0, 0, <<x.e, y.e>>>>, 1>>, <<"", <<"tl", "&", 0, 0, <<x.e, y.e>>>>, 1>>>>
                                   ELSE <<<<lab, x.e, 1>>>>),
                   !.used = used, !.p = y.p + 1])

RECURSIVE Sections(_)
Sections(C) ==
  LET kw == Tok(C, C.p)
      D  == [C EXCEPT !.p = @ + 1]
      \* at least one entry
      Some(E) == IF E.st = "ill" \/ E.p > C.p + 1 THEN E ELSE Bad(C)
  IN CASE kw = "STRUCT" -> Sections(TLCEval(Some(Structs(D))))
       [] kw = "ENUM"   -> Sections(TLCEval(Some(Enums(D))))
       [] kw = "INPUT"  -> Sections(TLCEval(Some(Input(D))))
       [] kw = "DEFINE" -> Sections(TLCEval(Some(Defines(D))))
       [] kw \in {"FTSPEC", "PTSPEC"} -> Sections(TLCEval(Some(Specs([D EXCEPT !.past = IF kw = "PTSPEC" THEN 1 ELSE 0]))))
       [] OTHER -> IF C.p = Len(C.ts) + 1 \/ C.st = "ill" THEN C ELSE Bad(C)

File(r) ==
  LET C == [ts |-> r.toks, r |-> [base |-> r.base, mission |-> r.mission, inputs |-> r.inputs, n |-> r.n], p |-> 1, st |-> "ok", past |-> 0,
            sigs |-> <<>>, defs |-> <<>>, structs |-> <<>>, enums |-> <<>>, members |-> {}, used |-> {}, bound |-> <<>>, items |-> <<>>]
      E == TLCEval(Sections(C))
  IN [E EXCEPT !.st = IF @ # "ill" /\ ~\E k \in 1..Len(E.items) : E.items[k][3] = 1 THEN W2(@, "un") ELSE @]

JudgeFile(r) ==
  LET f == TLCEval(File(r))
      st == f.st
  IN IF r.end \notin {"ok", "ill", "constant", "died"} THEN <<<<"failed", r.end, st>>>>
     ELSE IF st = "ill" THEN IF r.end = "ill" THEN <<>> ELSE <<<<"accepted", "not a well-formed file">>>>
     ELSE IF st = "un" THEN <<>>
     ELSE IF r.end = "ill" THEN IF r.loose = 1 THEN <<>> ELSE <<<<"rejected", "a well-formed file">>>>
     ELSE IF st = "nm" THEN <<>>
     ELSE JudgeWith(r, TLCEval(Model([items |-> f.items, structs |-> TLCEval([k \in 1..Len(f.structs) |-> <<f.structs[k][1], Firsts(f.structs[k][2])>>]),
                                      inputs |-> r.inputs, n |-> r.n])))

NextFiles == /\ rec <= Len(Records)
             /\ LET b == JudgeFile(Records[rec])
                IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
             /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
             /\ rec' = rec + 1
SpecFiles == Init /\ [][NextFiles]_rec
===============================================================================
