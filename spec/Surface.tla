-------------------------------- MODULE Surface --------------------------------
(***************************************************************************)
(* Meaning of C2PO's surface language: definitions, labels, arrays, slices, *)
(* structures, enumerations, set aggregation.  A denotational semantics     *)
(* with an environment; nothing is expanded or unrolled.                    *)
(*                                                                          *)
(* A value is [k, c, xs, d]:                                                *)
(*   k = "s": c is the column of values over the steps (numbers; truth      *)
(*            values 0, 1, 2 as in MLTL, 2 = not determined by the prefix)  *)
(*   k = "v": an array, xs its elements                                     *)
(*   k = "r": a structure, xs its members in the order of the declaration,  *)
(*            c its type's name                                             *)
(* d is the worst-case propagation delay of a scalar.                       *)
(*                                                                          *)
(* Expressions are trees: <<"in", k>> input column k, <<"ina", ks>> input   *)
(* array, <<"c", v>> constant, <<"tau">>, <<"id", name>>, <<"idx", e, k>>,  *)
(* <<"slice", e, a, b>> (elements a..b inclusive), <<"arr", es>>,           *)
(* <<"str", type, es>>, <<"acc", e, member>>,                               *)
(* <<"agg", kind, num, var, set, body>>, <<"bz", op, ty, es>> and           *)
(* <<"tl", op, l, u, es>>.                                                  *)
(***************************************************************************)
EXTENDS MLTL, Booleanizer

S(c, d)  == [k |-> "s", c |-> TLCEval(c), xs |-> <<>>, d |-> d]
V(xs)    == [k |-> "v", c |-> <<>>, xs |-> xs, d |-> 0]
St(n, xs) == [k |-> "r", c |-> n, xs |-> xs, d |-> 0]

(* innermost binding first: bindings are appended *)
RECURSIVE LookFrom(_, _, _)
LookFrom(env, name, k) == IF env[k][1] = name THEN env[k][2] ELSE LookFrom(env, name, k - 1)
Look(env, name) == LookFrom(env, name, Len(env))

MemberIndex(structs, type, m) ==
  LET s == CHOOSE k \in 1..Len(structs) : structs[k][1] = type
      ms == structs[s][2]
  IN CHOOSE k \in 1..Len(ms) : ms[k] = m

RECURSIVE MaxOf(_, _)
MaxOf(xs, k) == IF k = 0 THEN 0 ELSE Max2(xs[k].d, MaxOf(xs, k - 1))

Bz(op, ty, xs, n) ==
  S(BzColumn(<<op, 1, 2, ty>>, TLCEval([j \in 1..Len(xs) |-> xs[j].c]), <<>>, n), MaxOf(xs, Len(xs)))
Tl(op, l, u, xs, n) ==
  S(NodeValues(<<op, 1, IF Len(xs) = 2 THEN 2 ELSE 0, l, u>>, TLCEval([j \in 1..Len(xs) |-> xs[j].c]), <<>>, n),
    MaxOf(xs, Len(xs)) + (IF op \in {"F", "G", "U", "R"} THEN u ELSE 0))

RECURSIVE Fold(_, _, _, _)
Fold(op, xs, k, n) == IF k = 1 THEN xs[1] ELSE Tl(op, 0, 0, TLCEval(<<Fold(op, xs, k - 1, n), xs[k]>>), n)

RECURSIVE CountTo(_, _, _)
CountTo(xs, k, i) == IF k = 0 THEN 0 ELSE CountTo(xs, k - 1, i) + xs[k].c[i]

RECURSIVE Eval(_, _, _)
Eval(e, env, R) ==
  LET op == e[1]
      n  == R.n
      Sub(x) == Eval(x, env, R)
  IN CASE op = "in"    -> S(R.inputs[e[2] + 1], 0)
       [] op = "ina"   -> V(TLCEval([j \in 1..Len(e[2]) |-> S(R.inputs[e[2][j] + 1], 0)]))
       [] op = "c"     -> S([i \in 1..n |-> e[2]], 0)
       [] op = "tau"   -> S([i \in 1..n |-> i - 1], 0)
       [] op = "id"    -> Look(env, e[2])
       [] op = "idx"   -> Sub(e[2]).xs[e[3] + 1]
       [] op = "slice" -> V(SubSeq(Sub(e[2]).xs, e[3] + 1, e[4] + 1))
       [] op = "arr"   -> V(TLCEval([j \in 1..Len(e[2]) |-> Sub(e[2][j])]))
       [] op = "str"   -> St(e[2], TLCEval([j \in 1..Len(e[3]) |-> Sub(e[3][j])]))
       [] op = "acc"   -> LET s == Sub(e[2]) IN s.xs[MemberIndex(R.structs, s.c, e[3])]
       [] op = "agg"   ->
            LET set  == TLCEval(Sub(e[5]).xs)
                body == TLCEval([j \in 1..Len(set) |-> Eval(e[6], TLCEval(Append(env, <<e[4], set[j]>>)), R)])
                num  == TLCEval(Sub(e[3]))
                Cnt(i) == CountTo(body, Len(body), i)
                dd   == MaxOf(body, Len(body))
            IN (CASE e[2] = "each"    -> Fold("&", body, Len(body), n)
                 [] e[2] = "some"    -> Fold("|", body, Len(body), n)
                 [] e[2] = "exactly" -> S([i \in 1..n |-> Bool01(Cnt(i) = num.c[i])], dd)
                 [] e[2] = "atleast" -> S([i \in 1..n |-> Bool01(Cnt(i) >= num.c[i])], dd)
                 [] e[2] = "atmost"  -> S([i \in 1..n |-> Bool01(Cnt(i) <= num.c[i])], dd))
       [] op = "bz"    ->
            LET xs == TLCEval([j \in 1..Len(e[4]) |-> Sub(e[4][j])])
            IN IF xs[1].k = "v"          \* comparison of arrays: index by index
               THEN LET ps == TLCEval([j \in 1..Len(xs[1].xs) |-> Bz(e[2], e[3], <<xs[1].xs[j], xs[2].xs[j]>>, n)])
                    IN Fold("&", ps, Len(ps), n)
               ELSE Bz(e[2], e[3], xs, n)
       [] op = "tl"    -> Tl(e[2], e[3], e[4], TLCEval([j \in 1..Len(e[5]) |-> Sub(e[5][j])]), n)
       [] OTHER -> Assert(FALSE, <<"unknown", e>>)

RECURSIVE Bind(_, _, _, _)
Bind(ds, k, env, R) ==
  IF k > Len(ds) THEN env
  ELSE Bind(ds, k + 1, TLCEval(Append(env, <<ds[k][1], Eval(ds[k][2], env, R)>>)), R)

(* R.items: definitions and specifications in source order, <<name, tree, isSpec>> *)
SurfaceValues(R) ==
  LET env == TLCEval(Bind(R.items, 1, <<>>, R))
      ix  == SelectSeq([j \in 1..Len(R.items) |-> j], LAMBDA j : R.items[j][3] = 1)
  IN TLCEval([f \in 1..Len(ix) |-> env[ix[f]][2]])
===============================================================================
