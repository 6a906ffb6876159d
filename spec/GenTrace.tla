------------------------------- MODULE GenTrace --------------------------------
(***************************************************************************)
(* A trace that is generated for a program suits the program: it has the     *)
(* requested number of lines; a header that names, for each variable of the  *)
(* program, the column of the signal mapping; and values of the variables'   *)
(* types within the requested range.  Running the program's binary over it   *)
(* then gives the verdicts of that trace (FrontConf).                        *)
(*                                                                          *)
(* gen: [n, lo, hi, scale, names, types, must, cells]; must: the variables   *)
(* that the program mentions; types[v] and the program's vars[v] belong       *)
(* together; floats are multiples of 1/scale.                                 *)
(***************************************************************************)
EXTENDS FrontConf

Shape(r) ==
  LET g == r.gen
      C(v) == ColumnOf(r.vars[v], r.map) + 1
      Known == {v \in {g.must[k] : k \in 1..Len(g.must)} : \E k \in 1..Len(r.map) : r.map[k][1] = r.vars[v][1] /\ r.map[k][2] <= r.vars[v][2] /\ r.vars[v][2] <= r.map[k][3]}
      there == {v \in Known : C(v) <= Len(g.names)}
      named == {v \in there : \E u \in there : C(u) = C(v) /\ g.names[C(v)] = r.vars[u]}
      Ok(v, x) == CASE g.types[v] = "b" -> x \in {0, 1}
                    [] g.types[v] = "i" -> g.lo <= x /\ x <= g.hi
                    [] g.types[v] = "f" -> g.lo * g.scale <= x /\ x <= g.hi * g.scale
      alone(v) == \A u \in Known \ {v} : C(u) # C(v)
      rows == 1..Len(g.cells)
  IN (IF r.form # "ok" THEN <<<<"form", r.form>>>> ELSE <<>>)
     \o (IF Len(g.cells) # g.n THEN <<<<"length", Len(g.cells), g.n>>>> ELSE <<>>)
     \o (IF Known \ named # {} THEN <<<<"column", r.vars[CHOOSE v \in Known \ named : TRUE]>>>> ELSE <<>>)
     \o (IF \E k \in rows : Len(g.cells[k]) # Len(g.names) THEN <<<<"row", 0>>>> ELSE <<>>)
     \o (IF \E k \in rows : \E v \in named : alone(v) /\ ~(C(v) <= Len(g.cells[k]) /\ Ok(v, g.cells[k][C(v)]))
         THEN <<<<"range", 0>>>> ELSE <<>>)
     \o (IF ~r.again THEN <<<<"seed", 0>>>> ELSE <<>>)
     \o (IF ~r.printed THEN <<<<"print", 0>>>> ELSE <<>>)

(* (variables that the program does not mention have no column; their value does not matter) *)
Pad(r, row) ==
  LET RECURSIVE Top(_)
      Top(k) == IF k = 0 THEN Len(row) ELSE Max2(r.map[k][4] + r.map[k][3] - r.map[k][2] + 1, Top(k - 1))
  IN [k \in 1..Top(Len(r.map)) |-> IF k <= Len(row) THEN row[k] ELSE 0]

JudgeGen(r) ==
  LET s == Shape(r)
  IN IF s # <<>> THEN s
     ELSE IF ~r.verdicts THEN <<>>
     ELSE JudgeFront([lines |-> [k \in 1..Len(r.gen.cells) |-> <<-1, Pad(r, r.gen.cells[k])>>]] @@ r)

NextGen ==
  /\ rec <= Len(Records)
  /\ LET b == JudgeGen(Records[rec])
     IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
  /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
  /\ rec' = rec + 1
SpecGen == Init /\ [][NextGen]_rec
===============================================================================
