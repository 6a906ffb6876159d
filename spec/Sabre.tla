--------------------------------- MODULE Sabre ---------------------------------
(***************************************************************************)
(* The generated monitor: a stand-alone C program that evaluates one formula *)
(* on words of w consecutive steps at a time.                               *)
(*                                                                          *)
(* The program reads w steps (a word), and then prints the word of the       *)
(* formula's values that lies D words back (nothing while there is none),    *)
(* where D is the number of words the formula has to wait for: the first     *)
(* step of a word is its most significant bit.  Steps that do not fill a     *)
(* word are not read.                                                       *)
(*                                                                          *)
(* A record is [id, nodes, root, w, steps, cols, words, ok, ...]: the formula *)
(* as a node table (MLTL.tla), the columns of the trace, the words printed    *)
(* (each a sequence of bits), whether the program ended well; and what was    *)
(* asked for: a formula that exists or not, signals named by their columns or *)
(* not, a number of signals (-1: not given), rewritten by the optimiser or    *)
(* not (an equivalent formula may split an interval, and so wait for one more *)
(* word, or be known earlier), and what was got: a program      *)
(* ("code"), a refusal with a message ("refused") or something else.          *)
(***************************************************************************)
EXTENDS MLTL, FiniteSets, Json, IOUtils

Records == JsonDeserialize(IOEnv.RECORDS)
VARIABLE rec

CeilDiv(x, w) == (x + w - 1) \div w

(* words to wait for: every temporal operator waits for the words its interval reaches into *)
RECURSIVE WordDelaysUpTo(_, _, _, _)
WordDelaysUpTo(nodes, k, ds, w) ==
  IF k > Len(nodes) THEN ds
  ELSE LET nd == nodes[k]
           op == nd[1]
           c  == IF op \in {"v", "t", "f"} THEN 0
                 ELSE IF nd[3] = 0 THEN ds[nd[2]] ELSE Max2(ds[nd[2]], ds[nd[3]])
       IN WordDelaysUpTo(nodes, k + 1, Append(ds, IF op \in {"F", "G", "U", "R"} THEN c + CeilDiv(nd[5], w) ELSE c), w)

Columns(r) == LET A == {r.nodes[k][2] : k \in {k \in 1..Len(r.nodes) : r.nodes[k][1] = "v"}}
              IN IF A = {} THEN 1 ELSE 1 + CHOOSE x \in A : \A y \in A : y <= x
Uses(r, O) == \E k \in 1..Len(r.nodes) : r.nodes[k][1] \in O

(* a request that cannot be met, and one that need not be *)
Hopeless(r) == \/ ~r.exists
               \/ ~r.named
               \/ Uses(r, {"O", "H", "S", "T"})
               \/ r.nsigs # -1 /\ r.nsigs < Columns(r)
Beyond(r) == r.loose \/ Uses(r, {"R"})

Answer(r) == CASE r.got = "code"    -> IF Hopeless(r) THEN <<<<"accepted", 0>>>> ELSE <<>>
               [] r.got = "refused" -> IF Hopeless(r) \/ Beyond(r) THEN <<>> ELSE <<<<"refused", 0>>>>
               [] OTHER             -> <<<<"failed", 0>>>>

Program(r) ==
  LET w    == r.w
      full == r.steps \div w                              \* words read
      n    == full * w
      D    == WordDelaysUpTo(r.nodes, 1, <<>>, w)[r.root]
      slack == IF r.rewritten THEN Cardinality({k \in 1..Len(r.nodes) : r.nodes[k][1] \in {"F", "G", "U", "R"}}) ELSE 0
      due  == Max2(0, full - D - slack)                   \* words that must have been printed
      cols == TLCEval([k \in 1..Len(r.cols) |-> SubSeq(r.cols[k], 1, n)])
      val  == TLCEval(Values(r.nodes, cols, n))[r.root]
      Bad  == {<<k, j>> \in (1..Len(r.words)) \X (1..w) :
                 (k - 1) * w + j <= n /\ r.words[k][j] # val[(k - 1) * w + j]
                 /\ ~(r.rewritten /\ val[(k - 1) * w + j] = 2)}
      B0 == IF ~r.ok THEN <<<<"died", 0>>>> ELSE <<>>
      B1 == IF Len(r.words) < due \/ Len(r.words) > full THEN <<<<"words", Len(r.words), due, full>>>> ELSE <<>>
      B2 == IF Bad # {} THEN LET x == CHOOSE x \in Bad : \A y \in Bad : (x[1] - 1) * w + x[2] <= (y[1] - 1) * w + y[2]
                                 p == (x[1] - 1) * w + x[2]
                             IN <<<<"value", p - 1, r.words[x[1]][x[2]], val[p]>>>>
            ELSE <<>>
  IN B0 \o B1 \o B2

Judge(r) == LET a == Answer(r) IN IF a # <<>> \/ r.got # "code" THEN a ELSE Program(r)

Init == rec = 1
Next == /\ rec <= Len(Records)
        /\ LET b == Judge(Records[rec])
           IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
        /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
        /\ rec' = rec + 1
Spec == Init /\ [][Next]_rec
===============================================================================
