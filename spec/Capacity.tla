------------------------------- MODULE Capacity -------------------------------
(***************************************************************************)
(* The memory a monitor needs for a compiled program: every index that       *)
(* loading and running it touches lies within the arenas whose sizes the     *)
(* bounds file gives.                                                       *)
(*                                                                          *)
(* A record is [id, b, bz, tl, scq, temp, cols, direct, names, contracts]:    *)
(*   b      the bounds (a record)                                           *)
(*   bz     booleanizer instructions <<op, p1, p2, memory>>                  *)
(*   tl     temporal instructions <<op, t1, v1, t2, v2, queue>> (from 0)     *)
(*   scq    <<queue, length, temporal>>                                     *)
(*   temp   queues with a temporal block                                    *)
(*   cols   columns of the input that are loaded                            *)
(*   names, contracts   lengths of the stored names                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Records == JsonDeserialize(IOEnv.RECORDS)
VARIABLE rec

Sum(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Loads  == {1, 2}            \* ILOAD, FLOAD
Consts == {3, 4}
StoreOp == 5

(* demand of each arena: 1 + the largest index used, or the number of entries *)
Top(S) == IF S = {} THEN 0 ELSE 1 + CHOOSE x \in S : \A y \in S : y <= x

Demand(r) ==
  LET bzs == Range(r.bz)
      Mem == {i[4] : i \in {i \in bzs : i[1] # StoreOp}}
      Sig == {i[2] : i \in {i \in bzs : i[1] \in Loads}} \union (IF r.bz # <<>> THEN {c - 1 : c \in {r.cols} \ {0}} ELSE {})
      AtomicRefs == {i[3] : i \in {i \in Range(r.tl) : i[2] = 0}} \union {i[5] : i \in {i \in Range(r.tl) : i[4] = 0}}
      Atoms == AtomicRefs \union {i[3] : i \in {i \in bzs : i[1] = StoreOp}}
               \union (IF r.bz = <<>> THEN {c - 1 : c \in {r.cols} \ {0}} ELSE {})
      Queues == {i[6] : i \in Range(r.tl)} \union {q[1] : q \in Range(r.scq)}
  IN [ R2U2_MAX_SIGNALS            |-> Top(Sig),
       R2U2_MAX_ATOMICS            |-> Top(Atoms),
       R2U2_MAX_BZ_INSTRUCTIONS    |-> Top(Mem) ,
       R2U2_MAX_TL_INSTRUCTIONS    |-> IF Top(Queues) > Len(r.tl) THEN Top(Queues) ELSE Len(r.tl),
       R2U2_MAX_TEMPORAL_OPERATORS |-> Len(r.temp),
       R2U2_MAX_QUEUE_SLOTS        |-> Sum([k \in 1..Len(r.scq) |-> r.scq[k][2]]),
       R2U2_AUX_MAX_FORMULAS       |-> Len(r.names),
       R2U2_AUX_MAX_CONTRACTS      |-> Len(r.contracts),
       R2U2_MAX_AUX_BYTES          |-> Sum(r.names) + Len(r.names) + Sum(r.contracts) + Len(r.contracts) ]

(* more instructions than bookkeeping space for booleanizer programs *)
Judge(r) ==
  LET d == Demand(r)
      Short == {k \in DOMAIN d : k \notin DOMAIN r.b \/ r.b[k] < d[k]}
      Bz == IF Cardinality({k \in DOMAIN r.bz : r.bz[k][1] \notin Consts}) > r.b.R2U2_MAX_BZ_INSTRUCTIONS
            THEN <<<<"small", "R2U2_MAX_BZ_INSTRUCTIONS">>>> ELSE <<>>
  IN (IF Short = {} THEN <<>>
      ELSE LET k == CHOOSE k \in Short : TRUE IN <<<<"small", k, IF k \in DOMAIN r.b THEN r.b[k] ELSE -1, d[k]>>>>) \o Bz

Init == rec = 1
Next == /\ rec <= Len(Records)
        /\ LET b == Judge(Records[rec])
           IN b # <<>> => PrintT(<<"BAD", ToJson([id |-> Records[rec].id, why |-> b])>>)
        /\ IF rec = Len(Records) THEN PrintT(<<"DONE", rec>>) ELSE TRUE
        /\ rec' = rec + 1
Spec == Init /\ [][Next]_rec
===============================================================================
