----------------------------- MODULE MerkleHist -----------------------------
(***************************************************************************)
(* C10, the histories of tree objects.  A tree object has no state a user  *)
(* can observe: whatever happened to it before (other sets, a panic of the *)
(* user's hash half way, a rejected empty set, being cloned), accumulating *)
(* a set returns the root of that set.  This module generates histories:   *)
(* TLC enumerates all of them up to MaxLen operations (or samples longer   *)
(* ones with -simulate) and writes each complete one as a line of JSON.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

CONSTANT MaxLen
Sets == <<<<1>>, <<1, 2, 3>>, <<3, 2, 1, 1, 2>>, <<>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>, <<1, 1>>>>
Objs == {1, 2}
VARIABLES live, hist
vars == <<live, hist>>
Op(n, o, a) == [op |-> n, o |-> o, a |-> a]

Init == live = {1} /\ hist = <<Op("new", 1, 0)>>
New   == \E o \in Objs, a \in {0, 1} : live' = live \cup {o} /\ hist' = Append(hist, Op("new", o, a))
Clone == \E o \in Objs, q \in live : o # q /\ live' = live \cup {o} /\ hist' = Append(hist, Op("clone", o, q))
Acc   == \E o \in live, k \in 1..Len(Sets) : hist' = Append(hist, Op("acc", o, k)) /\ UNCHANGED live
Fault == \E o \in live, k \in {2, 5} : hist' = Append(hist, Op("fault", o, k)) /\ UNCHANGED live
Next == Len(hist) <= MaxLen /\ (New \/ Clone \/ Acc \/ Fault)
Spec == Init /\ [][Next]_vars

Out == IOEnv.GEN_OUT
\* a complete history is written when it ends with something observable
Write == Len(hist) = MaxLen + 1 /\ hist[Len(hist)].op = "acc" => CSVWrite("%1$s", <<ToJson(hist)>>, Out \o "/hist.ndjson")
ASSUME "GEN_OUT" \in DOMAIN IOEnv => ndJsonSerialize(Out \o "/sets.ndjson", Sets)
=============================================================================
