------------------------------ MODULE TraceBind ------------------------------
(***************************************************************************)
(* C19.  All leaf sequences up to a length over a small alphabet, with the *)
(* number of their root under a collision-free symbolic hash: two roots    *)
(* are equal exactly when the padded sequences are.  rows = <<root, leaves>>. *)
(***************************************************************************)
EXTENDS Merkle, Json, IOUtils, TLC

Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
ASSUME TLCSet(7, TLCEval([i \in 1..Len(Ev) |-> [j \in 1..Len(Ev[i].rows) |->
                  [root |-> Ev[i].rows[j][1], pad |-> TLCEval(Pad(Ev[i].rows[j][2]))]]]))
RowsOf(i) == TLCGet(7)[i]
VARIABLES e, i
vars == <<e, i>>
Init == e \in 1..Len(Ev) /\ i = 1
Next == i < Len(Ev[e].rows) /\ i' = i + 1 /\ UNCHANGED e
Spec == Init /\ [][Next]_vars

CallReturns == RowsOf(e)[i].root >= 0
Binding == LET R == RowsOf(e) IN \A j \in 1..(i - 1) : (R[j].root = R[i].root) = (R[j].pad = R[i].pad)
Accepted == TLCGet("stats").distinct > 0
=============================================================================
