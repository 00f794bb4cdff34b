------------------------------ MODULE TracePerm ------------------------------
(***************************************************************************)
(* Trace validation of recorded permutation calls.  An event is one call   *)
(* (k = "io": input, whether it returned, output) or a block of a complete *)
(* input/output table (k = "tab": outputs of consecutive inputs).  For     *)
(* every recorded call the permutation machine of Perm is run round by     *)
(* round from the recorded input; when it halts, the state must be the     *)
(* recorded output.                                                        *)
(***************************************************************************)
EXTENDS PermCtx

VARIABLES e, j, r, s
vars == <<e, j, r, s>>

Rows(i) == CASE Ev[i].k = "tab" -> Len(Ev[i].outs) [] Ev[i].k = "io" -> 1 [] OTHER -> 0
K == InstOf(Ev[e].c)
InputOf == IF Ev[e].k = "tab" THEN NthInput(K.F.p, K.t, Ev[e].from + j) ELSE Ev[e].in
OutputOf == IF Ev[e].k = "tab" THEN Ev[e].outs[j] ELSE Ev[e].out
Returned == Ev[e].k = "tab" \/ Ev[e].ok

Init == /\ e \in 1..Len(Ev)
        /\ j \in 1..Rows(e)
        /\ r = -1 /\ s = <<>>
Begin == r = -1 /\ r' = 0 /\ s' = Start(K, InputOf) /\ UNCHANGED <<e, j>>
Round == r >= 0 /\ r < Rounds(K) /\ r' = r + 1 /\ s' = Step(K, s, r + 1) /\ UNCHANGED <<e, j>>
Next == Begin \/ Round
Spec == Init /\ [][Next]_vars

Halted == r = Rounds(K)

CallReturns    == Returned
ParamsSampled  == r = -1 => WellFormed(K)
OutputConforms == Halted => s = OutputOf

\* every recorded call was run to the end of its machine
StatesOf(i) == IF Rows(i) = 0 THEN 0 ELSE Rows(i) * (Rounds(InstOf(Ev[i].c)) + 2)
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA acc, i : acc + StatesOf(i), 0, Iota(Len(Ev)))
=============================================================================
