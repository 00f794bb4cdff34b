------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* C13, histories of hash objects.  A permutation call is a function of    *)
(* its parameters and its input: earlier calls, failed calls (a vector of  *)
(* the wrong length), clones, other objects over the same parameters and   *)
(* the choice of entry point do not matter.  TLC enumerates short          *)
(* histories and samples long ones; each is written as a line of JSON.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANT MaxLen
Objs == {1, 2}
Inputs == -1..3          \* -1: a vector of the wrong length
VARIABLE hist
Op(n, o, a, p) == [op |-> n, o |-> o, a |-> a, plain |-> p]
Init == hist = <<>>
Call  == \E o \in Objs, a \in Inputs, p \in BOOLEAN : hist' = Append(hist, Op("call", o, a, p))
Clone == \E o, q \in Objs : o # q /\ hist' = Append(hist, Op("clone", o, q, FALSE))
New   == \E o \in Objs : hist' = Append(hist, Op("new", o, 0, FALSE))
Next == Len(hist) < MaxLen /\ (Call \/ Clone \/ New)
Spec == Init /\ [][Next]_hist
Write == Len(hist) = MaxLen /\ hist[MaxLen].op = "call" => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN_OUT \o "/hist.ndjson")
=============================================================================
