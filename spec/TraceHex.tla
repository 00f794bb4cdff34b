------------------------------ MODULE TraceHex ------------------------------
(***************************************************************************)
(* C16.  from_hex of a prefixed string: the digits, read as a big-endian   *)
(* number, modulo p; a string with an odd number of digits or a character  *)
(* that is no digit (nib = -1) is rejected.  The digits are consumed one   *)
(* by one: acc' = 16 acc + digit (mod p).                                  *)
(***************************************************************************)
EXTENDS LinAlg, Json, IOUtils
Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
ASSUME TLCSet(7, TLCEval(Ev))
E(i) == TLCGet(7)[i]
VARIABLES e, i, acc
vars == <<e, i, acc>>
X == E(e)
Init == e \in 1..Len(Ev) /\ i = 0 /\ acc = FZero(E(e).F)
Digit == /\ i < Len(X.nib) /\ X.nib[i + 1] >= 0 /\ i' = i + 1
         /\ acc' = FAdd(X.F, FMul(X.F, FNat(X.F, 16), acc), FNat(X.F, X.nib[i + 1]))
         /\ UNCHANGED e
Spec == Init /\ [][Digit]_vars
WellFormedHex == Len(X.nib) % 2 = 0 /\ \A k \in 1..Len(X.nib) : X.nib[k] >= 0
RejectsMalformed == i = 0 /\ ~WellFormedHex => ~X.ok
ParsesWellFormed == i = Len(X.nib) /\ WellFormedHex => X.ok /\ X.out = acc
Accepted == TLCGet("stats").distinct >= Len(Ev)
=============================================================================
