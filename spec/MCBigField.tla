----------------------------- MODULE MCBigField -----------------------------
(***************************************************************************)
(* The Java accelerator of BigField against the TLA+ definitions, on edge  *)
(* and spread-out values of the six moduli.                                *)
(***************************************************************************)
EXTENDS Field, Instances, SequencesExt, TLC

CONSTANT Deep
Small(p, n) == [i \in 1..Len(p) |-> IF i = 1 THEN n ELSE 0]
RECURSIVE Mix(_, _, _)
\* k-th element of a fixed pseudo-random sequence, limb by limb, reduced below p
Mix(p, k, i) == IF i > Len(p) THEN <<>> ELSE <<(k * 7919 * i + 104729 * k + i * i * 15485) % (IF i = Len(p) THEN p[i] ELSE Base)>> \o Mix(p, k, i + 1)
Values(f) == LET p == Modulus(f)
             IN {Small(p, 0), Small(p, 1), BSubPure(Small(p, 0), Small(p, 1), p)} \cup {Mix(p, k, 1) : k \in 1..(IF Deep THEN 6 ELSE 2)}
VARIABLES f, a, b, go
vars == <<f, a, b, go>>
Init == f \in FieldNames /\ a \in Values(f) /\ b \in Values(f) /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<f, a, b>>
Spec == Init /\ [][Next]_vars
P == Modulus(f)
AddSub == go => BAdd(a, b, P) = BAddPure(a, b, P) /\ BSub(a, b, P) = BSubPure(a, b, P) /\ BLess(a, b) = BLessPure(a, b)
Mul    == go => BMul(a, b, P) = BMulPure(a, b, P)
Pow    == go /\ b = Small(P, 1) /\ (Deep \/ a = Mix(P, 1, 1)) => \A n \in (IF Deep THEN {0, 1, 2, 7, 11} ELSE {0, 5}) : BPow(a, <<n>>, P) = BPowPure(a, <<n>>, P)
Axpy   == go /\ (Deep \/ b = Mix(P, 1, 1)) => BAxpy(a, <<a, b>>, <<b, BSub(a, b, P)>>, P) = BAxpyPure(a, <<a, b>>, <<b, BSub(a, b, P)>>, P)
\* the accelerated inverse is multiplied back with the TLA+ definition; the inverse is unique
Inv    == go /\ b = Small(P, 1) =>
             IF a = Small(P, 0) THEN BInv(a, P) = a ELSE BMulPure(a, BInv(a, P), P) = Small(P, 1)
Red    == go /\ b = Small(P, 1) => LET bits == [i \in 1..70 |-> (a[1] * i + i * i) % 2] IN BRedBits(bits, P) = BRedBitsPure(bits, P)
=============================================================================
