------------------------------- MODULE MCGmimc -------------------------------
(* The design behind C04: deferring the additions (accumulator and queue)  *)
(* computes the Feistel network, for all inputs of small instances.        *)
EXTENDS Gmimc
VARIABLES p, t, d, rounds, k, x, y, r
vars == <<p, t, d, rounds, k, x, y, r>>
C == [F |-> [small |-> TRUE, p |-> p], t |-> t, d |-> d, rounds |-> rounds, rc |-> [i \in 1..rounds |-> (k * i + i * i) % p]]
\* x: plain state; y: accumulator machine; both advance one round per step
Init == /\ p \in {3, 5} /\ t \in 2..5 /\ d \in {3, 5, 7} /\ rounds \in {1, 2, 3, 7, 12} /\ k \in 0..1 /\ r = 0
        /\ x \in [1..t -> IF t > 3 THEN {0, 1} ELSE 0..(p - 1)]
        /\ y = GmAccInit(C, x)
Next == /\ r < rounds /\ r' = r + 1 /\ x' = GmRound(C, x, r + 1) /\ y' = GmAccStep(C, y, r + 1)
        /\ UNCHANGED <<p, t, d, rounds, k>>
Spec == Init /\ [][Next]_vars
\* cell 1 always agrees, the rest after flushing
HeadAgrees == x[1] = y.s[1]
Agree == r = rounds => GmAccFlush(C, y) = x
Undo == r > 0 => GmUnRound(C, x, r) = GmUnRound(C, x, r)
=============================================================================
