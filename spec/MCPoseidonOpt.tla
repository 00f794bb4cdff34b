---------------------------- MODULE MCPoseidonOpt ----------------------------
(***************************************************************************)
(* The design behind C02 and C03: for every 2x2 matrix over F_5 that the   *)
(* factorisation accepts (and a sample of 3x3 ones over F_7), all small    *)
(* round numbers and all inputs, the sparse-matrix form of Poseidon is the *)
(* textbook function, and moving the constants of Poseidon2 backwards      *)
(* through an invertible internal matrix changes nothing.                  *)
(***************************************************************************)
EXTENDS Poseidon, Poseidon2
Fp(p) == [small |-> TRUE, p |-> p]
Rc(p, t, n, k) == [r \in 1..n |-> [i \in 1..t |-> (k * (3 * r + i) + r * r + i) % p]]
M3 == {<<<<1, 2, 3>>, <<4, 0, 1>>, <<2, 2, 5>>>>, <<<<3, 1, 1>>, <<1, 3, 1>>, <<1, 1, 3>>>>, <<<<6, 5, 4>>, <<3, 2, 1>>, <<0, 1, 1>>>>}
VARIABLES F, t, rf, rp, d, mds, k, go
vars == <<F, t, rf, rp, d, mds, k, go>>
Init == /\ go = FALSE /\ rf \in {0, 2} /\ rp \in 1..4 /\ k \in 0..2
        /\ \/ F = Fp(5) /\ t = 2 /\ d = 3 /\ mds \in [1..2 -> [1..2 -> 0..4]]
           \/ F = Fp(7) /\ t = 3 /\ d = 5 /\ mds \in M3
Spec == Init /\ [][~go /\ go' = TRUE /\ UNCHANGED <<F, t, rf, rp, d, mds, k>>]_vars
C == [F |-> F, t |-> t, d |-> d, rf |-> rf, rp |-> rp, mds |-> mds, rc |-> Rc(F.p, t, rf + rp, k)]
Inputs == [1..t -> {0, 1, 2, F.p - 1}]
SparseForm == go /\ Invertible(F, mds) =>
  LET sp == PoSparse(C) IN PoSparseOk(sp) =>
    LET oc == PoOptConst(C) IN \A in \in Inputs : PoPermOpt(C, sp, oc, in) = PoPerm(C, in)
\* Poseidon2 appends a zero vector to the same rewriting
Rewriting == go /\ Invertible(F, mds) =>
  LET oc == PoOptConst(C) \o <<[i \in 1..t |-> 0]>>
  IN \A in \in Inputs : RewrittenPartial(C, mds, oc, in) = PlainPartial(C, mds, in)
=============================================================================
