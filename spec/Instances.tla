------------------------------ MODULE Instances ------------------------------
(***************************************************************************)
(* Everything the crate publishes: the six prime fields and the 85         *)
(* parameter sets, by name.  Constants of Poseidon and Poseidon2 sets are  *)
(* not listed here: they are derived by Grain.tla.  GMiMC and Neptune draw *)
(* theirs at random when the set is first used.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* moduli, base 2^24, least significant limb first
ModBLS ==
  <<1, 16776960, 16711679, 16776795, 12428290, 14157139, 526753, 3357144, 10321224, 10965801, 29677>>
ModBN ==
  <<1, 16094192, 9520097, 7977328, 3401800, 5791016, 11960705, 12079173, 3252265, 5141217, 12388>>
ModPALLAS ==
  <<1, 3206400, 1808685, 609529, 4626684, 34, 0, 0, 0, 0, 16384>>
ModVESTA ==
  <<1, 15409408, 14519366, 627880, 4626684, 34, 0, 0, 0, 0, 16384>>
ModGOLDILOCKS ==
  <<1, 16776960, 65535>>
ModBABYBEAR ==
  <<1, 120>>

FieldNames == {"BLS", "BN", "PALLAS", "VESTA", "GOLDILOCKS", "BABYBEAR"}
Modulus(f) == CASE f = "BLS" -> ModBLS [] f = "BN" -> ModBN [] f = "PALLAS" -> ModPALLAS
                [] f = "VESTA" -> ModVESTA [] f = "GOLDILOCKS" -> ModGOLDILOCKS [] f = "BABYBEAR" -> ModBABYBEAR
PField(f)  == [small |-> FALSE, p |-> Modulus(f)]
\* bit length of the modulus
Bits(f) == CASE f = "BN" -> 254 [] f = "GOLDILOCKS" -> 64 [] f = "BABYBEAR" -> 31 [] OTHER -> 255
\* S-box degree: the smallest odd prime coprime to p-1
Degree(f) == IF f \in {"GOLDILOCKS", "BABYBEAR"} THEN 7 ELSE 5

(* ---- Poseidon and Poseidon2: R_F = 8, and the partial rounds per width --- *)
PoseidonShapes == {
  [f |-> "BLS", t |-> 2, rp |-> 56], [f |-> "BLS", t |-> 3, rp |-> 56], [f |-> "BLS", t |-> 4, rp |-> 56],
  [f |-> "BLS", t |-> 8, rp |-> 57], [f |-> "BN", t |-> 3, rp |-> 56],
  [f |-> "PALLAS", t |-> 3, rp |-> 56], [f |-> "PALLAS", t |-> 4, rp |-> 56], [f |-> "PALLAS", t |-> 8, rp |-> 57],
  [f |-> "VESTA", t |-> 3, rp |-> 56],
  [f |-> "GOLDILOCKS", t |-> 8, rp |-> 22], [f |-> "GOLDILOCKS", t |-> 12, rp |-> 22],
  [f |-> "GOLDILOCKS", t |-> 16, rp |-> 22], [f |-> "GOLDILOCKS", t |-> 20, rp |-> 22],
  [f |-> "BABYBEAR", t |-> 16, rp |-> 13], [f |-> "BABYBEAR", t |-> 24, rp |-> 21]}

\* candidate rejected by the internal-matrix security criterion before the published one
DiagSkip(f, t) ==
  CASE f = "BLS" /\ t = 8 -> 8 [] f = "PALLAS" /\ t = 8 -> 6
    [] f = "GOLDILOCKS" /\ t = 8 -> 3 [] f = "GOLDILOCKS" /\ t = 12 -> 8
    [] f = "GOLDILOCKS" /\ t = 16 -> 46 [] f = "GOLDILOCKS" /\ t = 20 -> 6
    [] f = "BABYBEAR" /\ t = 16 -> 18 [] f = "BABYBEAR" /\ t = 24 -> 4 [] OTHER -> 0

(* ---- GMiMC: rounds = max(2 + 2(t + t^2), c + 2t), c = ceil(2 log_d p) ----- *)
GmimcWidths(f) == CASE f = "BLS" -> {2, 3, 4, 5, 8, 9, 12, 16, 20, 24}
                    [] f \in {"BN", "PALLAS", "VESTA"} -> {3, 4, 5, 8, 9, 12, 16, 20, 24}
                    [] f = "GOLDILOCKS" -> {8, 12, 16, 20} [] OTHER -> {16, 24}
\* ceil(2 log_d p); 220 is used for the 254-bit modulus as well (219 would do)
GmimcBase(f) == CASE f = "GOLDILOCKS" -> 46 [] f = "BABYBEAR" -> 23 [] OTHER -> 220
MaxOf(a, b) == IF a > b THEN a ELSE b
GmimcRounds(f, t) == MaxOf(2 + 2 * (t + t * t), GmimcBase(f) + 2 * t)

(* ---- Neptune: R_F = 6, R_P = ceil(1.125 * X) ------------------------------ *)
(* X = ceil(log_d(2) * (min(128, log2 p) - 6) + 3 + t + log_d(t)).             *)
NeptuneWidths(f) == CASE f \in {"BN", "VESTA"} -> {4} [] f \in {"BLS", "PALLAS"} -> {4, 8}
                      [] f = "GOLDILOCKS" -> {8, 12, 16, 20} [] OTHER -> {16, 24}
NeptuneX(f, t) == CASE f = "GOLDILOCKS" -> (CASE t = 8 -> 33 [] t = 12 -> 37 [] t = 16 -> 42 [] OTHER -> 46)
                    [] f = "BABYBEAR" -> (IF t = 16 THEN 30 ELSE 38)
                    [] OTHER -> IF t = 4 THEN 61 ELSE 65
CeilDiv(a, b) == (a + b - 1) \div b
NeptuneRp(f, t) == CeilDiv(9 * NeptuneX(f, t), 8)

Published ==
     {[alg |-> "p2", f |-> x.f, t |-> x.t, d |-> Degree(x.f), rf |-> 8, rp |-> x.rp] : x \in PoseidonShapes}
  \cup {[alg |-> "po", f |-> x.f, t |-> x.t, d |-> Degree(x.f), rf |-> 8, rp |-> x.rp] : x \in PoseidonShapes}
  \cup UNION {{[alg |-> "gm", f |-> f, t |-> t, d |-> Degree(f), rf |-> 0, rp |-> GmimcRounds(f, t)] :
                 t \in GmimcWidths(f)} : f \in FieldNames}
  \cup UNION {{[alg |-> "ne", f |-> f, t |-> t, d |-> Degree(f), rf |-> 6, rp |-> NeptuneRp(f, t)] :
                 t \in NeptuneWidths(f)} : f \in FieldNames}
Inst(alg, f, t) == CHOOSE x \in Published : x.alg = alg /\ x.f = f /\ x.t = t
=============================================================================
