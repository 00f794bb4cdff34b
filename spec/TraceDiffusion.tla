--------------------------- MODULE TraceDiffusion ---------------------------
(***************************************************************************)
(* C20.  The linear layers of the published sets as the running code       *)
(* applies them ("lin" events: matrices read off the permutation with zero *)
(* constants, column by column), against the designs' requirements.        *)
(*   p2: me, mi external and internal matrix, diag the published diagonal  *)
(*   po: me the MDS matrix as applied, mi as published                     *)
(*   ne: me external matrix, diag the internal diagonal           *)
(***************************************************************************)
EXTENDS Diffusion, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
ASSUME TLCSet(7, TLCEval(Ev))
VARIABLES e, go
Init == e \in 1..Len(Ev) /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, go>>
X == TLCGet(7)[e]
F == PField(X.f)
T == X.t
Sq(m) == Len(m) = T /\ \A i \in 1..T : Len(m[i]) = T /\ \A j \in 1..T : FCanon(F, m[i][j])
Block(m, r, c) == [i \in 1..4 |-> [j \in 1..4 |-> m[4 * r + i][4 * c + j]]]

Readable == X.ok /\ (X.alg = "p2" => Sq(X.me) /\ Sq(X.mi) /\ Len(X.diag) = T) /\ (X.alg = "po" => Sq(X.me) /\ Sq(X.mi))
                 /\ (X.alg = "ne" => Sq(X.me) /\ Len(X.diag) = T)
\* periods of trails looked at; an irreducible minimal polynomial excludes all of them up to 2t anyway
Periods == IF T <= 8 \/ IOEnv.VERIF_TIER = "thorough" THEN 4 * T ELSE 4
\* Poseidon2, internal rounds: all ones plus a diagonal, invertible, no subspace trail
InternalSecure ==
  go /\ X.alg = "p2" =>
    LET m == TLCEval([i \in 1..T |-> FSub(F, X.mi[i][i], FOne(F))])
    IN /\ \A i, j \in 1..T : i # j => X.mi[i][j] = FOne(F)
       /\ m = X.diag
       /\ InternalInvertible(F, m)
       /\ NoInactiveTrail(F, X.mi) /\ NoActiveTrail(F, X.mi, Periods)
       /\ T > 3 => Secure(F, m)
\* Poseidon2, external rounds: MDS up to width 4; beyond, MDS blocks, the diagonal ones doubled, invertible
ExternalDiffuses ==
  go /\ X.alg = "p2" =>
    IF T <= 4 THEN IsMDS(F, X.me)
    ELSE /\ Invertible(F, X.me)
         /\ IsMDS(F, Block(X.me, 0, 1))
         /\ \A r, c \in 0..(T \div 4 - 1) : \A i, j \in 1..4 :
              LET b == Block(X.me, 0, 1)[i][j] IN Block(X.me, r, c)[i][j] = IF r = c THEN FAdd(F, b, b) ELSE b
\* Poseidon: Cauchy, hence MDS (and directly, where the minors are few)
MdsMatrix == go /\ X.alg = "po" => X.me = X.mi /\ IsCauchy(F, X.me) /\ Invertible(F, X.me) /\ NoInactiveTrail(F, X.me) /\ NoActiveTrail(F, X.me, Periods) /\ (T <= 4 => IsMDS(F, X.me))
\* Neptune: two interleaved blocks, MDS for widths 4 and 8, invertible otherwise; invertible internal matrix
Half(o) == [i \in 1..(T \div 2) |-> [j \in 1..(T \div 2) |-> X.me[2 * i - o][2 * j - o]]]
NeptuneLayers ==
  go /\ X.alg = "ne" =>
    /\ \A i, j \in 1..T : (i + j) % 2 = 1 => X.me[i][j] = FZero(F)
    /\ \A o \in {0, 1} : IF T \in {4, 8} THEN IsMDS(F, Half(o)) ELSE Invertible(F, Half(o))
    /\ Invertible(F, [i \in 1..T |-> [j \in 1..T |-> IF i = j THEN X.diag[i] ELSE FOne(F)]])
Accepted == /\ {<<Ev[i].alg, Ev[i].f, Ev[i].t>> : i \in 1..Len(Ev)} = {<<y.alg, y.f, y.t>> : y \in {z \in Published : z.alg # "gm"}}
            /\ TLCGet("stats").distinct = 2 * Len(Ev)
=============================================================================
