-------------------------------- MODULE Perm --------------------------------
(***************************************************************************)
(* The four permutations behind one interface.  Prepare turns a context    *)
(* (alg, F and parameters, see the modules) into a prepared instance with  *)
(* its matrices; Start is what happens before round 1; Step is round r.    *)
(***************************************************************************)
EXTENDS Poseidon2, Poseidon, Gmimc, Neptune

Rounds(k) == CASE k.alg = "gm" -> k.rounds [] OTHER -> k.rf + k.rp

Prepare(c) ==
  CASE c.alg = "p2" -> c @@ [me |-> P2ExternalMatrix(c.F, c.t), mi |-> P2InternalMatrix(c)]
    [] c.alg = "ne" -> c @@ [mi |-> NeInternalMatrix(c)]
    [] OTHER -> c

Start(k, s) == CASE k.alg = "p2" -> P2Start(k, k.me, s)
                 [] k.alg = "ne" -> NeStart(k, s)
                 [] OTHER -> s
Step(k, s, r) == CASE k.alg = "p2" -> P2Round(k, k.me, k.mi, s, r)
                   [] k.alg = "po" -> PoRound(k, s, r)
                   [] k.alg = "gm" -> GmRound(k, s, r)
                   [] k.alg = "ne" -> NeRound(k, k.mi, s, r)
PermOf(k, s) == FoldLeft(LAMBDA x, r : Step(k, x, r), Start(k, s), Iota(Rounds(k)))

Degrees(alg) == IF alg = "p2" THEN P2Degrees ELSE {3, 5, 7}
=============================================================================
