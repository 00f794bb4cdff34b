------------------------------- MODULE PermCtx -------------------------------
(***************************************************************************)
(* The contexts of a recorded trace.  A context is one hash instance:      *)
(*   pub = TRUE : a published set, identified by alg, f and t; its field,  *)
(*                degree and round numbers come from Instances, Poseidon   *)
(*                and Poseidon2 constants from gen/params.ndjson (derived  *)
(*                by Grain), sampled GMiMC and Neptune constants from the  *)
(*                context;                                                 *)
(*   pub = FALSE: freely chosen parameters, listed in the context.         *)
(***************************************************************************)
EXTENDS Perm, Instances, Json, IOUtils

Ctx == ndJsonDeserialize(IOEnv.TRACE \o "/ctx.ndjson")
Ev  == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
Gen == ndJsonDeserialize("gen/params.ndjson")

GenOf(alg, f, t) == LET k == CHOOSE k \in 1..Len(Gen) : Gen[k].alg = alg /\ Gen[k].f = f /\ Gen[k].t = t IN Gen[k]

Resolve(c) ==
  IF ~c.pub THEN c
  ELSE LET x == Inst(c.alg, c.f, c.t)
           base == [alg |-> x.alg, F |-> PField(x.f), t |-> x.t, d |-> x.d]
       IN CASE c.alg = "p2" -> base @@ [rf |-> x.rf, rp |-> x.rp, rc |-> GenOf("p2", x.f, x.t).rc, diag |-> GenOf("p2", x.f, x.t).diag]
            [] c.alg = "po" -> base @@ [rf |-> x.rf, rp |-> x.rp, rc |-> GenOf("po", x.f, x.t).rc, mds |-> GenOf("po", x.f, x.t).mds]
            [] c.alg = "gm" -> base @@ [rounds |-> x.rp, rc |-> c.rc]
            [] c.alg = "ne" -> base @@ [rf |-> x.rf, rp |-> x.rp, rc |-> c.rc, mu |-> c.mu, gamma |-> c.gamma,
                                        me |-> IF x.t \in {4, 8} THEN NeFixedExternal(PField(x.f), x.t) ELSE c.me]
\* The prepared instances, computed once (TLC register 7) and read by index.
ASSUME TLCSet(7, TLCEval([i \in 1..Len(Ctx) |-> TLCEval(Prepare(Resolve(Ctx[i])))]))
InstOf(i) == TLCGet(7)[i]

\* The sampled constants have the required shape
WellFormed(k) ==
  CASE k.alg = "gm" -> Len(k.rc) = k.rounds /\ \A i \in 1..Len(k.rc) : FCanon(k.F, k.rc[i])
    [] k.alg = "ne" -> /\ Len(k.rc) = k.rf + k.rp /\ \A r \in 1..Len(k.rc) : Len(k.rc[r]) = k.t
                       /\ Len(k.mu) = k.t /\ \A i \in 1..k.t : k.mu[i] # FZero(k.F)
                       /\ Len(k.me) = k.t /\ NeInterleaved(k.F, k.me)
    [] OTHER -> TRUE

\* j-th (1-based) vector of F^t in lexicographic order, cell 1 most significant
NthInput(p, t, j) == TLCEval([i \in 1..t |-> ((j - 1) \div (p ^ (t - i))) % p])
=============================================================================
