------------------------------ MODULE GenParams ------------------------------
(* Writes gen/params.ndjson: the derived constants of every published      *)
(* Poseidon and Poseidon2 set, one JSON record per line, one state per set. *)
EXTENDS Grain, Json, IOUtils
Sets == SetToSortSeq({x \in Published : x.alg \in {"po", "p2"}},
          LAMBDA a, b : \/ a.alg # b.alg /\ a.alg = "p2"
                        \/ a.alg = b.alg /\ a.f # b.f /\ Bits(a.f) < Bits(b.f)
                        \/ a.alg = b.alg /\ a.f # b.f /\ Bits(a.f) = Bits(b.f) /\ Modulus(a.f)[5] < Modulus(b.f)[5]
                        \/ a.alg = b.alg /\ a.f = b.f /\ a.t < b.t)
VARIABLES k, go
Init == k \in 1..Len(Sets) /\ go = FALSE
Next == ~go /\ go' = TRUE /\ k' = k
Write == go => LET x == Sets[k]
         IN ndJsonSerialize(IOEnv.GEN_OUT \o "/" \o ToString(k) \o ".json",
              <<[alg |-> x.alg, f |-> x.f, t |-> x.t] @@ GrainConstants(x)>>)
=============================================================================
