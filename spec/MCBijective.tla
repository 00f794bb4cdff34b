---------------------------- MODULE MCBijective ----------------------------
(* The design behind C06: with invertible linear layers and d coprime to   *)
(* p-1 each specified permutation maps F^t onto F^t (small instances).     *)
EXTENDS Perm, FiniteSets
Fp(p) == [small |-> TRUE, p |-> p]
Row(p, t, k) == [i \in 1..t |-> (k * i + i * i + 1) % p]
VARIABLES alg, p, t, d, rf, rp, k, go
vars == <<alg, p, t, d, rf, rp, k, go>>
Good == {<<3, 2, 3>>, <<3, 2, 5>>, <<5, 2, 3>>, <<7, 2, 5>>, <<3, 3, 7>>, <<5, 3, 7>>, <<3, 4, 3>>, <<17, 2, 3>>}
Init == /\ go = FALSE /\ alg \in {"p2", "po", "gm", "ne"} /\ k \in 0..2 /\ rf \in {0, 2} /\ rp \in 1..3
        /\ \E x \in Good : p = x[1] /\ t = x[2] /\ d = x[3]
        /\ alg = "ne" => t % 2 = 0 /\ p # 5
Spec == Init /\ [][~go /\ go' = TRUE /\ UNCHANGED <<alg, p, t, d, rf, rp, k>>]_vars
Rc == [r \in 1..(rf + rp) |-> Row(p, t, k + r)]
C == LET b == [alg |-> alg, F |-> Fp(p), t |-> t, d |-> d] IN
     CASE alg = "p2" -> b @@ [rf |-> rf, rp |-> rp, rc |-> Rc, diag |-> Row(p, t, k + 5)]
       [] alg = "po" -> b @@ [rf |-> rf, rp |-> rp, rc |-> Rc, mds |-> [i \in 1..t |-> [j \in 1..t |-> IF i = j THEN (k + i) % p ELSE 1]]]
       [] alg = "gm" -> b @@ [rounds |-> rf + rp, rc |-> [r \in 1..(rf + rp) |-> Rc[r][1]]]
       [] OTHER -> b @@ [rf |-> rf, rp |-> rp, rc |-> Rc, gamma |-> k, mu |-> [i \in 1..t |-> 1 + ((k + i) % (p - 1))],
                         me |-> IF t = 4 THEN NeFixedExternal(Fp(p), 4) ELSE <<<<1 + (k % (p - 1)), 0>>, <<0, 1>>>>]
Linear(q) == CASE q.alg = "gm" -> TRUE [] q.alg = "po" -> Invertible(q.F, q.mds)
               [] OTHER -> Invertible(q.F, q.me) /\ Invertible(q.F, q.mi)
Onto == go => LET q == Prepare(C) IN Linear(q) => Cardinality({PermOf(q, x) : x \in [1..t -> 0..(p - 1)]}) = p ^ t
=============================================================================
