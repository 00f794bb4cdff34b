---------------------------- MODULE MCDiffusion ----------------------------
(***************************************************************************)
(* The criterion of Diffusion against what it is for, over complete small  *)
(* worlds: for every diagonal over a small field,                          *)
(*   Secure <=> no power M, ..., M^(2t) maps a proper non-zero subspace    *)
(*              into itself (every non-zero vector is cyclic for it).      *)
(* Likewise Cauchy => MDS, and MDS => every codeword (v, Mv) has weight at *)
(* least t + 1.                                                            *)
(***************************************************************************)
EXTENDS Diffusion, FiniteSets
CONSTANT Pool            \* pairs <<p, t>>
Small == {<<2, 2>>, <<2, 3>>, <<2, 4>>, <<3, 2>>, <<3, 3>>, <<3, 4>>, <<5, 2>>, <<5, 3>>, <<7, 2>>, <<7, 3>>, <<13, 2>>}
Large == Small \cup {<<3, 5>>, <<5, 4>>, <<11, 3>>, <<2, 8>>}
VARIABLES F, m, go
vars == <<F, m, go>>
Init == \E x \in Pool : F = [small |-> TRUE, p |-> x[1]] /\ m \in [1..x[2] -> 0..(x[1] - 1)] /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<F, m>>
Spec == Init /\ [][Next]_vars

T == Len(m)
M == TLCEval([i \in 1..T |-> TLCEval([j \in 1..T |-> FAdd(F, FOne(F), IF i = j THEN m[i] ELSE 0)])])
RECURSIVE MPow(_, _)
MPow(a, k) == IF k = 1 THEN a ELSE MatMul(F, a, MPow(a, k - 1))
RECURSIVE Krylov(_, _, _)
Krylov(a, v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o Krylov(a, MatVec(F, a, v), k - 1)
NonZero == {v \in [1..T -> 0..(F.p - 1)] : \E i \in 1..T : v[i] # 0}
NoInvariantSubspace(a) == \A v \in NonZero : Invertible(F, Krylov(a, v, T))
CriterionExact == go => (Secure(F, m) <=> \A k \in 1..(2 * T) : NoInvariantSubspace(TLCEval(MPow(M, k))))
\* and the criterion excludes the trails through partial rounds
MPow0(a, k) == IF k = 0 THEN Ident(F, T) ELSE MPow(a, k)
InactiveExact == go => (NoInactiveTrail(F, M) <=> \A w \in NonZero : \E k \in 0..(T - 1) : MatVec(F, MPow0(M, k), w)[1] # 0)
ActiveExact == go => (NoActiveTrail(F, M, 2 * T) <=> \A k \in 1..(2 * T) : Invertible(F, Krylov(TLCEval(MPow(M, k)), E1(F, T), T)))
NoTrails == go /\ Secure(F, m) => NoInactiveTrail(F, M) /\ NoActiveTrail(F, M, 2 * T)
\* the closed form of the characteristic polynomial annihilates the matrix, and its constant term is the determinant up to sign
RECURSIVE EvalAt(_, _, _, _)
EvalAt(f, a, i, acc) == IF i = 0 THEN acc ELSE
   EvalAt(f, a, i - 1, LET n == MatMul(F, acc, a) IN TLCEval([r \in 1..T |-> TLCEval([c \in 1..T |-> FAdd(F, n[r][c], IF r = c THEN f[i] ELSE 0)])]))
CayleyHamilton == go => LET f == CharPoly(F, m) IN \A r \in 1..T : \A c \in 1..T : EvalAt(f, M, T, Ident(F, T))[r][c] = 0
Determinant == go => (InternalInvertible(F, m) <=> Invertible(F, M))

\* the same m read as 2t points gives Cauchy matrices
Half == T \div 2
CauchyOf == [i \in 1..Half |-> [j \in 1..Half |-> FInv(F, FAdd(F, m[i], m[Half + j]))]]
Defined == \A i, j \in 1..Half : FAdd(F, m[i], m[Half + j]) # 0
Distinct == \A i, j \in 1..Half : i # j => m[i] # m[j] /\ m[Half + i] # m[Half + j]
Weight(v) == Cardinality({i \in 1..Len(v) : v[i] # 0})
CauchyIsMds == go /\ T % 2 = 0 /\ Defined =>
   /\ IsCauchy(F, CauchyOf) <=> Distinct
   /\ Distinct => IsMDS(F, CauchyOf)
   /\ IsMDS(F, CauchyOf) <=> \A v \in {w \in [1..Half -> 0..(F.p - 1)] : \E i \in 1..Half : w[i] # 0} :
                                Weight(v) + Weight(MatVec(F, CauchyOf, v)) >= Half + 1
=============================================================================
