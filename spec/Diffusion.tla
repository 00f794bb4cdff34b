----------------------------- MODULE Diffusion -----------------------------
(***************************************************************************)
(* What the designs ask of their linear layers.                            *)
(*                                                                         *)
(* Poseidon2, internal: M = J + diag(m) with J all ones (m is what the     *)
(* crate calls the diagonal minus one) must have, together with its powers *)
(* up to 2t, an irreducible minimal polynomial of degree t: then no        *)
(* subspace is invariant under any of them, and there is no infinitely     *)
(* long subspace trail (eprint 2023/323, section 5.3;                      *)
(* check_minpoly_condition of poseidon2_rust_params.sage).  The fixed      *)
(* matrices of widths 2 and 3 are exempt from that (the one for 3 has the  *)
(* eigenvector (1, -1, 0)); for them, as for Poseidon's matrices, trails   *)
(* through the partial rounds are excluded directly.                       *)
(*                                                                         *)
(* Poseidon: a maximum distance separable matrix, obtained as a Cauchy     *)
(* matrix.  Poseidon2, external: an MDS 4x4 block.  Neptune, external: MDS *)
(* blocks for widths 4 and 8, interleaved.                                 *)
(***************************************************************************)
EXTENDS Poly, Grain

RECURSIVE ProdLinear(_, _, _, _)
\* product of (x - a[i]) over i from k upwards, i # skip
ProdLinear(F, a, k, skip) ==
  IF k > Len(a) THEN <<FOne(F)>>
  ELSE IF k = skip THEN ProdLinear(F, a, k + 1, skip)
  ELSE TLCEval(MulLinear(F, ProdLinear(F, a, k + 1, skip), a[k]))
\* characteristic polynomial of J + diag(m):  prod (x - m_i) - sum_i prod_{j # i} (x - m_j)
CharPoly(F, m) ==
  LET n == Len(m)
      full == ProdLinear(F, m, 1, 0)
      sum == FoldLeft(LAMBDA acc, i : VecAdd(F, acc, ProdLinear(F, m, 1, i)), PZero(F, n), Iota(n))
  IN TLCEval([i \in 1..n |-> FSub(F, full[i], sum[i])])

\* the criterion, decided on the characteristic polynomial
Secure(F, m) == LET f == TLCEval(CharPoly(F, m)) IN Irreducible(F, f) /\ PowersGenerate(F, f, 2 * Len(m))
InternalInvertible(F, m) == CharPoly(F, m)[1] # FZero(F)

(* Trails through partial rounds.  Differences that never touch the S-box  *)
(* in cell 1 are the v with (M^k v)_1 = 0 for all k; the smallest space    *)
(* that contains the S-box's output and is mapped into itself by M^r is    *)
(* spanned by the M^(rk) e_1.  Neither kind of trail lasts if the first    *)
(* space is zero and the second is everything, r = 1, 2, ... (algorithms   *)
(* 1 to 3 of the script, for one S-box).                                   *)
RECURSIVE RankFrom(_, _, _, _)
\* forward elimination: rows k.. of a have full rank in columns k..
RankFrom(F, a, k, n) ==
  IF k > n THEN TRUE
  ELSE LET cand == {i \in k..n : a[i][k] # FZero(F)}
       IN IF cand = {} THEN FALSE
          ELSE LET piv == CHOOSE i \in cand : \A j \in cand : i <= j
                   ci  == FNeg(F, FInv(F, a[piv][k]))
               IN RankFrom(F, TLCEval([i \in 1..n |-> IF i = k THEN a[piv]
                                 ELSE LET w == IF i = piv THEN a[k] ELSE a[i]
                                      IN IF i < k THEN w ELSE Axpy(F, FMul(F, ci, w[k]), w, a[piv])]), k + 1, n)
FullRank(F, a) == RankFrom(F, a, 1, Len(a))
\* v * m for a row vector v
RowMat(F, v, m) == FoldLeft(LAMBDA acc, i : Axpy(F, v[i], acc, m[i]), PZero(F, Len(v)), Iota(Len(v)))
RECURSIVE Orbit(_, _, _, _, _)
\* v, v m^r, v m^2r, ...: n rows
Orbit(F, m, v, r, n) ==
  IF n = 0 THEN <<>> ELSE <<v>> \o Orbit(F, m, TLCEval(FoldLeft(LAMBDA acc, i : TLCEval(RowMat(F, acc, m)), v, Iota(r))), r, n - 1)
E1(F, n) == TLCEval([i \in 1..n |-> IF i = 1 THEN FOne(F) ELSE FZero(F)])
NoInactiveTrail(F, m) == FullRank(F, Orbit(F, m, E1(F, Len(m)), 1, Len(m)))
NoActiveTrail(F, m, upto) == LET mt == Transpose(m) IN \A r \in 1..upto : FullRank(F, Orbit(F, mt, E1(F, Len(m)), r, Len(m)))

\* m is 1/(x_i + y_j): its entrywise inverse is a sum of a row and a column term, rows and columns differ
IsCauchy(F, m) ==
  /\ \A i, j \in 1..Len(m) : m[i][j] # FZero(F)
  /\ LET n == TLCEval([i \in 1..Len(m) |-> TLCEval([j \in 1..Len(m) |-> FInv(F, m[i][j])])])
     IN /\ \A i, j \in 1..Len(m) : FAdd(F, n[i][j], n[1][1]) = FAdd(F, n[i][1], n[1][j])
        /\ \A i, k \in 1..Len(m) : i # k => n[i][1] # n[k][1] /\ n[1][i] # n[1][k]

\* all square submatrices are invertible
RECURSIVE Subsets(_, _)
Subsets(n, k) == IF k = 0 THEN {<<>>} ELSE IF n < k THEN {} ELSE Subsets(n - 1, k) \cup {Append(s, n) : s \in Subsets(n - 1, k - 1)}
IsMDS(F, m) == \A k \in 1..Len(m) : \A r, c \in Subsets(Len(m), k) :
                 Invertible(F, [i \in 1..k |-> [j \in 1..k |-> m[r[i]][c[j]]]])

\* the candidate for the internal diagonal, minus one, that a generator state gives
Candidate(x, g) ==
  LET F == PField(x.f)
      l == Draw(g, Bits(x.f), F.p, x.t, FALSE, <<>>).vs
  IN TLCEval([i \in 1..x.t |-> FSub(F, l[i], FOne(F))])
=============================================================================
