------------------------------ MODULE Poseidon2 ------------------------------
(***************************************************************************)
(* The Poseidon2 permutation (eprint 2023/323) as the reference script of  *)
(* the repository defines it.                                              *)
(*                                                                         *)
(* A parameter record c has: F field, t width, d S-box degree, rf number   *)
(* of full rounds (even), rp number of partial rounds, diag = the t        *)
(* diagonal entries of the internal matrix minus one, rc = one row of      *)
(* round constants per round (only entry 1 of a row is used in a partial   *)
(* round).                                                                 *)
(***************************************************************************)
EXTENDS LinAlg

P2Widths  == {2, 3, 4, 8, 12, 16, 20, 24}
P2Degrees == {3, 5, 7, 11}

M4 == <<<<5, 7, 1, 3>>, <<4, 6, 1, 1>>, <<1, 3, 5, 7>>, <<1, 1, 4, 6>>>>

\* External matrix: circ(2,1), circ(2,1,1), M4, or the block circulant circ(2*M4, M4, ..., M4)
P2ExternalMatrix(F, t) ==
  CASE t = 2 -> Circulant(<<FNat(F, 2), FNat(F, 1)>>)
    [] t = 3 -> Circulant(<<FNat(F, 2), FNat(F, 1), FNat(F, 1)>>)
    [] t = 4 -> TLCEval([i \in 1..4 |-> TLCEval([j \in 1..4 |-> FNat(F, M4[i][j])])])
    [] OTHER -> TLCEval([i \in 1..t |-> TLCEval([j \in 1..t |->
                  LET e == M4[((i - 1) % 4) + 1][((j - 1) % 4) + 1]
                  IN FNat(F, IF (i - 1) \div 4 = (j - 1) \div 4 THEN 2 * e ELSE e)])])

\* Internal matrix: all-ones plus a diagonal; fixed small matrices for t = 2, 3.
P2InternalMatrix(c) ==
  LET dm1 == IF c.t = 2 THEN <<FNat(c.F, 1), FNat(c.F, 2)>>
             ELSE IF c.t = 3 THEN <<FNat(c.F, 1), FNat(c.F, 1), FNat(c.F, 2)>>
             ELSE c.diag
  IN TLCEval([i \in 1..c.t |-> TLCEval([j \in 1..c.t |-> IF i = j THEN FAdd(c.F, dm1[i], FOne(c.F)) ELSE FOne(c.F)])])

P2Rounds(c) == c.rf + c.rp
P2IsFull(c, r) == r <= c.rf \div 2 \/ r > c.rf \div 2 + c.rp

\* me, mi: the two matrices of c (passed in so that they are built once per instance)
P2Start(c, me, s) == MatVec(c.F, me, s)
P2FullRound(c, me, s, r) ==
  MatVec(c.F, me, [i \in 1..c.t |-> FPow(c.F, FAdd(c.F, s[i], c.rc[r][i]), c.d)])
P2PartialRound(c, mi, s, r) ==
  MatVec(c.F, mi, [i \in 1..c.t |-> IF i = 1 THEN FPow(c.F, FAdd(c.F, s[1], c.rc[r][1]), c.d) ELSE s[i]])
P2Round(c, me, mi, s, r) ==
  IF P2IsFull(c, r) THEN P2FullRound(c, me, s, r) ELSE P2PartialRound(c, mi, s, r)

P2PermWith(c, me, mi, in) ==
  FoldLeft(LAMBDA s, r : P2Round(c, me, mi, s, r), P2Start(c, me, in), Iota(P2Rounds(c)))
P2Perm(c, in) == P2PermWith(c, P2ExternalMatrix(c.F, c.t), P2InternalMatrix(c), in)

(* ---- the inverse permutation: e is the inverse of d modulo p-1 -------- *)
P2UnRound(c, mei, mii, e, s, r) ==
  IF P2IsFull(c, r)
  THEN LET u == MatVec(c.F, mei, s) IN [i \in 1..c.t |-> FSub(c.F, e[u[i]], c.rc[r][i])]
  ELSE LET u == MatVec(c.F, mii, s) IN [i \in 1..c.t |-> IF i = 1 THEN FSub(c.F, e[u[1]], c.rc[r][1]) ELSE u[i]]

(* ---- moving partial-round constants backwards through the internal matrix *)
(* opt rewrites the constants of the partial rounds: opt[1] is added to the   *)
(* whole state once before them, opt[i+1][1] to cell 1 after the S-box of     *)
(* partial round i < rp, and the vector opt[rp+1] after the last one.         *)
RewrittenPartial(c, mi, opt, s0) ==
  LET start == VecAdd(c.F, s0, opt[1])
      step(s, i) == LET x == FPow(c.F, s[1], c.d)
                        y == IF i < c.rp THEN FAdd(c.F, x, opt[i + 1][1]) ELSE x
                    IN MatVec(c.F, mi, [k \in 1..c.t |-> IF k = 1 THEN y ELSE s[k]])
  IN VecAdd(c.F, FoldLeft(step, start, Iota(c.rp)), opt[c.rp + 1])
\* the same rounds with the constants where the definition puts them (whole rows)
PlainPartialStep(c, mi, s, i) ==
  LET u == VecAdd(c.F, s, c.rc[c.rf \div 2 + i])
  IN MatVec(c.F, mi, [k \in 1..c.t |-> IF k = 1 THEN FPow(c.F, u[1], c.d) ELSE u[k]])
PlainPartial(c, mi, s0) == FoldLeft(LAMBDA s, i : PlainPartialStep(c, mi, s, i), s0, Iota(c.rp))
=============================================================================
