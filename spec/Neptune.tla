------------------------------- MODULE Neptune -------------------------------
(***************************************************************************)
(* The Neptune permutation (eprint 2021/1695) with alpha = beta = 1.       *)
(* Parameters: F, t (even), d, rf (even), rp, rc, me (external matrix), mu *)
(* (t non-zero diagonal entries of the internal matrix), gamma.            *)
(* External round: quadratic Lai-Massey S-box on cell pairs, external      *)
(* matrix, constants.  Internal round: x^d on cell 1, internal matrix      *)
(* (ones off the diagonal, mu on it), constants.                           *)
(***************************************************************************)
EXTENDS LinAlg

NeDegrees == {3, 5, 7}
NeRounds(c) == c.rf + c.rp
NeIsExternal(c, r) == r <= c.rf \div 2 \/ r > c.rf \div 2 + c.rp

(* S(x,y) = (2x + y + 3z^2 + w^2, x + 3y + 4z^2 + w^2) where z = x - y and  *)
(* w = x - 2y - z^2 + gamma                                                 *)
NeSboxPair(F, gamma, x, y) ==
  LET z  == FSub(F, x, y)
      z2 == FMul(F, z, z)
      w  == FAdd(F, FSub(F, FSub(F, z, y), z2), gamma)
      w2 == FMul(F, w, w)
      k(n, v) == FMul(F, FNat(F, n), v)
  IN <<FAdd(F, FAdd(F, FAdd(F, k(2, x), y), k(3, z2)), w2),
       FAdd(F, FAdd(F, FAdd(F, x, k(3, y)), k(4, z2)), w2)>>

(* y1 - y2 = x - 2y - z^2 = w - gamma, hence w; then y1 = 5z - 3(w-gamma) + w^2 *)
(* gives z as 5 is invertible (p # 5), and y = z - z^2 - (w-gamma).             *)
NeUnSboxPair(F, gamma, y1, y2) ==
  LET u  == FSub(F, y1, y2)
      w  == FAdd(F, u, gamma)
      k(n, v) == FMul(F, FNat(F, n), v)
      z  == FMul(F, FInv(F, FNat(F, 5)), FAdd(F, FSub(F, y1, FMul(F, w, w)), k(3, u)))
      y  == FSub(F, FSub(F, z, FMul(F, z, z)), u)
  IN <<FAdd(F, z, y), y>>

NeExternalSbox(c, s) ==
  LET prs == TLCEval([k \in 1..(c.t \div 2) |-> NeSboxPair(c.F, c.gamma, s[2 * k - 1], s[2 * k])])
  IN TLCEval([i \in 1..c.t |-> prs[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]])
NeInternalMatrix(c) ==
  TLCEval([i \in 1..c.t |-> TLCEval([j \in 1..c.t |-> IF i = j THEN c.mu[i] ELSE FOne(c.F)])])

\* The published external matrices: M' interleaved (odd cells) with M'' (even cells).
NeFixedExternal(F, t) ==
  LET m1 == IF t = 4 THEN Circulant(<<FNat(F, 2), FNat(F, 1)>>)
            ELSE Circulant(<<FNat(F, 3), FNat(F, 2), FNat(F, 1), FNat(F, 1)>>)
      m2 == IF t = 4 THEN Circulant(<<FNat(F, 1), FNat(F, 2)>>)
            ELSE Circulant(<<FNat(F, 1), FNat(F, 1), FNat(F, 2), FNat(F, 3)>>)
  IN [i \in 1..t |-> [j \in 1..t |->
       IF (i + j) % 2 = 1 THEN FZero(F)
       ELSE IF i % 2 = 1 THEN m1[(i + 1) \div 2][(j + 1) \div 2] ELSE m2[i \div 2][j \div 2]]]
\* any external matrix mixes odd cells with odd cells and even cells with even cells
NeInterleaved(F, m) == \A i, j \in 1..Len(m) : (i + j) % 2 = 1 => m[i][j] = FZero(F)

NeStart(c, s) == MatVec(c.F, c.me, s)
NeRound(c, mi, s, r) ==
  VecAdd(c.F,
    IF NeIsExternal(c, r) THEN MatVec(c.F, c.me, NeExternalSbox(c, s))
    ELSE MatVec(c.F, mi, [i \in 1..c.t |-> IF i = 1 THEN FPow(c.F, s[1], c.d) ELSE s[i]]),
    c.rc[r])
NePermWith(c, mi, in) ==
  FoldLeft(LAMBDA s, r : NeRound(c, mi, s, r), NeStart(c, in), Iota(NeRounds(c)))
NePerm(c, in) == NePermWith(c, NeInternalMatrix(c), in)
=============================================================================
