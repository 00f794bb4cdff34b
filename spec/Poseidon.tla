------------------------------ MODULE Poseidon ------------------------------
(***************************************************************************)
(* The original Poseidon permutation (eprint 2019/458), textbook form:     *)
(* every round adds a full row of constants, applies x^d to all cells      *)
(* (full round) or to cell 1 (partial round), and multiplies by the MDS    *)
(* matrix.  Parameters: F, t, d, rf, rp, mds, rc.                          *)
(***************************************************************************)
EXTENDS LinAlg

PoDegrees == {3, 5, 7}
PoRounds(c) == c.rf + c.rp
PoIsFull(c, r) == r <= c.rf \div 2 \/ r > c.rf \div 2 + c.rp

PoRound(c, s, r) ==
  LET u == VecAdd(c.F, s, c.rc[r])
  IN MatVec(c.F, c.mds,
       IF PoIsFull(c, r) THEN [i \in 1..c.t |-> FPow(c.F, u[i], c.d)]
       ELSE [i \in 1..c.t |-> IF i = 1 THEN FPow(c.F, u[1], c.d) ELSE u[i]])

PoPerm(c, in) == FoldLeft(LAMBDA s, r : PoRound(c, s, r), in, Iota(PoRounds(c)))

(***************************************************************************)
(* The optimised form ("sparse matrices", appendix B of the paper).  The   *)
(* MDS matrix is factored M = M' * M'' with M'' sparse; M' commutes with   *)
(* the partial S-box and is pushed into the previous round, so the partial *)
(* phase becomes: one dense multiplication, then one sparse one per round. *)
(* PoSparse is the design; MCPoseidonOpt checks PoPermOpt = PoPerm.        *)
(***************************************************************************)
SubMat(m)  == [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[i + 1][j + 1]]]
RowTail(m) == [j \in 1..(Len(m) - 1) |-> m[1][j + 1]]
ColTail(m) == [i \in 1..(Len(m) - 1) |-> m[i + 1][1]]

\* n-th factorisation (n = 1 for the last partial round); all on the transposed MDS
RECURSIVE PoSparseFrom(_, _, _, _, _)
PoSparseFrom(F, mt, cur, n, acc) ==
  LET hat == SubMat(cur)
      inv == Invert(F, hat)
      entry == [v |-> RowTail(cur), w |-> IF inv.ok THEN MatVec(F, inv.inv, ColTail(cur)) ELSE <<>>, ok |-> inv.ok]
      t   == Len(mt)
      mi  == [i \in 1..t |-> [j \in 1..t |-> IF i = 1 \/ j = 1 THEN (IF i = j THEN FOne(F) ELSE FZero(F)) ELSE cur[i][j]]]
  IN IF n = 1 THEN [mi |-> Transpose(mi), sp |-> Append(acc, entry)]
     ELSE PoSparseFrom(F, mt, MatMul(F, mt, mi), n - 1, Append(acc, entry))
PoSparse(c) == PoSparseFrom(c.F, Transpose(c.mds), Transpose(c.mds), c.rp, <<>>)
\* the factorisation exists when every pushed block is invertible
PoSparseOk(sp) == \A i \in 1..Len(sp.sp) : sp.sp[i].ok

RECURSIVE PoOptConstFrom(_, _, _, _, _)
\* push the constants of partial round i+1 back through the matrix into round i
PoOptConstFrom(c, minv, i, tmp, acc) ==
  IF i = 0 THEN <<tmp>> \o acc
  ELSE LET u == MatVec(c.F, minv, tmp)
           row == c.rc[c.rf \div 2 + i]
       IN PoOptConstFrom(c, minv, i - 1,
            [k \in 1..c.t |-> IF k = 1 THEN row[1] ELSE FAdd(c.F, row[k], u[k])],
            <<<<u[1]>>>> \o acc)
PoOptConst(c) == PoOptConstFrom(c, Invert(c.F, c.mds).inv, c.rp - 1, c.rc[c.rf \div 2 + c.rp], <<>>)

PoSparseStep(c, e, s) ==
  [i \in 1..c.t |-> IF i = 1 THEN FAdd(c.F, FMul(c.F, c.mds[1][1], s[1]), Dot(c.F, e.w, Tail(s)))
                    ELSE FAdd(c.F, FMul(c.F, s[1], e.v[i - 1]), s[i])]

PoPartialOpt(c, sp, oc, s1) ==
  LET s2 == MatVec(c.F, sp.mi, VecAdd(c.F, s1, oc[1]))
      step(s, i) == LET x == FPow(c.F, s[1], c.d)
                        y == IF i < c.rp THEN FAdd(c.F, x, oc[i + 1][1]) ELSE x
                    IN PoSparseStep(c, sp.sp[c.rp - i + 1], [k \in 1..c.t |-> IF k = 1 THEN y ELSE s[k]])
  IN FoldLeft(step, s2, Iota(c.rp))
PoPermOpt(c, sp, oc, in) ==
  LET h == c.rf \div 2
      s1 == FoldLeft(LAMBDA s, r : PoRound(c, s, r), in, Iota(h))
      s3 == PoPartialOpt(c, sp, oc, s1)
  IN FoldLeft(LAMBDA s, r : PoRound(c, s, h + c.rp + r), s3, Iota(h))
=============================================================================
