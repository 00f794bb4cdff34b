---------------------------- MODULE TraceCompress ----------------------------
(***************************************************************************)
(* C11.  Two-to-one compression and the Merkle roots built from it.  The   *)
(* compression of (a, b) is cell 1 of the permutation of (a, b, 0), for    *)
(* Neptune of (a, b, 0, 0); it is defined for sets of width 3 (Neptune 4)  *)
(* and rejected for others.                                                *)
(***************************************************************************)
EXTENDS PermCtx, Merkle

VARIABLES e, j, go
vars == <<e, j, go>>
X == Ev[e]
K == InstOf(X.c)
CmpWidth(alg) == IF alg = "ne" THEN 4 ELSE 3
Fits(k) == k.t = CmpWidth(k.alg)
Compress(k, a, b) == PermOf(k, <<a, b>> \o [i \in 1..(CmpWidth(k.alg) - 2) |-> FZero(k.F)])[1]

RowsIn(x) == IF x.k = "cmptab" THEN Len(x.outs) ELSE 1
Init == e \in 1..Len(Ev) /\ j \in 1..RowsIn(Ev[e]) /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<e, j>>
Spec == Init /\ [][Next]_vars

CompressMatches ==
  /\ go /\ X.k = "cmp" => IF Fits(K) THEN X.ok /\ X.out = <<Compress(K, X.in[1], X.in[2])>> ELSE ~X.ok
  /\ go /\ X.k = "cmptab" => X.outs[j] = <<Compress(K, (j - 1) \div K.F.p, (j - 1) % K.F.p)>>
RootMatches ==
  go /\ X.k = "root" => X.ok /\ X.out = <<RootOf(LAMBDA lv, a, b : Compress(K, a, b), "fp", X.in)>>
Accepted == TLCGet("stats").distinct = 2 * FoldLeft(LAMBDA acc, x : acc + RowsIn(x), 0, Ev)
=============================================================================
