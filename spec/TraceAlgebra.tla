---------------------------- MODULE TraceAlgebra ----------------------------
(***************************************************************************)
(* C15.  Recorded calls of the linear-algebra helpers.  mat_inverse        *)
(* returns the inverse of every invertible matrix and rejects every        *)
(* singular one ("invtab": all n x n matrices with entries below q).         *)
(***************************************************************************)
EXTENDS LinAlg, Json, IOUtils
Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
VARIABLES e, j, go
vars == <<e, j, go>>
X == Ev[e]
RowsIn(x) == IF x.k = "invtab" THEN Len(x.outs) ELSE 1
Init == e \in 1..Len(Ev) /\ j \in 1..RowsIn(Ev[e]) /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED <<e, j>>
Spec == Init /\ [][Next]_vars

\* the matrix number k in row-major lexicographic order
NthMat(q, n, k) == [a \in 1..n |-> [b \in 1..n |-> (k \div (q ^ (n * n - ((a - 1) * n + b)))) % q]]
InverseRight(F, m, ok, out) ==
  IF Invertible(F, m)
  THEN /\ ok /\ Len(out) = Len(m) /\ IsSquare(out)
       /\ MatMul(F, m, out) = Ident(F, Len(m)) /\ MatMul(F, out, m) = Ident(F, Len(m))
  ELSE ~ok
Inverses ==
  /\ go /\ X.k = "inv" => InverseRight(X.F, X.m, X.ok, X.out)
  /\ go /\ X.k = "invtab" => InverseRight(X.F, NthMat(X.q, X.n, X.from + j - 1), X.outs[j] # <<>>, X.outs[j])
Products ==
  /\ go /\ X.k = "matmul" => X.ok /\ X.out = MatMul(X.F, X.a, X.b)
  /\ go /\ X.k = "matvec" => X.ok /\ X.out = MatVec(X.F, X.a, X.v)
Transposes == go /\ X.k = "transpose" => X.ok /\ X.out = Transpose(X.m)
Accepted == TLCGet("stats").distinct = 2 * FoldLeft(LAMBDA acc, x : acc + RowsIn(x), 0, Ev)
=============================================================================
