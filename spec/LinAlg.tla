------------------------------- MODULE LinAlg -------------------------------
(* Vectors are tuples, matrices are tuples of rows, over a Field record F. *)
EXTENDS Field, SequencesExt, TLC

\* TLCEval is the identity; it only tells TLC to evaluate a vector once, not at each use.
Iota(n) == [i \in 1..n |-> i]

FSum(F, v) == FoldLeft(LAMBDA acc, x : FAdd(F, acc, x), FZero(F), v)
Dot(F, u, v) == FoldLeft(LAMBDA acc, i : FAdd(F, acc, FMul(F, u[i], v[i])), FZero(F), Iota(Len(u)))

VecAdd(F, u, v) == TLCEval([i \in 1..Len(u) |-> FAdd(F, u[i], v[i])])
MatVec(F, m, v) == LET w == TLCEval(v) IN TLCEval([i \in 1..Len(m) |-> Dot(F, m[i], w)])
Transpose(m)    == TLCEval([j \in 1..Len(m[1]) |-> TLCEval([i \in 1..Len(m) |-> m[i][j]])])
MatMul(F, a, b) == LET bt == Transpose(b)
                   IN TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(bt) |-> Dot(F, a[i], bt[j])])])
Ident(F, n)     == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN FOne(F) ELSE FZero(F)])])
IsSquare(m)     == \A i \in 1..Len(m) : Len(m[i]) = Len(m)

\* circ(r1, ..., rn): each row is the previous one rotated right by one place.
Circulant(row)  == LET n == Len(row)
                   IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> row[((j - i) % n) + 1]])])

(* Gauss-Jordan elimination with row pivoting on the augmented matrix.     *)
(* Result: [ok |-> TRUE, inv |-> ...] or [ok |-> FALSE] when singular.     *)
RECURSIVE GJ(_, _, _, _)
GJ(F, aug, k, n) ==
  IF k > n THEN [ok |-> TRUE, inv |-> [i \in 1..n |-> SubSeq(aug[i], n + 1, 2 * n)]]
  ELSE LET cand == {i \in k..n : aug[i][k] # FZero(F)}
       IN IF cand = {} THEN [ok |-> FALSE, inv |-> <<>>]
          ELSE LET piv  == CHOOSE i \in cand : \A j \in cand : i <= j
                   sw   == TLCEval([i \in 1..n |-> IF i = k THEN aug[piv] ELSE IF i = piv THEN aug[k] ELSE aug[i]])
                   ci   == FInv(F, sw[k][k])
                   prow == TLCEval([j \in 1..(2 * n) |-> FMul(F, ci, sw[k][j])])
                   nxt  == TLCEval([i \in 1..n |->
                             IF i = k THEN prow
                             ELSE TLCEval([j \in 1..(2 * n) |-> FSub(F, sw[i][j], FMul(F, sw[i][k], prow[j]))])])
               IN GJ(F, nxt, k + 1, n)
Invert(F, m)     == LET n == Len(m) IN GJ(F, [i \in 1..n |-> m[i] \o Ident(F, n)[i]], 1, n)
Invertible(F, m) == Invert(F, m).ok
=============================================================================
