------------------------------ MODULE TracePre ------------------------------
(***************************************************************************)
(* C03.  Recorded results of the public precomputation helpers: the sparse *)
(* factorisation (mi, v, w) and the rewritten constants (opt) of Poseidon, *)
(* and the rewritten constants (opt2) of Poseidon2.  They are right when   *)
(* the rewritten partial section is the same function as the textbook one; *)
(* the textbook machine is run round by round on every recorded state      *)
(* entering the section and its final state compared with the rewritten    *)
(* evaluation.  Four rewritings, each required exactly where it exists:    *)
(*   sp  sparse matrices and moved constants    (matrix and blocks invertible) *)
(*   sz  sparse matrices, no constants          (blocks invertible)        *)
(*   pc  Poseidon's moved constants, dense matrix   (matrix invertible)    *)
(*   p2  Poseidon2's moved constants, dense matrix  (matrix invertible)    *)
(***************************************************************************)
EXTENDS Poseidon, Poseidon2, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
Modes == {"sp", "sz", "pc", "p2"}
Required(x) == LET inv == Invertible(x.F, x.mds)
                   blocks == PoSparseOk(PoSparse(x))
               IN {mo \in Modes : (mo # "sz" => inv) /\ (mo \in {"sp", "sz"} => blocks)}

VARIABLES e, m, j, r, s
vars == <<e, m, j, r, s>>
X == Ev[e]
\* the section without its constants
Bare(x) == [x EXCEPT !.rc = [i \in 1..Len(x.rc) |-> [k \in 1..x.t |-> FZero(x.F)]]]

Init == e \in 1..Len(Ev) /\ m = "" /\ j = 0 /\ r = -1 /\ s = <<>>
Begin == /\ r = -1
         /\ r' = 0 /\ m' \in Required(X) /\ j' \in 1..Len(X.ins) /\ s' = X.ins[j'] /\ UNCHANGED e
Round == /\ r >= 0 /\ r < X.rp /\ r' = r + 1
         /\ s' = PlainPartialStep(IF m = "sz" THEN Bare(X) ELSE X, X.mds, s, r + 1)
         /\ UNCHANGED <<e, m, j>>
Next == Begin \/ Round
Spec == Init /\ [][Next]_vars

MatricesOk ==
  /\ X.okm /\ Len(X.v) = X.rp /\ Len(X.w) = X.rp
  /\ Len(X.mi) = X.t /\ IsSquare(X.mi)
  /\ \A i \in 1..X.rp : Len(X.v[i]) = X.t - 1 /\ Len(X.w[i]) = X.t - 1
ConstantsOk == X.okc /\ Len(X.opt) = X.rp /\ Len(X.opt[1]) = X.t /\ \A i \in 2..X.rp : Len(X.opt[i]) >= 1
Constants2Ok == /\ X.ok2 /\ Len(X.opt2) = X.rp + 1 /\ Len(X.opt2[1]) = X.t /\ Len(X.opt2[X.rp + 1]) = X.t
                /\ \A i \in 2..X.rp : Len(X.opt2[i]) >= 1
Sparse == [mi |-> X.mi, sp |-> [i \in 1..X.rp |-> [v |-> X.v[i], w |-> X.w[i]]]]
None == [i \in 1..X.rp |-> [k \in 1..X.t |-> FZero(X.F)]]

HelperReturns == r = 0 => /\ m \in {"sp", "sz"} => MatricesOk
                          /\ m \in {"sp", "pc"} => ConstantsOk
                          /\ m = "p2" => Constants2Ok
Rewritten == CASE m = "sp" -> PoPartialOpt(X, Sparse, X.opt, X.ins[j])
               [] m = "sz" -> PoPartialOpt(X, Sparse, None, X.ins[j])
               [] m = "pc" -> RewrittenPartial(X, X.mds, Append(X.opt, None[1]), X.ins[j])
               [] m = "p2" -> RewrittenPartial(X, X.mds, X.opt2, X.ins[j])
Equivalent == m # "" /\ r = X.rp => s = Rewritten

\* the trace is not vacuous: most of its events had to succeed and were run
Accepted == TLCGet("stats").distinct > 10 * Len(Ev)
=============================================================================
