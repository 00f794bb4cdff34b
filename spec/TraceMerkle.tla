----------------------------- MODULE TraceMerkle -----------------------------
(***************************************************************************)
(* C09 (and the reference roots of C10).  A recorded tree is a root number *)
(* together with the hash applications reachable from it: application      *)
(* Limit+k is row k+1 of tab, <<level, left, right>>; numbers below Limit  *)
(* are leaves.  The hash is symbolic, so the root stands for exactly one   *)
(* tree; the specification walks down from it and checks every node.       *)
(***************************************************************************)
EXTENDS Merkle, Json, IOUtils, TLC

All == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
Ev  == SelectSeq(All, LAMBDA x : x.k = "tree")
ASSUME TLCSet(7, TLCEval(Ev))
TreeOf(i) == TLCGet(7)[i]
Limit == 1048576

VARIABLES e, id, h, lo
vars == <<e, id, h, lo>>
X == TreeOf(e)
N == Len(X.leaves)
\* everything from the last leaf on is a repetition of it
Canon(i) == IF i > N THEN N ELSE i

Init == e \in 1..Len(Ev) /\ id = TreeOf(e).root /\ lo = 1 /\ h = Height(Len(TreeOf(e).leaves))
RowOf(x) == X.tab[x - Limit + 1]
IsNode(x) == x >= Limit /\ x < Limit + Len(X.tab)
Down == /\ h > 0 /\ IsNode(id) /\ h' = h - 1 /\ UNCHANGED e
        /\ \/ id' = RowOf(id)[2] /\ lo' = lo
           \/ id' = RowOf(id)[3] /\ lo' = Canon(lo + 2 ^ (h - 1))
Next == Down
Spec == Init /\ [][Next]_vars

CallReturns == X.ok
LeavesMatch == h = 0 => id = X.leaves[lo]
NodesMatch  == h > 0 => IsNode(id) /\ RowOf(id)[1] = Level(X.kind, h)
=============================================================================
