------------------------------ MODULE MCMerkle ------------------------------
(***************************************************************************)
(* The design behind C09 and C19.  The level-by-level algorithm: pad, then *)
(* repeatedly hash neighbours until one node is left.  For every kind and  *)
(* every leaf sequence up to length 6 over two leaves it halts with the    *)
(* specified root, and roots are equal exactly for equal paddings.         *)
(***************************************************************************)
EXTENDS Merkle, TLC, FiniteSets
Leaf(x) == <<"l", x>>
Node(lv, a, b) == <<"n", lv, a, b>>
Seqs == UNION {[1..n -> {Leaf(1), Leaf(2)}] : n \in 1..6}
VARIABLES kind, leaves, nodes, lv
vars == <<kind, leaves, nodes, lv>>
Init == kind \in Kinds /\ leaves \in Seqs /\ nodes = Pad(leaves) /\ lv = 0
Next == /\ Len(nodes) > 1 /\ lv' = lv + 1 /\ UNCHANGED <<kind, leaves>>
        /\ nodes' = [i \in 1..(Len(nodes) \div 2) |-> Node(IF kind \in {"orchard", "sapling"} THEN lv ELSE -1, nodes[2 * i - 1], nodes[2 * i])]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RootRight == Len(nodes) = 1 => nodes[1] = RootOf(Node, kind, leaves) /\ lv = Height(Len(leaves))
Halves == lv > 0 \/ Len(nodes) = 2 ^ Height(Len(leaves))
Halts == <>(Len(nodes) = 1)
Binding == lv = 0 => \A q \in Seqs : (RootOf(Node, kind, q) = RootOf(Node, kind, leaves)) = SameTree(q, leaves)
=============================================================================
