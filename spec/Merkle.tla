------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Binary Merkle trees over a two-to-one hash.  n >= 1 leaves are padded   *)
(* to the next power of two (at least two) by repeating the last leaf; the *)
(* root is the hash of the roots of the two halves.  The trees over the    *)
(* Zcash hashes ("orchard", "sapling") also pass the level, 0 for the      *)
(* parents of leaves; the others pass none (-1).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

Kinds == {"f2", "fp", "orchard", "sapling"}
RECURSIVE HeightFrom(_, _)
HeightFrom(n, h) == IF 2 ^ h >= n THEN h ELSE HeightFrom(n, h + 1)
Height(n) == HeightFrom(n, 1)

LeafAt(leaves, i) == leaves[IF i > Len(leaves) THEN Len(leaves) ELSE i]
Pad(leaves) == [i \in 1..(2 ^ Height(Len(leaves))) |-> LeafAt(leaves, i)]
Level(kind, h) == IF kind \in {"orchard", "sapling"} THEN h - 1 ELSE -1

RECURSIVE SubRoot(_, _, _, _, _)
\* root of the subtree of height h over leaves lo, lo+1, ...
SubRoot(H(_, _, _), kind, leaves, h, lo) ==
  IF h = 0 THEN LeafAt(leaves, lo)
  ELSE H(Level(kind, h), SubRoot(H, kind, leaves, h - 1, lo), SubRoot(H, kind, leaves, h - 1, lo + 2 ^ (h - 1)))
RootOf(H(_, _, _), kind, leaves) == SubRoot(H, kind, leaves, Height(Len(leaves)), 1)

(* Two leaf sequences have the same root under a collision-free hash iff   *)
(* they have the same padding.                                             *)
SameTree(a, b) == Pad(a) = Pad(b)
=============================================================================
