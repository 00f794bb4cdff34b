------------------------------- MODULE MCDiag -------------------------------
(***************************************************************************)
(* How the published internal diagonals come about: candidates are drawn   *)
(* from Grain until one meets the criterion.  This derives DiagSkip of     *)
(* Instances: every candidate before the published one fails, the          *)
(* published one is the first that does not.                               *)
(***************************************************************************)
EXTENDS Diffusion
VARIABLES x, k, g, judged
vars == <<x, k, g, judged>>
Sets == {y \in Published : y.alg = "p2" /\ y.t > 3}
Init == x \in Sets /\ k = 0 /\ judged = FALSE /\ g = GrainRows(x, GrainStart(x), 1, <<>>).g
\* reject candidate k and draw the next one
Redraw == ~judged /\ k < DiagSkip(x.f, x.t) /\ k' = k + 1 /\ UNCHANGED <<x, judged>>
          /\ g' = Draw(g, Bits(x.f), Modulus(x.f), x.t, FALSE, <<>>).g
Judge  == ~judged /\ judged' = TRUE /\ UNCHANGED <<x, k, g>>
Next == Redraw \/ Judge
Spec == Init /\ [][Next]_vars
FirstSecure == judged => Secure(PField(x.f), Candidate(x, g)) = (k = DiagSkip(x.f, x.t))
=============================================================================
