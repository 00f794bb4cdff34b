-------------------------------- MODULE Gmimc --------------------------------
(***************************************************************************)
(* GMiMC-erf (eprint 2019/397): an unbalanced Feistel network with an      *)
(* expanding round function.  Round r computes f = (s[1] + rc[r])^d, adds  *)
(* f to every other cell and rotates the state right by one place; the     *)
(* last round does not rotate.  Parameters: F, t, d, rounds, rc.           *)
(***************************************************************************)
EXTENDS LinAlg

GmDegrees == {3, 5, 7}
RotR(s) == <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1)
RotL(s) == Tail(s) \o <<s[1]>>

GmFeistel(c, s, r) ==
  LET f == FPow(c.F, FAdd(c.F, s[1], c.rc[r]), c.d)
  IN TLCEval([i \in 1..c.t |-> IF i = 1 THEN s[1] ELSE FAdd(c.F, s[i], f)])
GmRound(c, s, r) == IF r < c.rounds THEN RotR(GmFeistel(c, s, r)) ELSE GmFeistel(c, s, r)
GmPerm(c, in) == FoldLeft(LAMBDA s, r : GmRound(c, s, r), in, Iota(c.rounds))

GmUnRound(c, s, r) ==
  LET u == IF r < c.rounds THEN RotL(s) ELSE s
      f == FPow(c.F, FAdd(c.F, u[1], c.rc[r]), c.d)
  IN TLCEval([i \in 1..c.t |-> IF i = 1 THEN u[1] ELSE FSub(c.F, u[i], f)])
GmUnPerm(c, out) == FoldLeft(LAMBDA s, r : GmUnRound(c, s, c.rounds - r + 1), out, Iota(c.rounds))

(* The accumulator form used for wide states: additions to the t-1 other   *)
(* cells are deferred; acc is the sum of the last t-1 round outputs (queue *)
(* q), added to a cell only when it becomes cell 1.                        *)
GmAccStep(c, x, r) ==
  LET f  == FPow(c.F, FAdd(c.F, x.s[1], c.rc[r]), c.d)
      a  == FAdd(c.F, FSub(c.F, x.acc, x.q[c.t - 1]), f)
      q  == <<f>> \o SubSeq(x.q, 1, c.t - 2)
  IN IF r < c.rounds
     THEN LET u == RotR(x.s) IN [s |-> [u EXCEPT ![1] = FAdd(c.F, u[1], a)], acc |-> a, q |-> q]
     ELSE [s |-> x.s, acc |-> a, q |-> q]
GmAccInit(c, in) == [s |-> in, acc |-> FZero(c.F), q |-> [i \in 1..(c.t - 1) |-> FZero(c.F)]]
\* cell i (2..t) still lacks the newest i-1 entries of the queue ... from the far end
GmAccFlush(c, x) ==
  [i \in 1..c.t |-> IF i = 1 THEN x.s[1] ELSE FAdd(c.F, x.s[i], FSum(c.F, SubSeq(x.q, 1, i - 1)))]
GmPermAcc(c, in) ==
  GmAccFlush(c, FoldLeft(LAMBDA x, r : GmAccStep(c, x, r), GmAccInit(c, in), Iota(c.rounds)))
=============================================================================
