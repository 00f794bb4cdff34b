----------------------------- MODULE TraceGrain -----------------------------
(***************************************************************************)
(* C07.  The constants the crate publishes for Poseidon and Poseidon2 are  *)
(* the output of the Grain generator seeded with the set's own description.*)
(* One chain per set: each step draws the next row of round constants and  *)
(* compares it with the published one; the last step draws the matrix.     *)
(***************************************************************************)
EXTENDS Grain, Json, IOUtils

All == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
Ev  == SelectSeq(All, LAMBDA x : x.k = "const")
ASSUME TLCSet(7, TLCEval(Ev))
ConstOf(i) == TLCGet(7)[i]

VARIABLES e, r, g, row
vars == <<e, r, g, row>>
X == Inst(ConstOf(e).alg, ConstOf(e).f, ConstOf(e).t)
F == PField(X.f)
N == X.rf + X.rp

Init == e \in 1..Len(Ev) /\ r = 0 /\ row = <<>> /\ g = GrainStart(X)
Row  == /\ r < N /\ r' = r + 1
        /\ LET d == Draw(g, Bits(X.f), F.p, RowLen(X.alg, X.t, X.rf, X.rp, r + 1), TRUE, <<>>)
           IN g' = d.g /\ row' = PadRow(F, d.vs, X.t)
        /\ UNCHANGED e
Mat  == /\ r = N /\ r' = N + 1
        /\ row' = IF X.alg = "po" THEN GrainMds(X, g) ELSE GrainDiag(X, g)
        /\ UNCHANGED <<e, g>>
Next == Row \/ Mat
Spec == Init /\ [][Next]_vars

Readable   == ConstOf(e).ok /\ Len(ConstOf(e).rc) = N
RowMatches == r \in 1..N => row = ConstOf(e).rc[r]
MatrixMatches ==
  r = N + 1 =>
    IF X.alg = "po" THEN row = ConstOf(e).mat
    ELSE /\ row = ConstOf(e).diag
         /\ ConstOf(e).mat = [i \in 1..X.t |-> [j \in 1..X.t |-> IF i = j THEN FAdd(F, row[i], FOne(F)) ELSE FOne(F)]]
\* every published Poseidon and Poseidon2 set was compared, to the end
Complete == {<<Ev[i].alg, Ev[i].f, Ev[i].t>> : i \in 1..Len(Ev)}
            = {<<x.alg, x.f, x.t>> : x \in {y \in Published : y.alg \in {"p2", "po"}}}
Accepted == /\ Complete
            /\ TLCGet("stats").distinct =
                 FoldLeft(LAMBDA acc, i : acc + Inst(Ev[i].alg, Ev[i].f, Ev[i].t).rf + Inst(Ev[i].alg, Ev[i].f, Ev[i].t).rp + 2,
                          0, Iota(Len(Ev)))
=============================================================================
