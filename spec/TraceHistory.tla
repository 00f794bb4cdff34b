---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* C13.  Replayed histories.  Outputs are recorded as numbers, equal       *)
(* numbers meaning equal outputs, -1 a panic.  "base": the output of each  *)
(* input on a fresh object, per family.  "hist": a generated history.      *)
(* "thread": the log of one of several threads sharing the objects.        *)
(* "long": the distinct outputs seen per input in a long run.              *)
(* "pairs": similar inputs; rows[x][y] is the output of y right after x on *)
(* one object (or a clone of it).  "sets": short-lived parameter sets of   *)
(* one shape, used alone and all together.                                 *)
(***************************************************************************)
EXTENDS History, FiniteSets
Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
ASSUME TLCSet(7, TLCEval(Ev))
E(i) == TLCGet(7)[i]
ASSUME TLCSet(8, TLCEval(SelectSeq(Ev, LAMBDA x : x.k = "base")[1].ids))
\* ids[alg+1][a+2] is the output number of input a
Memo(alg, a) == TLCGet(8)[alg + 1][a + 2]

VARIABLES e, i
tvars == <<e, i, hist>>
Size(x) == CASE x.k = "hist" -> Len(x.ops) [] x.k = "thread" -> Len(x.log) [] x.k = "long" -> Len(x.seen) [] x.k = "pairs" -> Len(x.rows) [] OTHER -> 0
TInit == e \in 1..Len(Ev) /\ i = 0 /\ hist = <<>>
TNext == i < Size(E(e)) /\ i' = i + 1 /\ UNCHANGED <<e, hist>>
TSpec == TInit /\ [][TNext]_tvars

X == E(e)
BaseSane == X.k = "base" => \A a \in 1..Len(X.ids) : X.ids[a][1] = -1 /\ \A b \in 2..Len(X.ids[a]) : X.ids[a][b] > 0
CallIsFunctionOfInput ==
  i > 0 =>
    CASE X.k = "hist" -> X.outs[i] = (IF X.ops[i].op = "call" THEN Memo(X.alg, X.ops[i].a) ELSE 0)
      [] X.k = "thread" -> X.log[i][4] = Memo(X.log[i][1], X.log[i][2])
      [] X.k = "long" -> \A k \in 1..Len(X.seen[i]) : X.seen[i][k] = Memo(X.alg, i - 2)
      [] OTHER -> TRUE
\* the output of y is the same whatever came before it
PairsIndependent == X.k = "pairs" /\ i > 0 => X.rows[i] = X.refs
\* and different inputs of a bijection keep their different outputs
PairsDistinct == X.k = "pairs" /\ i = 0 =>
   /\ \A a \in 1..Len(X.refs) : X.refs[a] > 0
   /\ X.injective => Cardinality({X.refs[a] : a \in 1..Len(X.refs)}) = Len(X.refs)
SetsIndependent == X.k = "sets" => X.alone = X.together /\ \A a \in 1..Len(X.alone) : \A b \in 1..Len(X.alone[a]) : X.alone[a][b] > 0
\* sets with different constants give different outputs
SetsDistinct == X.k = "sets" => \A b \in 1..Len(X.alone[1]) : Cardinality({X.alone[a][b] : a \in 1..Len(X.alone)}) = Len(X.alone)
ThreadsFinish == X.k = "thread" => X.ok
Accepted == TLCGet("stats").distinct > Len(Ev)
=============================================================================
