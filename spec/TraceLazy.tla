------------------------------ MODULE TraceLazy ------------------------------
(***************************************************************************)
(* C14.  Recorded first uses: in each of several processes, eight threads  *)
(* race to the first use of every published set and use it again later.    *)
(* An observation <<thread, address, digest of the value>> is a Read step  *)
(* of Lazy; the set of values seen so far must stay a singleton.  The      *)
(* digests of fixed sets must also agree between processes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
ASSUME TLCSet(7, TLCEval(Ev))
E(i) == TLCGet(7)[i]
VARIABLES e, i, seen
vars == <<e, i, seen>>
Init == e \in 1..Len(Ev) /\ i = 0 /\ seen = {}
Read == /\ i < Len(E(e).obs) /\ i' = i + 1 /\ UNCHANGED e
        /\ seen' = seen \cup {<<E(e).obs[i + 1][2], E(e).obs[i + 1][3]>>}
Spec == Init /\ [][Read]_vars
NoFailure == <<"panic", "panic">> \notin seen
OneValue  == Cardinality(seen) <= 1
SameEverywhere ==
  i = 1 /\ E(e).fixed => \A k \in 1..Len(Ev) : E(k).name = E(e).name => E(k).obs[1][3] = E(e).obs[1][3]
Accepted == TLCGet("stats").distinct > Len(Ev)
=============================================================================
