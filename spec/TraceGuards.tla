---------------------------- MODULE TraceGuards ----------------------------
(* C12: a recorded call returned iff the specification allows it.          *)
EXTENDS Guards, FiniteSets
Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
VARIABLE e
TInit == e \in 1..Len(Ev) /\ c = Ev[e].call
TSpec == TInit /\ [][FALSE /\ UNCHANGED <<e, c>>]_<<e, c>>
IllegalRejected == Ev[e].returned => Legal(c)
LegalServed     == MustServe(c) => Ev[e].returned
Accepted == {Ev[i].call : i \in 1..Len(Ev)} = Calls
=============================================================================
