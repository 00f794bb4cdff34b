----------------------------- MODULE TraceShape -----------------------------
(***************************************************************************)
(* C08.  Each published set, read from the running crate, has the field,   *)
(* width, S-box degree and round numbers that Instances lists for it.      *)
(* shape = <<t, d, R_F, R_P>>; a zero means the crate does not show that   *)
(* number (then only the permutation itself, checked by TracePerm on the   *)
(* same trace, shows it).                                                  *)
(***************************************************************************)
EXTENDS Instances, Json, IOUtils, TLC

All == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
Ev  == SelectSeq(All, LAMBDA x : x.k = "shape")
VARIABLE e
Init == e \in 1..Len(Ev)
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e

X == Inst(Ev[e].alg, Ev[e].f, Ev[e].t)
Shown(v, w) == v = 0 \/ v = w
Known == \E x \in Published : x.alg = Ev[e].alg /\ x.f = Ev[e].f /\ x.t = Ev[e].t
FieldMatches  == Ev[e].p = Modulus(X.f)
WidthMatches  == Ev[e].get_t = X.t /\ Shown(Ev[e].shape[1], X.t)
DegreeMatches == Shown(Ev[e].shape[2], X.d)
RoundsMatch   == /\ Shown(Ev[e].shape[3], X.rf) /\ Shown(Ev[e].shape[4], X.rp)
                 /\ Shown(Ev[e].rounds, X.rf + X.rp)
Accepted == /\ {<<Ev[i].alg, Ev[i].f, Ev[i].t>> : i \in 1..Len(Ev)} = {<<x.alg, x.f, x.t>> : x \in Published}
            /\ TLCGet("stats").distinct = Len(Ev)
=============================================================================
