-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* C14, lazily built parameter sets.  A set is built by whichever thread   *)
(* uses it first; the others wait; all of them, forever after, see the one *)
(* value that was built.  Building draws fresh randomness for GMiMC and    *)
(* Neptune (a nondeterministic value), a fixed one for Poseidon and        *)
(* Poseidon2.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Values, Fixed
VARIABLES cell,      \* "empty", "building", "done"
          builder,   \* the building thread, 0 if none
          value,     \* what was stored
          pc,        \* per thread: "idle", "building", "waiting", "reading"
          obs        \* per thread: the values it has seen
vars == <<cell, builder, value, pc, obs>>
Init == /\ cell = "empty" /\ builder = 0 /\ value = 0
        /\ pc = [t \in Threads |-> "idle"] /\ obs = [t \in Threads |-> {}]
Enter(t) == /\ pc[t] = "idle"
            /\ \/ cell = "empty" /\ cell' = "building" /\ builder' = t /\ pc' = [pc EXCEPT ![t] = "building"]
               \/ cell = "building" /\ pc' = [pc EXCEPT ![t] = "waiting"] /\ UNCHANGED <<cell, builder>>
               \/ cell = "done" /\ pc' = [pc EXCEPT ![t] = "reading"] /\ UNCHANGED <<cell, builder>>
            /\ UNCHANGED <<value, obs>>
Build(t) == /\ pc[t] = "building" /\ builder = t
            /\ \E v \in Values : (Fixed => v = 1) /\ value' = v
            /\ cell' = "done" /\ builder' = 0 /\ pc' = [pc EXCEPT ![t] = "reading"] /\ UNCHANGED obs
Wake(t) == pc[t] = "waiting" /\ cell = "done" /\ pc' = [pc EXCEPT ![t] = "reading"] /\ UNCHANGED <<cell, builder, value, obs>>
Read(t) == /\ pc[t] = "reading" /\ obs' = [obs EXCEPT ![t] = @ \cup {value}]
           /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<cell, builder, value>>
Next == \E t \in Threads : Enter(t) \/ Build(t) \/ Wake(t) \/ Read(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Build(t) \/ Wake(t) \/ Read(t))

OneBuilder == Cardinality({t \in Threads : pc[t] = "building"}) <= 1
Seen == UNION {obs[t] : t \in Threads}
OneValue == Cardinality(Seen) <= 1 /\ (Fixed => Seen \subseteq {1}) /\ 0 \notin Seen
\* once stored, the value never changes
Stable == [][cell = "done" => cell' = "done" /\ value' = value]_vars
\* whoever starts a use gets a value
Served == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
