------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* C12.  The preconditions of the public API: which calls must be rejected *)
(* (the crate rejects by panicking, never by returning a wrong value) and  *)
(* which must be served.  TLC enumerates Calls and writes each as a line   *)
(* of JSON; TraceGuards judges what the real code did with it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

P2W == {2, 3, 4, 8, 12, 16, 20, 24}
Fns(alg) == IF alg \in {"po", "gm"} THEN {"perm", "perm_plain"} ELSE {"perm"}
PermWidths(alg) == CASE alg = "p2" -> P2W [] alg = "ne" -> {2, 4, 6, 8, 10} [] alg = "gm" -> 2..18 [] OTHER -> 2..9
Lens(t) == {l \in {0, 1, t - 2, t - 1, t, t + 1, t + 2, 2 * t, 3 * t, 24, 30, 100, t + 256, t + 65536} : l >= 0}

\* the degree is d + dhi * 2^32
New(a, t, d, dhi, f, p) == [op |-> "new", alg |-> a, t |-> t, d |-> d, dhi |-> dhi, rf |-> f, rp |-> p]
Algs == {"p2", "po", "gm", "ne"}
Rps(a) == IF a = "po" THEN {1, 4} ELSE {0, 1, 4}
NewCalls == UNION {{New(a, t, d, 0, f, p) : t \in {2, 3, 4, 5, 8}, d \in 0..13, f \in 0..5, p \in Rps(a)} : a \in Algs}
\* degrees far outside, among them those that agree with a legal one modulo a power of two
       \cup {New(a, 4, d, 0, 4, 1) : a \in Algs, d \in 14..70 \cup 254..270 \cup 509..526 \cup 65533..65550 \cup {16777219, 16777221, 16777223, 16777227}}
       \cup {New(a, 4, d, 1, 4, 1) : a \in Algs, d \in 0..13}
\* many rounds
       \cup {New(a, 4, 5, 0, f, p) : a \in Algs, f \in {31, 64, 65, 127, 128, 255, 256, 257}, p \in {1, 64, 255, 256, 257}}
\* wide states
       \cup {New(a, t, 3, 0, f, 1) : a \in Algs, t \in 2..40 \cup {63, 64, 65}, f \in {2, 3}}
MdsCalls == {[op |-> "mds", alg |-> "po", t |-> t, rows |-> r] : t \in 2..7, r \in 1..9}
PermCalls == UNION {UNION {{[op |-> "perm", alg |-> a, t |-> t, len |-> l, fn |-> f] :
               l \in Lens(t), f \in Fns(a)} : t \in PermWidths(a)} : a \in {"p2", "po", "gm", "ne"}}
WidthCalls == {[op |-> "width", alg |-> "p2", t |-> t, rf |-> x[1], rp |-> x[2]] :
               t \in 1..30, x \in {<<0, 1>>, <<2, 0>>, <<2, 2>>, <<4, 1>>}}
RowCalls == {[op |-> "rows", alg |-> a, t |-> t, have |-> h, fn |-> f] :
               a \in {"p2", "po"}, t \in {2, 3, 4}, h \in 0..7, f \in {"perm", "perm_plain"}}
CompressCalls == UNION {{[op |-> "compress", alg |-> a, t |-> t] : t \in PermWidths(a)} : a \in {"p2", "po", "gm", "ne"}}
CmpNCalls == {[op |-> "cmpn", alg |-> a, n |-> n] : a \in Algs, n \in 0..2}
\* the published sets, in the order the harness visits them: 15 Poseidon2, 15 Poseidon, then GMiMC and Neptune
PubCalls == {[op |-> "pub", alg |-> "", i |-> i, off |-> o, fn |-> f] : i \in 1..85, o \in {-1, 0, 1}, f \in {"perm", "perm_plain"}}
MerkleCalls == {[op |-> "merkle", alg |-> "", kind |-> k, n |-> n] : k \in 1..4, n \in 0..9}
InvCalls == {[op |-> "inv", alg |-> "", rows |-> r, cols |-> c] : r \in 1..9, c \in 1..9}
Calls == NewCalls \cup MdsCalls \cup PermCalls \cup WidthCalls \cup RowCalls \cup CompressCalls \cup CmpNCalls \cup PubCalls \cup MerkleCalls \cup InvCalls

Legal(c) ==
  CASE c.op = "new" -> /\ c.dhi = 0
                       /\ c.d \in (IF c.alg = "p2" THEN {3, 5, 7, 11} ELSE {3, 5, 7})
                       /\ c.alg # "gm" => c.rf % 2 = 0
                       /\ c.alg = "ne" => c.t % 2 = 0
    [] c.op = "mds" -> c.rows = c.t
    [] c.op = "perm" -> c.len = c.t
    [] c.op = "width" -> c.t \in P2W
    [] c.op = "rows" -> c.have >= 7          \* 4 full and 3 partial rounds
    [] c.op = "compress" -> c.t = IF c.alg = "ne" THEN 4 ELSE 3
    [] c.op = "cmpn" -> c.n = 2
    [] c.op = "pub" -> c.off = 0
    [] c.op = "merkle" -> c.n > 0
    [] c.op = "inv" -> c.rows = c.cols

\* Poseidon2's width is checked at the latest by the first permutation; a constructor may already do it
MustServe(c) == Legal(c) /\ (c.op = "new" /\ c.alg = "p2" => c.t \in P2W)

VARIABLE c
Init == c \in Calls
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c
Write == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.GEN_OUT \o "/calls.ndjson")
=============================================================================
