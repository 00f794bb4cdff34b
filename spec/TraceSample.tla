----------------------------- MODULE TraceSample -----------------------------
(***************************************************************************)
(* C17.  Random sampling.  The specification of the sampler is a uniform   *)
(* choice from F (or from F without 0); a recorded batch is accepted when  *)
(* its counts and their running totals lie within seven standard           *)
(* deviations of uniform (a false alarm has probability below 1e-6 per     *)
(* run), never contains a value                                            *)
(* outside the support, and repeats no value of a large field.  Parameter  *)
(* sets built twice with the same arguments share no constant ("fresh"),   *)
(* no drawn constants survive into another process ("procs"), and threads  *)
(* of one process share none ("threads").                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
VARIABLE e
Init == e \in 1..Len(Ev)
Spec == Init /\ [][FALSE /\ UNCHANGED e]_e
X == Ev[e]
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE IsqrtFrom(_, _, _)
IsqrtFrom(n, lo, hi) == IF lo >= hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= n \div m THEN IsqrtFrom(n, m, hi) ELSE IsqrtFrom(n, lo, m - 1)
Isqrt(n) == IsqrtFrom(n, 0, 46340)

\* small fields: q equally likely values
Support == IF X.what = "nonzero" THEN X.F.p - 1 ELSE X.F.p
UniformSmall ==
  X.k = "sample" =>
    /\ X.what = "nonzero" => X.cnt[1] = 0
    /\ \A v \in (IF X.what = "nonzero" THEN 2 ELSE 1)..X.F.p :
          Abs(X.cnt[v] * Support - X.n) <= 7 * (Isqrt(X.n) + 1) * (Isqrt(Support) + 1)
\* shipped fields: the leading byte (p12 = leading 12 bits of p) and the single bits
UniformTop ==
  X.k = "sampleb" /\ X.n >= 20000 =>
    \A b \in 0..255 :
      IF b < X.ptop THEN Abs(X.top[b + 1] * X.p12 - X.n * 16) <= 7 * (Isqrt(X.p12) + 1) * (Isqrt(X.n * 16) + 1)
      ELSE IF b = X.ptop THEN X.top[b + 1] * X.p12 <= X.n * 16 + 7 * (Isqrt(X.p12) + 1) * (Isqrt(X.n * 16) + 1)
      ELSE X.top[b + 1] = 0
\* running totals: a slope over the whole range shows here long before it shows in one class
RECURSIVE Sum(_, _, _)
Sum(c, i, k) == IF i > k THEN 0 ELSE c[i] + Sum(c, i + 1, k)
CumTop == X.k = "sampleb" /\ X.n >= 200 =>
    \A b \in 0..(X.ptop - 1) :
      Abs(Sum(X.top, 1, b + 1) * X.p12 - X.n * 16 * (b + 1)) <= 4 * (Isqrt(X.n) + 1) * X.p12 + 2 * X.n
CumSmall == X.k = "sample" =>
    LET f == X.F.p - Support + 1 IN
    \A v \in f..X.F.p : Abs(Sum(X.cnt, f, v) * Support - X.n * (v - f + 1)) <= 4 * (Isqrt(X.n) + 1) * Support
UniformBits ==
  X.k = "sampleb" => \A k \in 1..(X.bits - 12) : Abs(2 * X.ones[k] - X.n) <= 7 * (Isqrt(X.n) + 1)
NoRepeat == X.k = "sampleb" /\ X.bits >= 28 => X.distinct >= (IF X.bits > 40 THEN X.n ELSE X.n - 200)
NeverZero == X.k = "sampleb" /\ X.what = "nonzero" => X.zeros = 0
Fresh == X.k = "fresh" => X.same = 0 /\ X.pairs = 0 /\ X.clone_same /\ X.len[1] = X.n /\ X.len[2] = X.n
FreshProcess == X.k = "procs" => X.same = 0 /\ X.n > 0
\* several threads of one process: nothing drawn twice, nothing missing
FreshThreads == X.k = "threads" => X.distinct = X.total /\ \A i \in 1..Len(X.lens) : X.lens[i] = X.lens[1] /\ X.lens[i] > 0
Accepted == TLCGet("stats").distinct = Len(Ev)
=============================================================================
