----------------------------- MODULE MCInstances -----------------------------
(***************************************************************************)
(* C08, the reason for the published numbers.  The tables of Instances     *)
(* satisfy the design rules of the papers, in exact integer arithmetic:    *)
(*  - d is the smallest odd prime coprime to p-1;                          *)
(*  - Poseidon/Poseidon2: R_F = 6 + 2 and R_P = ceil(1.075 x), x being the *)
(*    least number of partial rounds that, with 6 full ones, resists the   *)
(*    interpolation and Groebner-basis attacks at 128 bits;                *)
(*  - GMiMC: c = ceil(2 log_d p) (one more allowed);                       *)
(*  - Neptune: X = ceil(log_d(2) (min(128, log2 p) - 6) + 3 + t + log_d t). *)
(***************************************************************************)
EXTENDS FieldDef

VARIABLES x, go
Init == x \in Published /\ go = FALSE
Spec == Init /\ [][~go /\ go' = TRUE /\ UNCHANGED x]_<<x, go>>

RECURSIVE Cmp(_, _, _)
\* a <= b for stripped base-2^12 digit strings
Cmp(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] = b[i] THEN Cmp(a, b, i - 1) ELSE a[i] < b[i]
Leq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Cmp(a, b, Len(a)))
Nat12(n) == Strip(<<n % 4096, n \div 4096>>)
P12 == Strip(Digits12(Modulus(x.f)))
Two(n) == Pow12(<<2>>, n)
D(n) == Pow12(Nat12(x.d), n)
MinOf(a, b) == IF a < b THEN a ELSE b
\* min(2^128, p)
Cap == IF Leq(P12, Two(128)) THEN P12 ELSE Two(128)
RECURSIVE CeilLogFrom(_, _, _)
\* least k with d^k >= v
CeilLogFrom(v, k, acc) == IF Leq(v, acc) THEN k ELSE CeilLogFrom(v, k + 1, TLCEval(Strip(Mul12(acc, Nat12(x.d)))))
CeilLog(v) == CeilLogFrom(v, 0, <<1>>)

RECURSIVE ModSmall(_, _, _, _)
ModSmall(a, m, i, c) == IF i = 0 THEN c ELSE ModSmall(a, m, i - 1, (c * 4096 + a[i]) % m)
Coprime(d) == ModSmall(P12, d, Len(P12), 0) # 1
DegreeIsLeast == go => Coprime(x.d) /\ \A d \in {3, 5, 7} : d < x.d => ~Coprime(d)

\* d^n >= v is n >= CeilLog(v)
PoseidonRounds ==
  go /\ x.alg \in {"p2", "po"} =>
    LET l128 == CeilLog(Two(128))
        l64  == CeilLog(Two(64))
        lcap == CeilLog(Cap)
        lp   == CeilLog(P12)
        lbit == CeilLog(Two(MinOf(128, Bits(x.f))))
        lt   == CeilLog(Nat12(x.t))
        Interpolation(rp) == 6 + rp >= 1 + lbit + lt
        Groebner1(rp) == 6 + rp >= lcap
        Groebner2(rp) == rp + 7 >= x.t /\ ((x.t + 1) * (rp + 7 - x.t) >= l128 \/ 2 * (rp + 7 - x.t) >= lp)
        Groebner3(rp) == 5 * x.t - 4 + rp >= l64
        Resists(rp) == Interpolation(rp) /\ Groebner1(rp) /\ Groebner2(rp) /\ Groebner3(rp)
        Least == CHOOSE rp \in 0..200 : Resists(rp) /\ \A q \in 0..(rp - 1) : ~Resists(q)
    IN x.rf = 8 /\ x.rp = CeilDiv(1075 * Least, 1000)

GmimcBaseRight ==
  go /\ x.alg = "gm" => LET c == CeilLog(Strip(Mul12(P12, P12))) IN GmimcBase(x.f) \in {c, c + 1}
\* d^k * 64 >= cap * t > d^(k-1) * 64 with k = X - 3 - t
NeptuneRight ==
  go /\ x.alg = "ne" =>
    LET k == NeptuneX(x.f, x.t) - 3 - x.t
        v == Strip(Mul12(Cap, Nat12(x.t)))
        w(n) == Strip(Mul12(D(n), <<64>>))
    IN x.rf = 6 /\ Leq(v, w(k)) /\ ~Leq(v, w(k - 1))
=============================================================================
