----------------------------- MODULE TraceField -----------------------------
(***************************************************************************)
(* C18.  The field types the crate exports, read from the running code:    *)
(* modulus, generator, two-adicity and root of unity ("field" events), and *)
(* recorded arithmetic ("arith" events) against BigField; "more" events    *)
(* cover the derived operations: sums of products, in-place and assigning  *)
(* forms, text and byte encodings, machine-integer conversions, the        *)
(* Legendre symbol, square roots and the order.                            *)
(***************************************************************************)
EXTENDS FieldDef, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
VARIABLES e, go
Init == e \in 1..Len(Ev) /\ go = FALSE
Next == ~go /\ go' = TRUE /\ UNCHANGED e
Spec == Init /\ [][Next]_<<e, go>>
X == Ev[e]
P == Modulus(X.f)
F == PField(X.f)

DefinitionMatches ==
  go /\ X.k = "field" =>
    /\ FactorsExact(X.f)
    /\ X.p = P /\ X.bits = BitLen(P) /\ X.ext = 1
    /\ X.zero = BZeroOf(P) /\ X.one = BOneOf(P)
    /\ FCanon(F, X.gen) /\ Primitive(X.f, X.gen)
    /\ X.two_adicity = TwoAdicity(X.f)
    /\ FCanon(F, X.root) /\ HasOrder2(X.root, TwoAdicity(X.f), P)
\* r = add, sub, mul, neg, double, square, a^(5 + 3*2^128), bytes round trip, integer round trip
E2 == TLCEval([i \in 1..6 |-> CASE i = 1 -> 5 [] i = 6 -> 768 [] OTHER -> 0])
ArithmeticMatches ==
  go /\ X.k = "arith" =>
    /\ X.ok
    /\ X.r = <<BAdd(X.a, X.b, P), BSub(X.a, X.b, P), BMul(X.a, X.b, P), BSub(BZeroOf(P), X.a, P),
               BAdd(X.a, X.a, P), BMul(X.a, X.a, P), BPow(X.a, E2, P), X.a, X.a>>
    /\ X.has_inv = (X.a # BZeroOf(P))
    /\ X.has_inv => BMul(X.a, X.inv, P) = BOneOf(P) /\ FCanon(F, X.inv)
    /\ X.eq = (X.a = X.b) /\ X.a_zero = (X.a = BZeroOf(P)) /\ X.b_one = (X.b = BOneOf(P))
\* an unsigned integer of any number of limbs, reduced
RECURSIVE LimbsMod(_, _)
LimbsMod(l, i) == IF i > Len(l) THEN BZeroOf(P)
                  ELSE BAdd([BZeroOf(P) EXCEPT ![1] = l[i]],
                            BMul([BZeroOf(P) EXCEPT ![2] = 1], LimbsMod(l, i + 1), P), P)
Value(l) == LimbsMod(l, 1)
\* Euler's criterion: 0 for zero, 1 for a square, 2 for a non-square
Euler(a) == IF a = BZeroOf(P) THEN 0 ELSE IF BPow(a, Factors(X.f)[1].cof, P) = BOneOf(P) THEN 1 ELSE 2
MoreMatches ==
  go /\ X.k = "more" =>
    LET a == X.a
        b == X.b
        c == X.c
        mul(x, y) == BMul(x, y, P)
        add(x, y) == BAdd(x, y, P)
        neg(x) == BSub(BZeroOf(P), x, P)
        n == [i \in 1..1 |-> X.nbytes]
    IN /\ X.ok
       /\ X.r = <<add(add(mul(a, b), mul(b, c)), mul(c, a)), add(add(a, b), c), mul(mul(a, b), c),
                  BSub(mul(add(a, b), c), a, P), neg(mul(add(a, a), add(a, a))),
                  a, a, add(mul(a, BPow(Value(<<256>>), n, P)), b), a,
                  Value(X.s), Value(X.st), neg(Value(X.s1))>>
       /\ X.leg = Euler(a)
       /\ X.has_sqrt = (Euler(a) # 2)
       /\ X.has_sqrt => FCanon(F, X.sqrt) /\ mul(X.sqrt, X.sqrt) = a
       /\ X.cmp = (IF a = b THEN 1 ELSE IF BLess(a, b) THEN 0 ELSE 2)
Accepted == /\ {Ev[i].f : i \in {j \in 1..Len(Ev) : Ev[j].k = "field"}} = FieldNames
            /\ TLCGet("stats").distinct = 2 * Len(Ev)
=============================================================================
