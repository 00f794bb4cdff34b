------------------------------ MODULE BigField ------------------------------
(***************************************************************************)
(* Arithmetic modulo a prime too large for TLC's 32-bit integers.          *)
(*                                                                         *)
(* A natural number is a fixed-length tuple of limbs, base 2^24, least     *)
(* significant limb first; all numbers of one field have the length of     *)
(* its modulus.  The operators *Pure are the definitions: plain TLA+ that  *)
(* never leaves 32 bits (TLCEval is the identity).  BAdd, BSub, BMul, BPow, BInv, BRed, BAxpy are equal to  *)
(* them by definition and are evaluated by TLC through a Java accelerator  *)
(* (java/verif/BigFieldOverrides.java).  MCBigField checks the             *)
(* accelerator against the definitions.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Base == 16777216

(* ------------------------- unsigned limb arithmetic -------------------- *)
RECURSIVE LimbAdd(_, _, _, _)
\* <<limbs, carry>> of a + b + c from limb i upwards
LimbAdd(a, b, i, c) ==
  IF i > Len(a) THEN <<<<>>, c>>
  ELSE LET s == a[i] + b[i] + c
           r == TLCEval(LimbAdd(a, b, i + 1, s \div Base))
       IN TLCEval(<<<<s % Base>> \o r[1], r[2]>>)

RECURSIVE LimbSub(_, _, _, _)
\* <<limbs, borrow>> of a - b - c from limb i upwards
LimbSub(a, b, i, c) ==
  IF i > Len(a) THEN <<<<>>, c>>
  ELSE LET s == a[i] - b[i] - c
           r == TLCEval(LimbSub(a, b, i + 1, IF s < 0 THEN 1 ELSE 0))
       IN TLCEval(<<<<IF s < 0 THEN s + Base ELSE s>> \o r[1], r[2]>>)

\* Reduce a number < 2*p, given as limbs plus carry limb, modulo p.
CondSub(sum, carry, p) ==
  LET d == TLCEval(LimbSub(sum, p, 1, 0))
  IN IF carry = 1 \/ d[2] = 0 THEN d[1] ELSE sum

BZeroOf(p) == [i \in 1..Len(p) |-> 0]
BOneOf(p)  == [i \in 1..Len(p) |-> IF i = 1 THEN 1 ELSE 0]

BAddPure(a, b, p) ==
  LET s == TLCEval(LimbAdd(a, b, 1, 0)) IN CondSub(s[1], s[2], p)

BSubPure(a, b, p) ==
  LET d == LimbSub(a, b, 1, 0)
  IN IF d[2] = 0 THEN d[1] ELSE LimbAdd(d[1], p, 1, 0)[1]

\* Bit k (0 = least significant) of a limb tuple.
LimbBit(b, k) == (b[(k \div 24) + 1] \div (2 ^ (k % 24))) % 2

RECURSIVE MulFrom(_, _, _, _, _)
\* Double-and-add, most significant bit first.
MulFrom(a, b, p, k, acc) ==
  IF k < 0 THEN acc
  ELSE LET dbl == TLCEval(BAddPure(acc, acc, p))
       IN MulFrom(a, b, p, k - 1, TLCEval(IF LimbBit(b, k) = 1 THEN BAddPure(dbl, a, p) ELSE dbl))
BMulPure(a, b, p) == MulFrom(a, b, p, 24 * Len(b) - 1, BZeroOf(p))

RECURSIVE PowFrom(_, _, _, _, _)
\* Square-and-multiply over the bits of a limb-tuple exponent.
PowFrom(a, e, p, k, acc) ==
  IF k < 0 THEN acc
  ELSE LET sq == TLCEval(BMulPure(acc, acc, p))
       IN PowFrom(a, e, p, k - 1, TLCEval(IF LimbBit(e, k) = 1 THEN BMulPure(sq, a, p) ELSE sq))
BPowPure(a, e, p) == PowFrom(a, e, p, 24 * Len(e) - 1, BOneOf(p))

\* Fermat inverse; p is prime.
BInvPure(a, p) ==
  BPowPure(a, LimbSub(p, [i \in 1..Len(p) |-> IF i = 1 THEN 2 ELSE 0], 1, 0)[1], p)

RECURSIVE RedFrom(_, _, _, _)
\* Value of a big-endian bit string (a sequence of 0/1) modulo p.
RedFrom(bits, p, i, acc) ==
  IF i > Len(bits) THEN acc
  ELSE LET dbl == TLCEval(BAddPure(acc, acc, p))
       IN RedFrom(bits, p, i + 1, TLCEval(IF bits[i] = 1 THEN BAddPure(dbl, BOneOf(p), p) ELSE dbl))
BRedBitsPure(bits, p) == RedFrom(bits, p, 1, BZeroOf(p))

\* a < b as natural numbers of the same number of limbs
BLessPure(a, b) == LimbSub(a, b, 1, 0)[2] = 1

\* x + c*y for tuples of elements
BAxpyPure(c, x, y, p) == TLCEval([i \in 1..Len(x) |-> BAddPure(x[i], BMulPure(c, y[i], p), p)])

(* --------------------- accelerated by the Java override ---------------- *)
BAdd(a, b, p)      == BAddPure(a, b, p)
BSub(a, b, p)      == BSubPure(a, b, p)
BMul(a, b, p)      == BMulPure(a, b, p)
BPow(a, e, p)      == BPowPure(a, e, p)
BInv(a, p)         == BInvPure(a, p)
BRedBits(bits, p)  == BRedBitsPure(bits, p)
BLess(a, b)        == BLessPure(a, b)
BAxpy(c, x, y, p)  == BAxpyPure(c, x, y, p)
=============================================================================
