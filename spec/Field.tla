------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Prime fields.  A field is a record F:                                   *)
(*   F.small = TRUE : F.p is an integer below 2^15.5, elements are the     *)
(*                    integers 0..p-1 (exhaustively checkable fields);     *)
(*   F.small = FALSE: F.p is a BigField limb tuple, elements are limb      *)
(*                    tuples of the same length (the six shipped fields).  *)
(* Everything below and everything built on it is written once for both.   *)
(***************************************************************************)
EXTENDS BigField

FAdd(F, a, b) == IF F.small THEN (a + b) % F.p ELSE BAdd(a, b, F.p)
FSub(F, a, b) == IF F.small THEN (a + F.p - b) % F.p ELSE BSub(a, b, F.p)
FMul(F, a, b) == IF F.small THEN (a * b) % F.p ELSE BMul(a, b, F.p)
FZero(F)      == IF F.small THEN 0 ELSE BZeroOf(F.p)
FOne(F)       == IF F.small THEN 1 % F.p ELSE BOneOf(F.p)

\* The image of a small natural number (below 2^24) in the field.
FNat(F, n)    == IF F.small THEN n % F.p
                 ELSE IF Len(F.p) = 1 THEN <<n % F.p[1]>>
                 ELSE [i \in 1..Len(F.p) |-> IF i = 1 THEN n ELSE 0]

FNeg(F, a)    == FSub(F, FZero(F), a)

RECURSIVE SmallPow(_, _, _)
SmallPow(a, e, p) == IF e = 0 THEN 1 % p
                     ELSE LET h == SmallPow(a, e \div 2, p)
                              s == (h * h) % p
                          IN IF e % 2 = 1 THEN (s * a) % p ELSE s

\* a^e for a natural number e that fits in 24 bits
FPow(F, a, e) == IF F.small THEN SmallPow(a, e, F.p) ELSE BPow(a, <<e>>, F.p)

\* multiplicative inverse of a non-zero element
FInv(F, a)    == IF F.small THEN SmallPow(a, F.p - 2, F.p) ELSE BInv(a, F.p)

\* canonical representation: the value is a reduced residue
FCanon(F, a)  == IF F.small THEN a \in 0..(F.p - 1)
                 ELSE /\ Len(a) = Len(F.p)
                      /\ \A i \in 1..Len(a) : a[i] \in 0..(Base - 1)
                      /\ BLess(a, F.p)

\* element whose big-endian bit string is given, modulo p
FBits(F, bits) == IF F.small THEN LET RECURSIVE G(_, _)
                                      G(i, acc) == IF i > Len(bits) THEN acc
                                                   ELSE G(i + 1, (2 * acc + bits[i]) % F.p)
                                  IN G(1, 0)
                  ELSE BRedBits(bits, F.p)
=============================================================================
