-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Polynomials over a Field record F.  A polynomial is the tuple of its    *)
(* coefficients, constant term first.  A monic polynomial of degree n is   *)
(* given as the tuple of its n lower coefficients; residues modulo it are  *)
(* tuples of length n.                                                     *)
(***************************************************************************)
EXTENDS LinAlg

\* x + c*y, coefficient by coefficient
Axpy(F, c, x, y) == IF F.small THEN TLCEval([i \in 1..Len(x) |-> FAdd(F, x[i], FMul(F, c, y[i]))])
                    ELSE BAxpy(c, x, y, F.p)
PZero(F, n) == TLCEval([i \in 1..n |-> FZero(F)])

\* (x - a) * q for a polynomial q (a full coefficient tuple)
MulLinear(F, q, a) ==
  TLCEval([i \in 1..(Len(q) + 1) |-> FSub(F, IF i = 1 THEN FZero(F) ELSE q[i - 1], IF i > Len(q) THEN FZero(F) ELSE FMul(F, a, q[i]))])

(* ------------------------------ residues modulo f ----------------------- *)
\* X * a mod f:  the top coefficient wraps around through f
MulX(F, f, a) ==
  LET n == Len(f)
      sh == TLCEval([i \in 1..n |-> IF i = 1 THEN FZero(F) ELSE a[i - 1]])
  IN IF a[n] = FZero(F) THEN sh ELSE Axpy(F, FNeg(F, a[n]), sh, f)
RECURSIVE MulFrom2(_, _, _, _, _, _)
\* Horner over the coefficients of b, highest first
MulFrom2(F, f, a, b, i, acc) ==
  IF i = 0 THEN acc
  ELSE MulFrom2(F, f, a, b, i - 1, TLCEval(Axpy(F, b[i], MulX(F, f, acc), a)))
MulMod(F, f, a, b) == MulFrom2(F, f, a, b, Len(f), PZero(F, Len(f)))

\* bit k of the modulus
PBit(F, k) == IF F.small THEN (F.p \div (2 ^ k)) % 2 ELSE LimbBit(F.p, k)
PLen(F) == IF F.small THEN 15 ELSE 24 * Len(F.p)
RECURSIVE PowFrom2(_, _, _, _, _)
PowFrom2(F, f, a, k, acc) ==
  IF k < 0 THEN acc
  ELSE LET sq == TLCEval(MulMod(F, f, acc, acc))
       IN PowFrom2(F, f, a, k - 1, TLCEval(IF PBit(F, k) = 1 THEN MulMod(F, f, sq, a) ELSE sq))
ResOne(F, f) == TLCEval([i \in 1..Len(f) |-> IF i = 1 THEN FOne(F) ELSE FZero(F)])
\* the residue of X (for degree 1 that is the constant -f[1])
ResX(F, f) == IF Len(f) = 1 THEN <<FNeg(F, f[1])>>
              ELSE TLCEval([i \in 1..Len(f) |-> IF i = 2 THEN FOne(F) ELSE FZero(F)])
\* X^p mod f
XToP(F, f) == PowFrom2(F, f, ResX(F, f), PLen(F) - 1, ResOne(F, f))
RECURSIVE ComposeFrom(_, _, _, _, _, _)
ComposeFrom(F, f, a, h, i, acc) ==
  IF i = 0 THEN acc
  ELSE LET m == TLCEval(MulMod(F, f, acc, h))
       IN ComposeFrom(F, f, a, h, i - 1, TLCEval([m EXCEPT ![1] = FAdd(F, @, a[i])]))
\* a(h(X)) mod f.  With h = X^p this is a(X)^p, since the coefficients are in the prime field.
Compose(F, f, a, h) == ComposeFrom(F, f, a, h, Len(f), PZero(F, Len(f)))

(* ------------------------------ common divisors ------------------------- *)
RECURSIVE Trim(_, _)
\* drop leading zeros
Trim(F, a) == IF a # <<>> /\ a[Len(a)] = FZero(F) THEN Trim(F, SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE RemBy(_, _, _)
\* remainder of a by b (both trimmed, b non-zero)
RemBy(F, a, b) ==
  IF Len(a) < Len(b) THEN a
  ELSE LET c == FMul(F, a[Len(a)], FInv(F, b[Len(b)]))
           s == Len(a) - Len(b)
           shifted == TLCEval([i \in 1..Len(a) |-> IF i <= s THEN FZero(F) ELSE b[i - s]])
       IN RemBy(F, TLCEval(Trim(F, Axpy(F, FNeg(F, c), a, shifted))), b)
RECURSIVE GcdDeg(_, _, _)
\* degree of the greatest common divisor; -1 for two zeros
GcdDeg(F, a, b) == IF b = <<>> THEN Len(a) - 1 ELSE GcdDeg(F, b, TLCEval(RemBy(F, a, b)))
\* f (monic, lower coefficients given) and the residue a have no common factor
Coprime(F, f, a) == GcdDeg(F, Append(f, FOne(F)), Trim(F, a)) = 0

(* ------------------------------ irreducibility -------------------------- *)
ResSub(F, a, b) == TLCEval([i \in 1..Len(a) |-> FSub(F, a[i], b[i])])
RECURSIVE NoFactorFrom(_, _, _, _, _)
\* y = X^(p^(i-1)); no irreducible factor of degree i, i+1, ..., n/2
NoFactorFrom(F, f, h, y, i) ==
  IF 2 * i > Len(f) THEN TRUE
  ELSE LET z == TLCEval(Compose(F, f, y, h))
       IN /\ Coprime(F, f, ResSub(F, z, ResX(F, f)))
          /\ NoFactorFrom(F, f, h, z, i + 1)
\* A polynomial of degree n is irreducible iff it has no factor of degree at most n/2; the product of
\* all irreducible polynomials whose degree divides i is X^(p^i) - X.
Irreducible(F, f) == Len(f) = 1 \/ LET h == TLCEval(XToP(F, f)) IN NoFactorFrom(F, f, h, ResX(F, f), 1)

PrimesDividing(n) == {q \in 2..n : n % q = 0 /\ \A k \in 2..(q - 1) : q % k # 0}
RECURSIVE FrobFrom(_, _, _, _, _)
FrobFrom(F, f, h, y, k) == IF k = 0 THEN y ELSE FrobFrom(F, f, h, TLCEval(Compose(F, f, y, h)), k - 1)
RECURSIVE ApartFrom(_, _, _, _, _, _, _)
\* b^i # a^i for i = 1..n  (u = b^(i-1), v = a^(i-1))
ApartFrom(F, f, b, a, u, v, n) ==
  n = 0 \/ LET u1 == TLCEval(MulMod(F, f, u, b))
               v1 == TLCEval(MulMod(F, f, v, a))
           IN u1 # v1 /\ ApartFrom(F, f, b, a, u1, v1, n - 1)
\* Let a matrix have the irreducible characteristic polynomial f of degree n; it then generates the
\* field of p^n elements.  Its i-th power has an irreducible minimal polynomial of degree n as well,
\* unless it lies in a proper subfield, that is, unless X^i is fixed by raising to p^(n/q) for a prime q.
PowersGenerate(F, f, upto) ==
  LET h == TLCEval(XToP(F, f))
  IN \A q \in PrimesDividing(Len(f)) :
       ApartFrom(F, f, FrobFrom(F, f, h, ResX(F, f), Len(f) \div q), ResX(F, f), ResOne(F, f), ResOne(F, f), upto)
=============================================================================
