-------------------------------- MODULE Grain --------------------------------
(***************************************************************************)
(* The self-shrinking Grain LFSR from which the constants and matrices of  *)
(* the published Poseidon and Poseidon2 instances are derived (eprint      *)
(* 2019/458 appendix; poseidon2_rust_params.sage).  A generator state is   *)
(* [reg |-> the 80 register bits, buf |-> accepted bits not yet used].     *)
(* Taps reach back 80 - 62 = 18 places, so 18 clocks (9 pairs) are taken   *)
(* at a time.                                                              *)
(***************************************************************************)
EXTENDS LinAlg, Instances

RECURSIVE BitsBE(_, _)
\* the w-bit big-endian binary representation of n
BitsBE(n, w) == IF w = 0 THEN <<>> ELSE BitsBE(n \div 2, w - 1) \o <<n % 2>>

\* field flag 1 (prime field), S-box flag, n, t, R_F, R_P, thirty ones
GrainSeed(sbox, n, t, rf, rp) ==
  BitsBE(1, 2) \o BitsBE(sbox, 4) \o BitsBE(n, 12) \o BitsBE(t, 12) \o BitsBE(rf, 10) \o BitsBE(rp, 10)
  \o [i \in 1..30 |-> 1]

New18(r) == TLCEval([i \in 1..18 |-> (r[i + 62] + r[i + 51] + r[i + 38] + r[i + 23] + r[i + 13] + r[i]) % 2])
New16(r) == TLCEval([i \in 1..16 |-> (r[i + 62] + r[i + 51] + r[i + 38] + r[i + 23] + r[i + 13] + r[i]) % 2])
\* discard the first 160 bits
GrainInit(seed) ==
  [reg |-> FoldLeft(LAMBDA r, k : SubSeq(r, 17, 80) \o New16(r), seed, Iota(10)), buf |-> <<>>]

\* of each pair (a, b) of output bits keep b if a = 1
Shrink(x) ==
  LET P(k) == IF x[2 * k - 1] = 1 THEN <<x[2 * k]>> ELSE <<>>
  IN P(1) \o P(2) \o P(3) \o P(4) \o P(5) \o P(6) \o P(7) \o P(8) \o P(9)

RECURSIVE Fill(_, _, _)
Fill(reg, buf, n) ==
  IF Len(buf) >= n THEN [reg |-> reg, buf |-> buf]
  ELSE LET x == New18(reg) IN Fill(TLCEval(SubSeq(reg, 19, 80) \o x), TLCEval(buf \o Shrink(x)), n)

\* the next n accepted bits: [bits, g]
GrainBits(g, n) ==
  LET f == Fill(g.reg, g.buf, n)
  IN [bits |-> SubSeq(f.buf, 1, n), g |-> [reg |-> f.reg, buf |-> SubSeq(f.buf, n + 1, Len(f.buf))]]

\* An n-bit string as an unreduced natural in the limbs of p (n is the bit length of p).
LimbsOf(bits, nl) ==
  LET n == Len(bits)
      bit(k) == IF k < n THEN bits[n - k] ELSE 0
      RECURSIVE W(_, _, _)
      W(i, k, acc) == IF k < 0 THEN acc ELSE W(i, k - 1, 2 * acc + bit(24 * i + k))
  IN TLCEval([i \in 1..nl |-> W(i - 1, 23, 0)])

RECURSIVE GrainElem(_, _, _)
\* next field element by rejection sampling (round constants)
GrainElem(g, n, p) ==
  LET b == GrainBits(g, n)
      v == LimbsOf(b.bits, Len(p))
  IN IF BLess(v, p) THEN [v |-> v, g |-> b.g] ELSE GrainElem(b.g, n, p)
\* next field element by reduction (matrix entries)
GrainMod(g, n, p) == LET b == GrainBits(g, n) IN [v |-> BRedBits(b.bits, p), g |-> b.g]

RECURSIVE Draw(_, _, _, _, _, _)
\* k elements; rej selects rejection sampling or reduction
Draw(g, n, p, k, rej, acc) ==
  IF k = 0 THEN [vs |-> acc, g |-> g]
  ELSE LET e == IF rej THEN GrainElem(g, n, p) ELSE GrainMod(g, n, p)
       IN Draw(e.g, n, p, k - 1, rej, Append(acc, e.v))

\* Poseidon2 partial rounds have a constant for cell 1 only
RowLen(alg, t, rf, rp, r) == IF alg = "p2" /\ r > rf \div 2 /\ r <= rf \div 2 + rp THEN 1 ELSE t
PadRow(F, row, t) == TLCEval([i \in 1..t |-> IF i <= Len(row) THEN row[i] ELSE FZero(F)])

RECURSIVE GrainRows(_, _, _, _)
GrainRows(x, g, r, acc) ==
  IF r > x.rf + x.rp THEN [rc |-> acc, g |-> g]
  ELSE LET F == PField(x.f)
           d == Draw(g, Bits(x.f), F.p, RowLen(x.alg, x.t, x.rf, x.rp, r), TRUE, <<>>)
       IN GrainRows(x, d.g, r + 1, Append(acc, PadRow(F, d.vs, x.t)))

GrainStart(x) == GrainInit(GrainSeed(IF x.alg = "po" THEN 1 ELSE 0, Bits(x.f), x.t, x.rf, x.rp))

\* Poseidon: Cauchy matrix 1/(x_i + y_j) from the next 2t elements
GrainMds(x, g) ==
  LET F == PField(x.f)
      l == Draw(g, Bits(x.f), F.p, 2 * x.t, FALSE, <<>>).vs
  IN TLCEval([i \in 1..x.t |-> TLCEval([j \in 1..x.t |-> FInv(F, FAdd(F, l[i], l[x.t + j]))])])

RECURSIVE Skip(_, _, _)
Skip(x, g, k) == IF k = 0 THEN g
                 ELSE Skip(x, Draw(g, Bits(x.f), Modulus(x.f), x.t, FALSE, <<>>).g, k - 1)
\* Poseidon2: diagonal of the internal matrix, minus one
GrainDiag(x, g) ==
  LET F == PField(x.f)
  IN CASE x.t = 2 -> <<FNat(F, 1), FNat(F, 2)>>
       [] x.t = 3 -> <<FNat(F, 1), FNat(F, 1), FNat(F, 2)>>
       [] OTHER -> LET l == Draw(Skip(x, g, DiagSkip(x.f, x.t)), Bits(x.f), F.p, x.t, FALSE, <<>>).vs
                   IN TLCEval([i \in 1..x.t |-> FSub(F, l[i], FOne(F))])

\* All constants of a published Poseidon or Poseidon2 set
GrainConstants(x) ==
  LET r == GrainRows(x, GrainStart(x), 1, <<>>)
  IN IF x.alg = "po" THEN [rc |-> r.rc, mds |-> GrainMds(x, r.g)]
     ELSE [rc |-> r.rc, diag |-> GrainDiag(x, r.g)]
=============================================================================
