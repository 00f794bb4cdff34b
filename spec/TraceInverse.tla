---------------------------- MODULE TraceInverse ----------------------------
(***************************************************************************)
(* C06.  Every permutation is a bijection.  For recorded calls on the      *)
(* shipped fields the inverse permutation, which the code does not contain *)
(* and which uses inverse matrices and d-th roots, is run round by round   *)
(* from the recorded output and must end in the recorded input.  For small *)
(* fields the complete recorded image must have p^t elements.              *)
(***************************************************************************)
EXTENDS PermCtx, FiniteSets

(* ---- d-th roots: x^(1/d) = x^e with e*d = k(p-1)+1, 0 < k < d ----------- *)
RECURSIVE MulSmall(_, _, _, _)
MulSmall(a, k, i, c) == IF i > Len(a) THEN <<>>
                        ELSE LET v == a[i] * k + c IN <<v % Base>> \o MulSmall(a, k, i + 1, v \div Base)
RECURSIVE DivSmall(_, _, _, _)
\* <<quotient limbs, remainder>> of a by d, from limb i downwards with remainder c
DivSmall(a, d, i, c) == IF i = 0 THEN <<<<>>, c>>
                        ELSE LET v == c * Base + a[i]
                                 q == DivSmall(a, d, i - 1, v % d)
                             IN <<q[1] \o <<v \div d>>, q[2]>>
Inc(a) == [a EXCEPT ![1] = @ + 1]     \* p-1 is even and has a low limb of 0 times k: no carry
RootExp(p, d) ==
  LET pm1 == [p EXCEPT ![1] = @ - 1]  \* p is odd
      cand(k) == DivSmall(Inc(MulSmall(pm1 \o <<0>>, k, 1, 0)), d, Len(p) + 1, 0)
      k0 == CHOOSE k \in 1..(d - 1) : cand(k)[2] = 0
  IN cand(k0)[1]

Unprepare(k) ==
  CASE k.alg = "p2" -> [mei |-> Invert(k.F, k.me).inv, mii |-> Invert(k.F, k.mi).inv, e |-> RootExp(k.F.p, k.d)]
    [] k.alg = "po" -> [mei |-> Invert(k.F, k.mds).inv, mii |-> <<>>, e |-> RootExp(k.F.p, k.d)]
    [] k.alg = "ne" -> [mei |-> Invert(k.F, k.me).inv, mii |-> Invert(k.F, k.mi).inv, e |-> RootExp(k.F.p, k.d)]
    [] OTHER -> [mei |-> <<>>, mii |-> <<>>, e |-> <<>>]
\* the linear layers are invertible: always so for published sets, and (up to a chance below 2^-25) for
\* matrices drawn over a large field; freely chosen matrices, and drawn ones over small fields, may not
\* be, and then there is no bijection to check
Solvable(k) == CASE k.alg = "gm" -> TRUE
                 [] k.alg = "po" -> Invertible(k.F, k.mds)
                 [] OTHER -> Invertible(k.F, k.me) /\ Invertible(k.F, k.mi)
ASSUME TLCSet(9, TLCEval([i \in 1..Len(Ctx) |-> Solvable(InstOf(i))]))
ASSUME TLCSet(8, TLCEval([i \in 1..Len(Ctx) |->
          IF InstOf(i).F.small \/ ~TLCGet(9)[i] THEN [mei |-> <<>>, mii |-> <<>>, e |-> <<>>]
          ELSE TLCEval(Unprepare(InstOf(i)))]))
Bijective(i) == TLCGet(9)[i]
MustSolve(i) == Ctx[i].pub \/ (Ctx[i].alg = "ne" /\ ~InstOf(i).F.small)
InvOf(i) == TLCGet(8)[i]

Root(F, x, e) == BPow(x, e, F.p)

UnRound(k, q, s, r) ==
  CASE k.alg = "p2" ->
         LET u == MatVec(k.F, IF P2IsFull(k, r) THEN q.mei ELSE q.mii, s)
         IN TLCEval([i \in 1..k.t |-> IF P2IsFull(k, r) \/ i = 1 THEN FSub(k.F, Root(k.F, u[i], q.e), k.rc[r][i]) ELSE u[i]])
    [] k.alg = "po" ->
         LET u == MatVec(k.F, q.mei, s)
         IN TLCEval([i \in 1..k.t |-> FSub(k.F, IF PoIsFull(k, r) \/ i = 1 THEN Root(k.F, u[i], q.e) ELSE u[i], k.rc[r][i])])
    [] k.alg = "gm" -> GmUnRound(k, s, r)
    [] k.alg = "ne" ->
         LET v == [i \in 1..k.t |-> FSub(k.F, s[i], k.rc[r][i])]
         IN IF NeIsExternal(k, r)
            THEN LET u == MatVec(k.F, q.mei, v)
                     prs == TLCEval([h \in 1..(k.t \div 2) |-> NeUnSboxPair(k.F, k.gamma, u[2 * h - 1], u[2 * h])])
                 IN TLCEval([i \in 1..k.t |-> prs[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]])
            ELSE LET u == MatVec(k.F, q.mii, v)
                 IN TLCEval([i \in 1..k.t |-> IF i = 1 THEN Root(k.F, u[1], q.e) ELSE u[i]])
UnStart(k, q, s) == IF k.alg \in {"p2", "ne"} THEN MatVec(k.F, q.mei, s) ELSE s

VARIABLES e, r, s
vars == <<e, r, s>>
K == InstOf(Ev[e].c)
Q == InvOf(Ev[e].c)

\* r counts down; r = -1 after the initial linear layer has been undone
Init == /\ e \in 1..Len(Ev)
        /\ IF Ev[e].k = "io" /\ Bijective(Ev[e].c) THEN r = Rounds(K) /\ s = Ev[e].out ELSE r = -2 /\ s = <<>>
Back == r > 0 /\ Ev[e].ok /\ r' = r - 1 /\ s' = UnRound(K, Q, s, r) /\ UNCHANGED e
Undo == r = 0 /\ Ev[e].ok /\ r' = -1 /\ s' = UnStart(K, Q, s) /\ UNCHANGED e
Next == Back \/ Undo
Spec == Init /\ [][Next]_vars

CallReturns == Ev[e].k = "io" => Ev[e].ok /\ Len(Ev[e].out) = K.t
PublishedSolvable == MustSolve(Ev[e].c) => Bijective(Ev[e].c)
PreimageIsInput == r = -1 => s = Ev[e].in
\* a complete image: p^t distinct values of F^t (when the drawn Neptune matrices are invertible)
ImageComplete ==
  Ev[e].k = "img" /\ Bijective(Ev[e].c) =>
    LET img == {Ev[e].outs[i] : i \in 1..Len(Ev[e].outs)}
    IN /\ Len(Ev[e].outs) = K.F.p ^ K.t
       /\ \A y \in img : Len(y) = K.t /\ \A i \in 1..K.t : FCanon(K.F, y[i])
       /\ Cardinality(img) = K.F.p ^ K.t
StatesOf(i) == IF Ev[i].k = "io" /\ Bijective(Ev[i].c) THEN Rounds(InstOf(Ev[i].c)) + 2 ELSE 1
Accepted == TLCGet("stats").distinct = FoldLeft(LAMBDA acc, i : acc + StatesOf(i), 0, Iota(Len(Ev)))
=============================================================================
