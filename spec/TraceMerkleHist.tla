--------------------------- MODULE TraceMerkleHist ---------------------------
(***************************************************************************)
(* C10.  Replayed histories: "refs" events give, per kind of tree, the     *)
(* root number of each set on a fresh object (those trees are checked by   *)
(* TraceMerkle on the same trace); in every history every accumulation     *)
(* must return that number again.  -9 stands for a panic; an injected      *)
(* fault may or may not surface (-9, -8; 0 where it cannot be injected).   *)
(* "pairs": for a family of sets, set a then every other set then a again  *)
(* (on a clone) on one object.  "mt": the accumulations of one of several  *)
(* threads that hold clones of one object.                                 *)
(***************************************************************************)
EXTENDS MerkleHist, FiniteSets

All == ndJsonDeserialize(IOEnv.TRACE \o "/ev.ndjson")
ASSUME TLCSet(7, TLCEval(SelectSeq(All, LAMBDA x : x.k \in {"hist", "pairs", "mt"})))
ASSUME TLCSet(8, TLCEval(SelectSeq(All, LAMBDA x : x.k = "refs")))
N == Len(TLCGet(7))
H(i) == TLCGet(7)[i]
Refs(kind) == LET R == TLCGet(8) IN (CHOOSE i \in 1..Len(R) : R[i].kind = kind)
RefOf(kind, k) == TLCGet(8)[Refs(kind)].refs[k]

VARIABLES e, i
tvars == <<e, i, live, hist>>
TInit == e \in 1..N /\ i = 0 /\ live = {} /\ hist = <<>>
Size(x) == CASE x.k = "hist" -> Len(x.ops) [] x.k = "pairs" -> Len(x.row) [] OTHER -> Len(x.log)
O == H(e).ops[i + 1]
TNext == /\ i < Size(H(e)) /\ i' = i + 1 /\ UNCHANGED <<e, hist>>
         /\ live' = IF H(e).k = "hist" /\ O.op \in {"new", "clone"} THEN live \cup {O.o} ELSE live
TSpec == TInit /\ [][TNext]_tvars

Expected(kind, op) ==
  CASE op.op = "acc" -> {RefOf(kind, op.a).id}
    [] op.op = "fault" -> {-9, -8, 0}
    [] OTHER -> {0}
RefsRight == \A q \in {"f2", "fp", "orchard", "sapling"} : \A k \in 1..Len(Sets) :
   RefOf(q, k).leaves = Sets[k] /\ RefOf(q, k).ok = (Sets[k] # <<>>) /\ (RefOf(q, k).id = -9) = (Sets[k] = <<>>)
ReturnsRootOfSet ==
  i > 0 => CASE H(e).k = "hist" -> H(e).outs[i] \in Expected(H(e).kind, H(e).ops[i])
             [] H(e).k = "pairs" -> H(e).row[i] = <<H(e).refs[H(e).a], H(e).refs[i], H(e).refs[H(e).a]>>
             [] OTHER -> H(e).log[i][2] = H(e).refs[H(e).log[i][1]]
ThreadsFinish == H(e).k = "mt" => H(e).ok
Accepted == TLCGet("stats").distinct > N
=============================================================================
