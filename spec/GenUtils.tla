------------------------------ MODULE GenUtils ------------------------------
EXTENDS Utils, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
Prep(G) == TLCEval([i \in 1..Len(G) |-> [arrs |-> G[i].arrs, pairs |-> [j \in 1..Len(G[i].pairs) |-> Len(G[i].pairs[j].A)], projs |-> Len(G[i].projs)]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
VARIABLES gid, sh, v, hist, done
vars == <<gid, sh, v, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
P(n) == Pick(1..100) <= n
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN << >> ELSE LET x == Pick(S) IN <<x>> \o Shuffle(S \ {x})
Modes(d) == Shuffle(IF P(30) THEN {Pick(1..d)} ELSE RandomSubset(Pick(0..d), 1..d))
IntMat(r, c, a) == [i \in 1..r |-> [j \in 1..c |-> Pick(-a..a)]]
Perm(n) == LET p == Shuffle(1..n) IN [i \in 1..n |-> [j \in 1..n |-> IF p[i] = j THEN 1 ELSE 0]]
Load(n) == [op |-> "load", p |-> Pick(1..Len(g.arrs)), lay |-> Pick(0..4)]
MulEv(n) ==
  LET m == Pick(1..Len(sh))
      B == IF P(35) THEN Perm(sh[m]) ELSE IntMat(Pick(1..4), sh[m], 2)
  IN  [op |-> "mul", m |-> m, B |-> B, lay |-> Pick(0..4), list |-> P(30)]
Sizes == {2, 4, 8}
HadEv(n) ==
  LET a == Pick(Sizes)  b == Pick(Sizes)
  IN  [op |-> "had", n |-> a, m |-> b, e |-> [i \in 1..Pick(1..Min2(a, b)) |-> Pick(0..9)], c |-> IF P(25) THEN -1 ELSE Pick(2..12),
       A |-> IntMat(Pick(1..3), b, 3), side |-> Pick({"l", "r"}), lay |-> Pick(0..4)]
DiagEv(z) ==
  LET n == Pick(1..6)  m == Pick(1..6)  k == Pick(1..Min2(n, m))  off == Pick({0, 0, 7, -7, -150, 150})
      c == IF P(40) THEN -1 ELSE Pick({1, 3, 6, 9, 12, 14})
  IN  [op |-> "diag", n |-> n, m |-> m, rw |-> SubSeq(Shuffle(1..n), 1, k), cl |-> SubSeq(Shuffle(1..m), 1, k), off |-> off,
       ex |-> [i \in 1..k |-> IF c = 14 THEN Pick(-13..0) ELSE Pick(-12..0)], c |-> c,
       A |-> IntMat(Pick(1..3), m, 3), side |-> Pick({"l", "r"}), lay |-> Pick(0..4)]
SqrtEv(n) ==
  LET e == [op |-> "sqrt", sh |-> [i \in 1..Pick(1..4) |-> Pick(1..5)], a |-> Pick(-20..20), b |-> Pick(-20..30), dflt |-> P(20)]
      f == IF e.dflt THEN [e EXCEPT !.a = -2, !.b = 20] ELSE e
  IN  IF SqrtLegal(f.sh, f.a, f.b) THEN f ELSE [f EXCEPT !.a = 3, !.dflt = FALSE, !.b = 7]
DecayEv(n) == [op |-> "decay", sh |-> Pick({<<4>>, <<3, 4>>, <<6, 2>>, <<3, 3, 3>>, <<4, 1, 3>>, <<2, 5, 3>>, <<2, 2, 2, 2>>, <<5, 5, 5>>, <<2, 8, 8>>}), p |-> Pick({0, 1, 2, 3, 4, 4, 6}), seed |-> Pick(0..1000), dflt |-> FALSE]
Draw(n) ==
  LET c == Pick(1..100)
  IN  IF c <= 12 \/ sh = << >> THEN Load(0)
      ELSE IF c <= 40 THEN [op |-> "mat", mode |-> Modes(Len(sh)), form |-> Pick({"int", "tuple", "list", "np"}), flat |-> P(50)]
      ELSE IF c <= 62 THEN (IF Numel(sh) = 0 \/ MaxAbs(v) > 20000 \/ Numel(sh) > 700 THEN Load(0) ELSE MulEv(0))
      ELSE IF c <= 72 THEN [op |-> "pinv", p |-> Pick(1..Len(g.pairs)), side |-> Pick({"l", "r"}), vec |-> P(50), lay |-> Pick(0..4)]
      ELSE IF c <= 78 THEN HadEv(0)
      ELSE IF c <= 83 THEN DiagEv(0)
      ELSE IF c <= 88 THEN [op |-> "proj", p |-> Pick(1..g.projs), lay |-> Pick(0..4)]
      ELSE IF c <= 91 THEN (IF P(60) THEN [op |-> "hilbert", d |-> Pick(1..4), n |-> Pick(1..5)] ELSE Pick({[op |-> "hilbert", d |-> 1, n |-> Pick(100..700)], [op |-> "hilbert", d |-> 2, n |-> Pick(50..80)], [op |-> "hilbert", d |-> 8, n |-> 2]}))
      ELSE IF c <= 96 THEN SqrtEv(0)
      ELSE DecayEv(0)
Init == gid \in 1..Len(Groups) /\ sh = << >> /\ v = << >> /\ hist = << >> /\ done = FALSE
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ \E e \in {TLCEval(Draw(0))} :
                /\ hist' = Append(hist, e)
                /\ IF e.op = "load" THEN sh' = g.arrs[e.p].sh /\ v' = g.arrs[e.p].v
                   ELSE IF e.op = "mul" THEN \E r \in {TLCEval(MulMode(sh, v, e.m, e.B))} : sh' = r.sh /\ v' = r.v
                   ELSE UNCHANGED <<sh, v>>
        \/ /\ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, sh, v, hist>>
Spec == Init /\ [][Next]_vars
Inv == Len(v) = (IF sh = << >> THEN 0 ELSE Numel(sh))
=============================================================================
