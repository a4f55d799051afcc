----------------------------- MODULE SelfTest ------------------------------
(* Evaluates every natively overridden operator on pseudo-random arguments   *)
(* and prints the results; run once with and once without the native classes *)
(* (tools/selftest.py) the output must be the same.                          *)
EXTENDS Tensors, Fix

Rnd(a, b) == ((a * 7919 + b * 104729 + ((a * b) % 1009) * 31 + b * b * 17) % 2003) - 1001
V(s, n) == [k \in 1..n |-> Rnd(s, k)]
M(s, r, c) == [i \in 1..r |-> [j \in 1..c |-> Rnd(s + i, j) % 50]]
Sh(s) == <<1 + (s % 3), 1 + ((s \div 3) % 3), 1 + ((s \div 9) % 4)>>
Cases(s) ==
  LET sh == Sh(s)  n == Numel(sh)  v == V(s, n)  w == V(s + 1, n)
      A == M(s, 2 + (s % 2), 3)  B == M(s + 5, 3, 1 + (s % 4))
      bs == [k \in 1..4 |-> BMul(BNorm(V(s + k, 1 + k)), BNorm(<<Rnd(s, k), Rnd(k, s)>>))]
      q == s % n
  IN << Iota(s % 6), SumSeq(v), Prod(sh), MaxSeq(v), MaxAbs(v), Rev(v), Stride(sh, s % 4), Digit(sh, q, 1 + (s % 3)),
        Unflatten(sh, q), Flatten(sh, Unflatten(sh, q)), Zeros(sh), Permute(sh, v, <<<<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<1,3,2>>>>[1 + (s % 4)]),
        TransposeV(sh, v), AddV(v, w), SubV(v, w), ScaleV(Rnd(s, 3), v), DivV(v, 7), DivV(v, -3), Transp(A), FlatMat(A),
        ToMat(v, sh[1], n \div sh[1]), RankMod(A, 46337), RankMod(MatMul(A, Transp(A)), 101), DotV(v, w), MatMul(A, B),
        bs, BNorm(<<1000 * s, -5 * s, 3 * s>>), BSign(bs[1]), BAdd(bs[1], bs[2]), BSub(bs[1], bs[3]), BMul(bs[3], bs[4]),
        BDotV(bs, Rev(bs)), BMatMul(<<bs, Rev(bs)>>, <<<<bs[1]>>, <<bs[2]>>, <<bs[4]>>, <<bs[3]>>>>),
        TTRankOf(sh, v), FMatMul(<<bs, Rev(bs)>>, <<<<bs[1]>>, <<bs[2]>>, <<bs[4]>>, <<bs[3]>>>>), FDrop(bs[1]), FDrop(BSub(bs[2], bs[1])), BNearV(bs, bs, <<0>>), BNear(bs[1], BAdd(bs[1], <<1>>), <<1>>), BNear(bs[1], BAdd(bs[1], <<2>>), <<1>>) >>
VARIABLE t
Init == t = 0
Next == t < 120 /\ t' = t + 1 /\ PrintT(<<t, Cases(t)>>)
Spec == Init /\ [][Next]_t
=============================================================================
