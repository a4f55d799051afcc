------------------------------- MODULE Ranks -------------------------------
(* TT-ranks.  r is a sequence of d-1 ranks for the shape sh of length d.     *)
EXTENDS Arrays

Cap == 1000000000
CapMul(a, b) == IF b # 0 /\ a > Cap \div b THEN Cap ELSE a * b
CapProd(s) == FoldLeft(CapMul, 1, s)
RankAt(sh, r, m) == IF m = 0 \/ m = Len(sh) THEN 1 ELSE r[m]
\* each rank at most the adjacent rank times the mode size, on either side
Admissible(sh, r) ==
  \A m \in 1..Len(sh) : /\ RankAt(sh, r, m) <= CapMul(RankAt(sh, r, m - 1), sh[m])
                        /\ RankAt(sh, r, m - 1) <= CapMul(RankAt(sh, r, m), sh[m])
RLeq(x, y) == Len(x) = Len(y) /\ \A m \in 1..Len(x) : x[m] <= y[m]
\* the greatest admissible ranks below r, in closed form (MCRanks relates the two)
Trim(sh, r) ==
  [m \in 1..Len(r) |->
     FoldLeft(LAMBDA acc, j :
        Min2(acc, CapMul(RankAt(sh, r, j), CapProd(SubSeq(sh, Min2(j, m) + 1, Max2(j, m))))),
      r[m], <<0>> \o Iota(Len(sh)))]
\* a rank argument: a sequence, or one number for all bonds
Broadcast(sh, r) == IF r.int THEN [m \in 1..(Len(sh) - 1) |-> r.r[1]] ELSE r.r
RankArgOk(sh, r) == r.int \/ Len(r.r) = Len(sh) - 1
=============================================================================
