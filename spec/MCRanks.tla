------------------------------ MODULE MCRanks ------------------------------
(* Trimming as a process that lowers any rank that is too large, in any      *)
(* order: whatever the order it ends in the same ranks, the greatest         *)
(* admissible ones, which are Trim(sh, r).                                    *)
EXTENDS Ranks
CONSTANTS MaxD, MaxN, MaxR
VARIABLES sh, orig, cur
vars == <<sh, orig, cur>>
Init == \E d \in 2..MaxD : /\ sh \in [1..d -> 1..MaxN] /\ orig \in [1..(d - 1) -> 1..MaxR] /\ cur = orig
\* lower bond m to the bound from its left or right neighbour
Lower(m) == \E b \in {RankAt(sh, cur, m - 1) * sh[m], RankAt(sh, cur, m + 1) * sh[m + 1]} :
              b < cur[m] /\ cur' = [cur EXCEPT ![m] = b]
Next == /\ \E m \in 1..Len(cur) : Lower(m)
        /\ UNCHANGED <<sh, orig>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
T == Trim(sh, orig)
Bounds == RLeq(T, cur) /\ RLeq(cur, orig) /\ T = Trim(sh, cur)
Final == ~ENABLED Next => cur = T
Fixpoint == Admissible(sh, T) /\ Trim(sh, T) = T
Stuck == Admissible(sh, cur) <=> cur = T
\* greatest: every admissible vector below orig is below T
Greatest == \A r \in [1..Len(orig) -> 1..MaxR] : RLeq(r, orig) /\ Admissible(sh, r) => RLeq(r, T)
\* monotone
Monotone == \A r \in [1..Len(orig) -> 1..MaxR] : RLeq(r, orig) => RLeq(Trim(sh, r), T)
\* the transposed ranks of the transposed shape
Symmetric == Trim(Rev(sh), Rev(orig)) = Rev(T)
Ends == <>[](cur = T)
=============================================================================
