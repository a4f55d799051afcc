------------------------------- MODULE TTAlg -------------------------------
(* The life of a tensor train: made from any tensor by TT-SVD or a sketch,   *)
(* then orthogonalized, rounded, transposed, scaled, added to, summed with   *)
(* others and rounded.  This module has what generator and checker share:    *)
(* the operations, when they are legal, and what they do to the abstract     *)
(* state [sh, tt, rk, lo, ro, n]: shape, whether it is a train yet, its ranks *)
(* (<< >> if the specification leaves them open), whether its cores are       *)
(* known to be left- or right-orthonormal, number of additions so far.        *)
EXTENDS Ranks

\* group: [shs, tens, adds] ; tens[i] = [k, sh, rk] starting tensors; adds[i] likewise, trains
DrmOk(k, t) == CASE k = "sparse" -> TRUE
                 [] k \in {"dense", "tt"} -> t \in {"tt", "dg"}
                 [] OTHER -> t = "tt"
RankPos(r) == \A m \in 1..Len(r) : r[m] >= 1
ArgOk(sh, a) == a.k = "none" \/ (a.k = "int" /\ Len(a.r) = 1 /\ a.r[1] >= 1) \/ (a.k \in {"list", "tuple", "np"} /\ Len(a.r) = Len(sh) - 1 /\ RankPos(a.r))
ArgRank(sh, a) == IF a.k = "int" THEN [m \in 1..(Len(sh) - 1) |-> a.r[1]] ELSE a.r
TrimArg(sh, a) == Trim(sh, ArgRank(sh, a))
Start(t) == [sh |-> t.sh, tt |-> t.k = "tt", k |-> t.k, rk |-> t.rk, lo |-> FALSE, ro |-> FALSE, n |-> 0]
Legal(g, s, e) ==
  CASE e.op = "start" -> e.p \in 1..Len(g.tens) /\ e.sc \in {0, 9, -9, 25, -25, 100, -100} /\ e.bal \in {0, 6, -6} /\ ((e.bal # 0 \/ e.sc # 0) => g.tens[e.p].k = "tt")
    [] e.op = "svd"   -> ArgOk(s.sh, e.rank)
    [] e.op = "hmt"   -> ArgOk(s.sh, e.rank) /\ e.rank.k # "none" /\ DrmOk(s.k, e.t) /\ (e.given => TrimArg(s.sh, e.rank) = ArgRank(s.sh, e.rank))
    [] e.op = "osk"   -> /\ ArgOk(s.sh, e.rank) /\ ArgOk(s.sh, e.right) /\ e.rank.k # "none" /\ e.right.k # "none"
                         /\ DrmOk(s.k, e.t) /\ DrmOk(s.k, e.t2)
                         /\ \A m \in 1..(Len(s.sh) - 1) : ArgRank(s.sh, e.rank)[m] < ArgRank(s.sh, e.right)[m]
                         /\ (e.given => TrimArg(s.sh, e.rank) = ArgRank(s.sh, e.rank))
    [] e.op = "orth"  -> s.tt
    [] e.op = "round" -> s.tt /\ ArgOk(s.sh, e.rank) /\ (e.oz => s.lo) /\ e.eps \in 0..999
    [] e.op \in {"T", "scale"} -> TRUE
    [] e.op = "add"   -> s.tt /\ e.p \in 1..Len(g.adds) /\ g.adds[e.p].sh = s.sh
    [] e.op = "svdvals" -> s.tt
    [] e.op = "norm"  -> TRUE
    [] e.op = "rsum"  -> /\ s.tt /\ ArgOk(s.sh, e.rank) /\ e.rank.k # "none"
                         /\ \A i \in 1..Len(e.with) : e.with[i][1] \in 1..Len(g.adds) /\ g.adds[e.with[i][1]].sh = s.sh
                         /\ e.method \in {"exact", "pairwise", "sketch", "orth_sketch", "none"} /\ e.eps \in 0..999 /\ (e.method \in {"sketch", "orth_sketch", "none"} => e.eps = 0)
                         /\ e.of \in {1100, 1500, 2000, 3000}
    [] OTHER -> FALSE
\* ranks after the operation, where determined by the arguments
After(g, s, e) ==
  CASE e.op = "start" -> Start(g.tens[e.p])
    [] e.op = "svd"   -> [s EXCEPT !.tt = TRUE, !.k = "tt", !.lo = TRUE, !.ro = FALSE,
                            !.rk = Trim(s.sh, IF e.rank.k = "none" THEN [m \in 1..(Len(s.sh) - 1) |-> Numel(s.sh)] ELSE ArgRank(s.sh, e.rank))]
    [] e.op \in {"hmt", "osk"} -> [s EXCEPT !.tt = TRUE, !.k = "tt", !.lo = TRUE, !.ro = FALSE, !.rk = TrimArg(s.sh, e.rank)]
    [] e.op = "orth"  -> [s EXCEPT !.lo = TRUE, !.ro = FALSE, !.rk = << >>]
    [] e.op = "round" -> [s EXCEPT !.lo = FALSE, !.ro = TRUE, !.rk = << >>]
    [] e.op = "T"     -> [s EXCEPT !.sh = Rev(s.sh), !.rk = Rev(s.rk), !.lo = s.ro, !.ro = s.lo]
    [] e.op = "scale" -> [s EXCEPT !.ro = FALSE]
    [] e.op = "add"   -> [s EXCEPT !.lo = FALSE, !.ro = FALSE, !.n = s.n + 1,
                            !.rk = IF s.rk = << >> THEN << >> ELSE [m \in 1..Len(s.rk) |-> s.rk[m] + g.adds[e.p].rk[m]]]
    [] e.op = "rsum"  -> IF e.method = "none" THEN s
                         ELSE [s EXCEPT !.lo = e.method = "orth_sketch", !.ro = e.method \in {"exact", "pairwise"}, !.n = s.n + Len(e.with),
                                 !.rk = IF e.method \in {"sketch", "orth_sketch"} THEN TrimArg(s.sh, e.rank) ELSE << >>]
    [] OTHER -> s
=============================================================================
