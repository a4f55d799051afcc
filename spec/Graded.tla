------------------------------- MODULE Graded -------------------------------
(* Truncation of tensors whose singular values are known and spread over ten  *)
(* decades: the tensor is a sum of terms c_i 2^(-e_i) u_i1 x .. x u_id, where  *)
(* in every mode the vectors u_im are orthogonal and of equal length, so that  *)
(* every unfolding has the singular values |c_i| 2^(-e_i) (times one factor).  *)
(* What the deterministic algorithms keep is therefore a set of terms, each    *)
(* of them unchanged, each of the others gone - to many more digits than the   *)
(* error of the whole tensor would show, because algorithms that are backward  *)
(* stable get each term right up to round-off relative to the largest.         *)
(* State: [sh, kept, tt]: shape, the terms present, whether it is a train.     *)
EXTENDS Ranks, FiniteSetsExt
\* group: [sh, n, c, e, U]; U[m] an sh[m] by n matrix of integers, by its rows that are not zero
Cols(A, i) == [r \in 1..Len(A) |-> A[r][i]]
DotC(x, y) == FoldLeft(LAMBDA a, r : a + x[r] * y[r], 0, [r \in 1..Len(x) |-> r])
NormSq(g, m) == DotC(Cols(g.U[m].B, 1), Cols(g.U[m].B, 1))
WellFormed(g) ==
  /\ \A m \in 1..Len(g.sh) : /\ Len(g.U[m].rows) = Len(g.U[m].B) /\ \A i \in 1..Len(g.U[m].rows) : g.U[m].rows[i] \in 1..g.sh[m]
                             /\ Cardinality({g.U[m].rows[i] : i \in 1..Len(g.U[m].rows)}) = Len(g.U[m].rows)
                             /\ \A i, j \in 1..g.n : DotC(Cols(g.U[m].B, i), Cols(g.U[m].B, j)) = (IF i = j THEN NormSq(g, m) ELSE 0)
  /\ \A i \in 1..g.n : g.c[i] # 0 /\ g.c[i] \in -3..3 /\ g.e[i] \in 0..33
  /\ \A i \in 1..(g.n - 1) : g.e[i + 1] >= g.e[i] + 4           \* terms are in order of size
Lead(X) == Min(X)
Least(k, r) == IF k < r THEN k ELSE r
Top(X, r) == {i \in X : Cardinality({j \in X : j <= i}) <= r}
\* those above 2^(-k) times the largest (all if k = 0)
Above(g, X, k) == IF k = 0 \/ X = {} THEN X ELSE {i \in X : g.e[i] - g.e[Lead(X)] < k}
\* clear of the threshold
Clear(g, X, k) == k = 0 \/ \A i, j \in X : j >= i => (g.e[j] - g.e[i] - k >= 2 \/ k - (g.e[j] - g.e[i]) >= 2)
ArgRank(s, a) == IF a.k = "int" THEN [m \in 1..(Len(s.sh) - 1) |-> a.r[1]] ELSE a.r
Mx(s, a) == IF a.k = "none" THEN [m \in 1..(Len(s.sh) - 1) |-> 1000000] ELSE Trim(s.sh, ArgRank(s, a))
ArgOk(s, a) == a.k = "none" \/ (a.k = "int" /\ Len(a.r) = 1 /\ a.r[1] >= 1) \/ (a.k \in {"list", "tuple"} /\ Len(a.r) = Len(s.sh) - 1 /\ \A m \in 1..Len(a.r) : a.r[m] >= 1)
\* a sweep from right to left over the bonds: the ranks it leaves (last bond first)
RECURSIVE Sweep(_, _, _, _, _)
Sweep(g, X, mx, k, m) == IF m = 0 THEN [X |-> X, rk |-> << >>]
  ELSE LET Y == Top(Above(g, X, k), mx[m])  rest == Sweep(g, Y, mx, k, m - 1)
       IN  [X |-> rest.X, rk |-> Append(rest.rk, Cardinality(Y))]
Rounded(g, s, X, a, k) == Sweep(g, X, Mx(s, a), k, Len(s.sh) - 1)
\* pairwise: one summand after the other
RECURSIVE Pairwise(_, _, _, _, _)
Pairwise(g, s, Xs, a, k) ==
  IF Len(Xs) = 1 THEN Rounded(g, s, Xs[1], a, k).X
  ELSE Rounded(g, s, Pairwise(g, s, SubSeq(Xs, 1, Len(Xs) - 1), a, k) \cup Xs[Len(Xs)], a, k).X
Legal(g, s, e) ==
  CASE e.op = "start" -> e.how \in {"tt", "cp", "tucker", "dense", "sparse", "sum"} /\ e.at \in 1..Len(g.sh) /\ e.b \in {0, 60, -60, 400, -400, 480, -700} /\ e.X # {} /\ e.X \subseteq 1..g.n
    [] e.op = "svd" -> ArgOk(s, e.rank)
    [] e.op = "round" -> s.tt /\ ArgOk(s, e.rank) /\ e.k \in 0..40 /\ Clear(g, s.kept, e.k)
    [] e.op = "hmt" -> ArgOk(s, e.rank) /\ e.rank.k # "none" /\ \A m \in 1..(Len(s.sh) - 1) : Mx(s, e.rank)[m] >= Cardinality(s.kept) /\ (s.how \in {"sparse", "tt", "dense"} => e.t = "tt")
    [] e.op = "add" -> s.tt /\ e.i \in (1..g.n) \ s.kept
    [] e.op = "rsum" -> /\ s.tt /\ ArgOk(s, e.rank) /\ e.rank.k # "none" /\ e.k \in 0..40 /\ e.method \in {"exact", "pairwise"}
                        /\ \A i \in 1..Len(e.is) : e.is[i] \in (1..g.n) \ s.kept /\ \A j \in 1..(i - 1) : e.is[j] # e.is[i]
                        /\ Clear(g, 1..g.n, e.k)
    [] e.op \in {"T", "orth"} -> e.op = "T" \/ s.tt
    [] e.op = "svdvals" -> s.tt
    [] OTHER -> FALSE
Start(g, e) == [sh |-> g.sh, kept |-> e.X, tt |-> e.how = "tt", how |-> e.how]
Train(s, X) == [s EXCEPT !.tt = TRUE, !.how = "tt", !.kept = X]
After(g, s, e) ==
  CASE e.op = "start" -> Start(g, e)
    [] e.op = "svd" -> Train(s, Top(s.kept, Min({Mx(s, e.rank)[m] : m \in 1..(Len(s.sh) - 1)})))
    [] e.op = "round" -> Train(s, Rounded(g, s, s.kept, e.rank, e.k).X)
    [] e.op = "hmt" -> Train(s, s.kept)
    [] e.op = "add" -> Train(s, s.kept \cup {e.i})
    [] e.op = "rsum" -> Train(s, IF e.method = "exact" THEN Rounded(g, s, s.kept \cup {e.is[i] : i \in 1..Len(e.is)}, e.rank, e.k).X
                                 ELSE Pairwise(g, s, [i \in 1..(Len(e.is) + 1) |-> IF i = 1 THEN s.kept ELSE {e.is[i - 1]}], e.rank, e.k))
    [] e.op = "T" -> [s EXCEPT !.sh = Rev(s.sh)]
    [] OTHER -> s
=============================================================================
