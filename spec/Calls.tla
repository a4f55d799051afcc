------------------------------- MODULE Calls -------------------------------
(* Which ranks every function taking ranks must deliver (C13), which requests *)
(* must be refused (C19), and the structure of random tensors (C22).          *)
(* A rank argument is [k, r]: k is the Python type used, r the values.        *)
EXTENDS Ranks

ScalarK == {"int", "npint"}
SeqK == {"list", "tuple", "np", "nptuple"}
\* the ranks an argument means, or << >> and a flag if it has the wrong length
ArgLen(sh, a) == a.k \in ScalarK \/ Len(a.r) = Len(sh) - 1
ArgVal(sh, a) == IF a.k \in ScalarK THEN [m \in 1..(Len(sh) - 1) |-> a.r[1]] ELSE a.r
Positive(r) == \A m \in 1..Len(r) : r[m] >= 1
Less(x, y) == \A m \in 1..Len(x) : x[m] < y[m]

\* ---- ranks of results ----
\* train: e.trim
TrainRank(e) == IF e.trim THEN Trim(e.sh, ArgVal(e.sh, e.rank)) ELSE ArgVal(e.sh, e.rank)
\* streaming sketch: the smaller side is trimmed, the bigger one is taken as it is
StreamLeft(sh, l, r)  == IF Less(ArgVal(sh, l), ArgVal(sh, r)) THEN Trim(sh, ArgVal(sh, l)) ELSE ArgVal(sh, l)
StreamRight(sh, l, r) == IF Less(ArgVal(sh, l), ArgVal(sh, r)) THEN ArgVal(sh, r) ELSE Trim(sh, ArgVal(sh, r))
\* the train assembled has the ranks of the smaller side
StreamTT(sh, l, r) == IF Less(ArgVal(sh, l), ArgVal(sh, r)) THEN StreamLeft(sh, l, r) ELSE StreamRight(sh, l, r)
TuckerRank(sh, a) == [m \in 1..Len(sh) |-> Min2(sh[m], IF a.k \in ScalarK THEN a.r[1] ELSE a.r[m])]
\* shapes of the cores of a train
CoreShapes(sh, rk) == [m \in 1..Len(sh) |-> <<RankAt(sh, rk, m - 1), sh[m], RankAt(sh, rk, m)>>]
=============================================================================
