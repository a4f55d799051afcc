------------------------------- MODULE Guards -------------------------------
(* Which requests are consistent (C19): Accept(e) says whether request e must *)
(* be answered; every other request must be refused with an exception.  In    *)
(* either case nothing that existed before changes.                           *)
(* Requests carry only what the decision depends on; shapes are sequences of  *)
(* mode sizes, rank arguments are [k, r] as in Calls, a given random matrix   *)
(* is [t, rank, sh] (its type, ranks in the order of the modes, and the shape *)
(* it was made for), t = "none" if none is given.                             *)
EXTENDS Calls

CanSliceT == {"tt", "dg", "sg", "ss"}
CanGrowT == {"dg", "sg"}
Methods == {"exact", "pairwise", "sketch", "orth_sketch"}
Directions == {"auto", "left", "right"}
Goals == {"norm-1", "norm-preserve"}

Ordered(sh, a, b) == \/ Less(ArgVal(sh, a), ArgVal(sh, b)) \/ Less(ArgVal(sh, b), ArgVal(sh, a))
GivenOk(sh, a, g) == g.t = "none" \/ (g.rank = ArgVal(sh, a) /\ g.sh = sh)
LeqR(x, y) == Len(x) = Len(y) /\ \A m \in 1..Len(x) : x[m] <= y[m]
\* max_rank arguments may be absent
OptLen(sh, a) == a.k = "none" \/ ArgLen(sh, a)
RoundOk(sh, a, method, of) == method = "none" \/ (method \in Methods /\ ArgLen(sh, a))

\* neither answer is prescribed: a given random matrix whose ranks no orthonormal basis can have,
\* an oversampling factor of at most one
Free(e) == \/ e.op = "osk" /\ e.lg.t # "none" /\ ArgLen(e.sh, e.rank) /\ ~Admissible(e.sh, ArgVal(e.sh, e.rank))
           \/ e.op = "rsum" /\ e.method \in {"sketch", "orth_sketch"} /\ e.of <= 1000
           \/ e.op = "hmt" /\ e.rg.t # "none" /\ ArgLen(e.sh, e.rank) /\ ~Admissible(e.sh, ArgVal(e.sh, e.rank))
Accept(e) ==
  CASE e.op = "stream" -> /\ ArgLen(e.sh, e.rank) /\ ArgLen(e.sh, e.right) /\ Ordered(e.sh, e.rank, e.right)
                          /\ GivenOk(e.sh, e.rank, e.lg) /\ GivenOk(e.sh, e.right, e.rg)
    [] e.op = "osk"    -> /\ ArgLen(e.sh, e.rank) /\ ArgLen(e.sh, e.right) /\ Less(ArgVal(e.sh, e.rank), ArgVal(e.sh, e.right))
                          /\ GivenOk(e.sh, e.rank, e.lg) /\ GivenOk(e.sh, e.right, e.rg)
    [] e.op = "hmt"    -> ArgLen(e.sh, e.rank) /\ GivenOk(e.sh, e.rank, e.rg)
    [] e.op = "upd"    -> e.sh2 = e.sh
    [] e.op = "grow"   -> /\ e.t \in CanGrowT /\ e.t2 \in CanGrowT /\ e.sh2 = e.sh
                          /\ ArgLen(e.sh, e.rank) /\ ArgLen(e.sh, e.right) /\ Ordered(e.sh, e.rank, e.right)
                          /\ LeqR(e.old, ArgVal(e.sh, e.rank)) /\ LeqR(e.oldr, ArgVal(e.sh, e.right))
    [] e.op = "slice"  -> /\ e.t \in CanSliceT /\ Len(e.lo) = Len(e.sh) - 1 /\ Len(e.hi) = Len(e.sh) - 1
                          /\ \A m \in 1..Len(e.lo) : 0 <= e.lo[m] /\ e.lo[m] <= e.hi[m] /\ e.hi[m] <= e.rk[m]
    [] e.op = "block"  -> e.t \in CanSliceT /\ e.t2 \in CanSliceT /\ e.sh2 = e.sh
    [] e.op = "sign"   -> Len(e.nnz) = Len(e.sh) - 1 /\ ArgLen(e.sh, e.rank) /\ \A m \in 1..Len(e.nnz) : e.nnz[m] <= ArgVal(e.sh, e.rank)[m]
    [] e.op = "drm"    -> ArgLen(e.sh, e.rank)
    [] e.op = "use"    -> e.sh2 = e.sh
    [] e.op = "cores"  -> e.dir \in Directions
    [] e.op = "rsum"   -> RoundOk(e.sh, e.rank, e.method, e.of)
    [] e.op = "ttrand" -> /\ ArgLen(e.sh, e.rank) /\ e.goal \in Goals
                          /\ ~(e.orthog = "yes" /\ e.trim = "no")
    [] e.op = "wts"    -> e.n = e.m
    [] e.op = "mapsum" -> Len(e.maps) >= 1 /\ \A i \in 1..Len(e.maps) : e.maps[i] = e.maps[1]
    \* the map takes e.ish to e.ash
    [] e.op = "gmres"  -> /\ e.ash = e.ish /\ e.bsh = e.ish /\ (e.xsh = << >> \/ e.xsh = e.ish)
                          /\ ArgLen(e.ish, e.rank) /\ OptLen(e.ish, e.final)
                          /\ e.method \in Methods /\ (e.fmethod = "none" \/ e.fmethod \in Methods)
    [] e.op \in {"zero", "process", "trim", "svd", "ttround", "mpo"} -> OptLen(e.sh, e.rank)
    [] e.op = "sprand" -> 0 <= e.nnz /\ e.nnz <= Prod(e.sh)
    [] e.op = "general" -> e.method = "hmt" \/ e.left = "yes"
=============================================================================
