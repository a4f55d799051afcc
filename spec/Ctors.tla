------------------------------- MODULE Ctors -------------------------------
(* Constructors of random tensors and maps.  The machine holds the objects    *)
(* made so far, each with its request and the identity of its contents; a     *)
(* request with a seed that was made before gives the same contents again,    *)
(* whatever has been done to earlier objects; any other gives new contents;   *)
(* no request changes an earlier object.                                      *)
EXTENDS Ranks, Fix
\* a request: [kind, sh, outs, rank, seed, orth, trim, goal, nnz]
\* rank: [k |-> "int" | "tuple" | "list" | "np", r |-> sequence]
Kinds == {"tt", "zero", "cp", "tucker", "sparse", "mpo", "dense"}
NoSeed == -1
Seeded(q) == q.kind \in {"tt", "cp", "tucker", "sparse"} /\ q.seed # NoSeed
Bonds(q) == IF q.kind = "tucker" THEN Len(q.sh) ELSE Len(q.sh) - 1
ArgR(q) == IF q.rank.k = "int" THEN [m \in 1..Bonds(q) |-> q.rank.r[1]] ELSE q.rank.r
Trims(q) == q.trim = "yes" \/ (q.trim = "none" /\ q.orth)
\* requests that must be refused (with a ValueError)
Refused(q) ==
  CASE q.kind = "tt" -> (q.orth /\ q.trim = "no") \/ Len(ArgR(q)) # Len(q.sh) - 1 \/ q.goal \notin {"norm-1", "norm-preserve"}
    [] q.kind \in {"zero", "mpo"} -> Len(ArgR(q)) # Len(q.sh) - 1
    [] q.kind = "sparse" -> q.nnz > Numel(q.sh)
    [] OTHER -> FALSE
Prods(q) == [m \in 1..Len(q.sh) |-> q.sh[m] * q.outs[m]]
Rank(q) ==
  CASE q.kind = "tt" -> IF Trims(q) THEN Trim(q.sh, ArgR(q)) ELSE ArgR(q)
    [] q.kind = "zero" -> ArgR(q)
    [] q.kind = "mpo" -> Trim(Prods(q), ArgR(q))
    [] q.kind = "cp" -> q.rank.r
    [] q.kind = "tucker" -> [m \in 1..Len(q.sh) |-> Min2(ArgR(q)[m], q.sh[m])]
    [] OTHER -> << >>
At1(r, m) == IF m = 0 \/ m > Len(r) THEN 1 ELSE r[m]
\* shapes of the stored arrays
Parts(q) ==
  LET r == Rank(q)  d == Len(q.sh)
  IN  CASE q.kind \in {"tt", "zero"} -> [m \in 1..d |-> <<At1(r, m - 1), q.sh[m], At1(r, m)>>]
        [] q.kind = "mpo" -> [m \in 1..d |-> <<At1(r, m - 1), q.sh[m], q.outs[m], At1(r, m)>>]
        [] q.kind = "cp" -> [m \in 1..d |-> <<q.sh[m], r[1]>>]
        [] q.kind = "tucker" -> [m \in 1..d |-> <<r[m], q.sh[m]>>] \o <<r>>
        [] q.kind = "sparse" -> <<<<q.nnz>>>>
        [] OTHER -> <<q.sh>>
\* ---- what the contents must satisfy; a part: [sh, n, s (sum), q (sum of squares), dup, zero, x (sums of products with later parts of equal size), lead (ratios of the first three entries), v (entries, if few)]
\* variance 1/w, up to ten standard deviations and some
Band(x, N) == LET e == BSub(BAbs(x), F9(50)) IN BSign(e) <= 0 \/ BLeq(FMul(e, e), BMul(F9(1), <<100 * N>>))
Variance(p, w) == Band(BSub(BMul(p.q, <<w>>), F9(p.n)), p.n)
Centred(p) == LET b == BMul(<<64>>, p.q) IN BLeq(FMul(p.s, p.s), BAdd(b, Fx(1000)))
Generic(p) == p.dup = 0 /\ p.zero = 0 /\ Centred(p)
Few == 300
Orthonormal(A) == IsOrth(A)
LeftCore(p) == ToMat(p.v, p.sh[1] * p.sh[2], p.sh[3])
Rows(p) == ToMat(p.v, p.sh[1], p.sh[2])
Weight(q, m) == LET r1 == At1(Rank(q), m - 1) IN IF q.goal = "norm-1" THEN r1 * q.sh[m] ELSE r1
\* x^2 <= (10 sqrt n + 50)^2 / n^2 times the squared norms
Uncorrelated(ps) ==
  /\ \A m \in 1..Len(ps) : \A j \in 1..Len(ps[m].x) :
       LET n == ps[m].n  x == ps[m].x[j].v
       IN  BLeq(BMul(FMul(x, x), BMul(<<n>>, <<n>>)), BAdd(BMul(<<200 * n + 5000>>, FMul(ps[m].q, ps[ps[m].x[j].k].q)), F9(1)))
  \* no part is a multiple of another one, as far as the first entries tell
  /\ \A m, k \in 1..Len(ps) : m < k /\ ps[m].lead # << >> => ps[m].lead # ps[k].lead
\* the arrays are symmetric as matrices, and of norm sqrt(in x out)
MpoCore(p) ==
  LET a == p.sh[2]  b == p.sh[3]
  IN  /\ FNear(p.q, F9(a * b), Tol5(F9(a * b)))
      /\ (a = b /\ p.v # << >>) => FNearV(Permute(p.sh, p.v, <<1, 3, 2, 4>>), p.v)
Contents(q, o) ==
  LET ps == o.parts  d == Len(q.sh)
  IN  IF ~\A m \in 1..Len(ps) : ps[m].n = Numel(ps[m].sh) THEN "size"
      ELSE IF \E m \in 1..Len(ps) : ~ps[m].fin THEN "not finite"
      ELSE IF q.kind # "zero" /\ ~Uncorrelated(ps) THEN "correlated"
      ELSE CASE q.kind = "tt" ->
                IF \E m \in 1..d : (~q.orth \/ m = d) /\ ~(Generic(ps[m]) /\ Variance(ps[m], Weight(q, m))) THEN "variance"
                ELSE IF q.orth /\ \E m \in 1..(d - 1) : ps[m].n <= Few /\ ~Orthonormal(LeftCore(ps[m])) THEN "orthonormal"
                ELSE "ok"
           [] q.kind = "zero" -> IF \A m \in 1..d : ps[m].zero = ps[m].n THEN "ok" ELSE "not zero"
           [] q.kind = "cp" -> IF \A m \in 1..d : Generic(ps[m]) THEN "ok" ELSE "entries"
           [] q.kind = "tucker" ->
                IF \E m \in 1..d : ps[m].n <= Few /\ ~Orthonormal(Transp(Rows(ps[m]))) THEN "orthonormal"
                ELSE IF ~Generic(ps[d + 1]) THEN "entries" ELSE "ok"
           [] q.kind = "sparse" ->
                IF Len(o.ix) # q.nnz \/ Cardinality({o.ix[t] : t \in 1..Len(o.ix)}) # q.nnz THEN "distinct"
                ELSE IF \E t \in 1..Len(o.ix) : ~InRange(q.sh, o.ix[t]) THEN "range"
                ELSE IF ~(Generic(ps[1]) /\ Variance(ps[1], 1)) THEN "entries"
                ELSE IF o.count # q.nnz THEN "entries"
                ELSE IF \E m \in 1..d : LET x == SumSeq([t \in 1..q.nnz |-> 2 * o.ix[t][m]]) - q.nnz * (q.sh[m] - 1)
                                        IN  BLt(BAdd(BMul(<<22 * q.nnz>>, <<q.sh[m] * q.sh[m]>>), <<400>>), BMul(<<x>>, <<x>>)) THEN "positions"
                ELSE "ok"
           [] q.kind = "mpo" -> IF \A m \in 1..d : MpoCore(ps[m]) /\ ps[m].zero = 0 THEN "ok" ELSE "core"
           [] OTHER -> IF Generic(ps[1]) /\ Variance(ps[1], 1) THEN "ok" ELSE "entries"
\* two requests whose contents must differ
Draws(q) == Numel(q.sh) > 0 /\ ~(q.kind = "zero" \/ (q.kind = "sparse" /\ q.nnz = 0) \/ (q.kind = "mpo" /\ \A m \in 1..Len(q.sh) : Prods(q)[m] = 1))
=============================================================================
