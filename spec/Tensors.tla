------------------------------ MODULE Tensors ------------------------------
(* What each tensor format denotes: an integer array.  A representation is a *)
(* record r with r.k the kind and r.sh the shape (as recorded from, or sent  *)
(* to, the implementation).                                                  *)
(*   dense  : v      entries, row-major                                      *)
(*   sparse : ix, e  distinct multi-indices (from 0) and their entries       *)
(*   tt     : cores  cores[m][a][i][b], first and last rank 1                *)
(*   cp     : fac    fac[m][i][t]                                            *)
(*   tucker : core (a dense record), fac   fac[m][s][i]                      *)
(*   sum    : ts     summands                                                *)
EXTENDS Arrays

\* core G[a][i][b] as the matrix a x (i,b)
CoreRight(G) == TLCEval([a \in 1..Len(G) |-> FlatMat(G[a])])
CoreN(G) == Len(G[1])
CoreR(G) == Len(G[1][1])

\* rows: the products cores[1][.][i1] .. cores[m][.][im] for all (i1..im), row-major
PrefixRows(cores, m) ==
  FoldLeft(LAMBDA acc, G :
             LET n == CoreN(G)  r == CoreR(G)
                 P == MatMul(acc, CoreRight(G))
             IN  ToMat(FlatMat(P), Len(acc) * n, r),
           <<<<1>>>>, Take(cores, m))
DenoteTT(cores) == FlatMat(PrefixRows(cores, Len(cores)))

\* suffix matrices: r_m x (i_{m+1}..i_d)
TransposeCores(cores) ==
  [m \in 1..Len(cores) |->
     LET G == cores[Len(cores) + 1 - m]
     IN  TLCEval([b \in 1..CoreR(G) |-> [i \in 1..CoreN(G) |-> [a \in 1..Len(G) |-> G[a][i][b]]]])]

DenoteCP(fac) ==
  LET last == FoldLeft(LAMBDA acc, F :
                TLCEval([q \in 1..(Len(acc) * Len(F)) |->
                   [t \in 1..Len(F[1]) |->
                      acc[(q - 1) \div Len(F) + 1][t] * F[((q - 1) % Len(F)) + 1][t]]]),
              <<[t \in 1..Len(fac[1][1]) |-> 1]>>, fac)
  IN  TLCEval([q \in 1..Len(last) |-> SumSeq(last[q])])

\* multiply mode m of the array (sh, v) by the matrix A (old index x new index)
ModeMul(sh, v, m, A) ==
  LET nm == sh[m]  n == Len(A[1])  right == Stride(sh, m)
  IN  TLCEval([q \in 1..((Numel(sh) \div nm) * n) |->
        LET r == (q - 1) % right
            j == ((q - 1) \div right) % n
            hi == (q - 1) \div (right * n)
        IN  Sum(nm, LAMBDA k : v[(hi * nm + (k - 1)) * right + r + 1] * A[k][j + 1])])
DenoteTucker(core, fac) ==
  FoldLeft(LAMBDA acc, m :
             [sh |-> [acc.sh EXCEPT ![m] = Len(fac[m][1])],
              v |-> ModeMul(acc.sh, acc.v, m, fac[m])],
           [sh |-> core.sh, v |-> core.v], Iota(Len(fac))).v

DenoteSparse(sh, ix, e) ==
  FoldLeft(LAMBDA acc, t : [acc EXCEPT ![Flatten(sh, ix[t]) + 1] = e[t]],
           Zeros(sh), Iota(Len(e)))

RECURSIVE Denote(_)
Denote(r) ==
  CASE r.k = "dense"  -> r.v
    [] r.k = "sparse" -> DenoteSparse(r.sh, r.ix, r.e)
    [] r.k = "tt"     -> DenoteTT(r.cores)
    [] r.k = "cp"     -> DenoteCP(r.fac)
    [] r.k = "tucker" -> DenoteTucker(r.core, r.fac)
    [] r.k = "sum"    -> FoldLeft(LAMBDA acc, x : AddV(acc, Denote(x)), Zeros(r.sh), r.ts)

\* number of stored coefficients
RECURSIVE SizeOf(_)
SizeOf(r) ==
  CASE r.k = "dense"  -> Numel(r.sh)
    [] r.k = "sparse" -> Len(r.e) * (Len(r.sh) + 1)
    [] r.k = "tt"     -> Sum(Len(r.cores), LAMBDA m : Len(r.cores[m]) * CoreN(r.cores[m]) * CoreR(r.cores[m]))
    [] r.k = "cp"     -> Sum(Len(r.fac), LAMBDA m : Len(r.fac[m]) * Len(r.fac[m][1]))
    [] r.k = "tucker" -> Numel(r.core.sh) + Sum(Len(r.fac), LAMBDA m : Len(r.fac[m]) * Len(r.fac[m][1]))
    [] r.k = "sum"    -> Sum(Len(r.ts), LAMBDA t : SizeOf(r.ts[t]))
\* representation rank, where the format has one (a sequence; CP: one number)
RankOf(r) ==
  CASE r.k = "tt"     -> [m \in 1..(Len(r.cores) - 1) |-> CoreR(r.cores[m])]
    [] r.k = "cp"     -> <<Len(r.fac[1][1])>>
    [] r.k = "tucker" -> r.core.sh
    [] OTHER          -> << >>
Count(r) == IF r.k = "sum" THEN Len(r.ts) ELSE 1

\* an MPO: cores[m][a][i][j][b], mapping input modes i to output modes j
MpoAsTT(cores) ==
  [m \in 1..Len(cores) |->
     TLCEval([a \in 1..Len(cores[m]) |->
        LET nj == Len(cores[m][a][1])
        IN  [p \in 1..(Len(cores[m][a]) * nj) |-> cores[m][a][(p - 1) \div nj + 1][((p - 1) % nj) + 1]]])]
MpoIn(cores)  == [m \in 1..Len(cores) |-> Len(cores[m][1])]
MpoOut(cores) == [m \in 1..Len(cores) |-> Len(cores[m][1][1])]
\* the matrix of the map: rows = input multi-index, columns = output multi-index
MpoMatrix(cores) ==
  LET ins == MpoIn(cores)  outs == MpoOut(cores)  d == Len(cores)
      tsh == [m \in 1..d |-> ins[m] * outs[m]]
      v   == DenoteTT(MpoAsTT(cores))
  IN  TLCEval([p \in 1..Numel(ins) |-> [q \in 1..Numel(outs) |->
        v[Flatten(tsh, [m \in 1..d |-> Digit(ins, p - 1, m) * outs[m] + Digit(outs, q - 1, m)]) + 1]]])
=============================================================================
