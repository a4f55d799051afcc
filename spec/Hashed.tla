------------------------------- MODULE Hashed -------------------------------
(* Lazily evaluated random matrices.  A matrix is fixed by class, shape, side, *)
(* seed (and, for sign matrices, ranks and numbers of non-zeros); its entries  *)
(* are revealed by requests for batches of rows and ranges of columns.  The    *)
(* machine keeps the table of all entries revealed so far.  A row of the       *)
(* matrix of bond m is named by the indices of the modes before (left) or      *)
(* behind (right) the bond; indices are strings since they exceed the          *)
(* integers of TLC.  Values of Gaussian matrices are identities (the same      *)
(* number has the same identity), 0 stands for a number that is not finite;    *)
(* values of sign matrices are shifted by 2.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC
RowName(side, row, m) == IF side = "l" THEN SubSeq(row, 1, m) ELSE SubSeq(row, m + 1, Len(row))
\* the entries that a request reveals: <<bond, row, column, value>>
Revealed(side, rows, lo, hi, vals) ==
  UNION {UNION {{<<m, RowName(side, rows[i], m), lo[m] + q, vals[m][i][q]>> : q \in 1..(hi[m] - lo[m])} : i \in 1..Len(rows)} : m \in 1..Len(lo)}
Complete(rows, lo, hi, vals) == Len(vals) = Len(lo) /\ \A m \in 1..Len(lo) : Len(vals[m]) = Len(rows) /\ \A i \in 1..Len(rows) : Len(vals[m][i]) = hi[m] - lo[m]
IsFunction(T) == Cardinality({<<t[1], t[2], t[3]>> : t \in T}) = Cardinality(T)
Injective(T) == \A m \in {t[1] : t \in T} : LET S == {t \in T : t[1] = m} IN Cardinality({t[4] : t \in S}) = Cardinality(S)
\* rows of a sign matrix that were requested completely
SignRow(x, nnz) == (\A q \in 1..Len(x) : x[q] \in {1, 2, 3}) /\ Cardinality({q \in 1..Len(x) : x[q] # 2}) = nnz
\* ---- statistics of many rows (sums, rounded to integers): seven standard deviations ------
Sq(x) == x * x
In(x, mean, var7, n) == Sq(x - mean) <= 49 * var7 * n + 200
NormalStats(z, n) ==       \* z.s sums, z.q squares, z.c cubes (divided by 4), z.a number below 1, z.p products of columns, z.lag products of rows
  /\ z.dup <= 3        \* numbers that occur twice in up to four millions
  /\ \A j \in 1..Len(z.s) : In(z.s[j], 0, 1, n)
  /\ \A j \in 1..Len(z.q) : In(z.q[j], n, 2, n)
  /\ \A j \in 1..Len(z.c) : In(z.c[j], 0, 1, n)
  /\ \A j \in 1..Len(z.a) : Sq(z.a[j] - (6827 * n) \div 10000) <= 12 * n + 200
  /\ \A j \in 1..Len(z.p) : In(z.p[j], 0, 1, n)
  /\ \A j \in 1..Len(z.lag) : In(z.lag[j], 0, 1, n)
SignStats(z, n, r, nnz) ==    \* z.s sums of the signs, z.k numbers of non-zeros, z.lag products of rows, z.kk rows in which two neighbouring columns are non-zero
  /\ \A j \in 1..Len(z.s) : In(z.s[j], 0, 1, n)
  /\ \A j \in 1..Len(z.k) : Sq(z.k[j] - (n * nnz) \div r) <= 49 * ((n * nnz * (r - nnz)) \div (r * r) + 1) + 200
  /\ \A j \in 1..Len(z.lag) : In(z.lag[j], 0, 1, n)
  /\ \A j \in 1..Len(z.kk) : r >= 2 => Sq(z.kk[j] - (n * nnz * (nnz - 1)) \div (r * (r - 1))) <= 13 * n + 200
=============================================================================
