------------------------------- MODULE Arrays -------------------------------
(* Finite multi-index arrays over the integers.  An array is a pair of a     *)
(* shape sh = <<n1,..,nd>> and its entries in row-major order, a sequence v  *)
(* of length n1*..*nd.  Flat positions are counted from 0, sequences from 1. *)
(* Arrays.java evaluates many of these natively (see Accel.tla).             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Accel

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

Iota(n) == [k \in 1..n |-> k]
Sum(n, F(_)) == FoldLeft(LAMBDA acc, k : acc + F(k), 0, Iota(n))
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)
Prod(s) == FoldLeft(LAMBDA acc, x : acc * x, 1, s)
MaxSeq(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), 0, s)
MaxAbs(s) == FoldLeft(LAMBDA acc, x : Max2(acc, Abs(x)), 0, s)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))

Numel(sh) == Prod(sh)
Stride(sh, m) == Prod(Drop(sh, m))
\* m-th index (from 0) of flat position q (from 0)
Digit(sh, q, m) == (q \div Stride(sh, m)) % sh[m]
Unflatten(sh, q) == [m \in 1..Len(sh) |-> Digit(sh, q, m)]
Flatten(sh, ix) == FoldLeft(LAMBDA acc, m : acc * sh[m] + ix[m], 0, Iota(Len(sh)))
InRange(sh, ix) == Len(ix) = Len(sh) /\ \A m \in 1..Len(sh) : ix[m] >= 0 /\ ix[m] < sh[m]

Fill(sh, F(_)) == TLCEval([q \in 1..Numel(sh) |-> F(Unflatten(sh, q - 1))])
Zeros(sh) == [q \in 1..Numel(sh) |-> 0]
At(sh, v, ix) == v[Flatten(sh, ix) + 1]

\* general permutation of the modes: result mode m is the old mode perm[m]
Permute(sh, v, perm) ==
  LET nsh == [m \in 1..Len(sh) |-> sh[perm[m]]]
  IN  TLCEval([q \in 1..Len(v) |->
        LET ix == Unflatten(nsh, q - 1)
        IN  v[FoldLeft(LAMBDA acc, m :
                acc + ix[CHOOSE j \in 1..Len(sh) : perm[j] = m] * Stride(sh, m),
              0, Iota(Len(sh))) + 1]])
TransposeV(sh, v) == Permute(sh, v, Rev(Iota(Len(sh))))

AddV(x, y) == TLCEval([k \in 1..Len(x) |-> x[k] + y[k]])
SubV(x, y) == TLCEval([k \in 1..Len(x) |-> x[k] - y[k]])
ScaleV(c, x) == TLCEval([k \in 1..Len(x) |-> c * x[k]])
DivV(x, c) == TLCEval([k \in 1..Len(x) |-> IF c > 0 THEN x[k] \div c ELSE (-x[k]) \div (-c)])
Divisible(x, c) == \A k \in 1..Len(x) : x[k] % Abs(c) = 0

\* matrices: sequences of rows
Transp(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
FlatMat(A) == LET nc == Len(A[1])
              IN  TLCEval([q \in 1..(Len(A) * nc) |-> A[(q - 1) \div nc + 1][((q - 1) % nc) + 1]])
ToMat(v, nr, nc) == TLCEval([i \in 1..nr |-> [j \in 1..nc |-> v[(i - 1) * nc + j]]])
\* unfolding of an array after the first m modes, as a matrix
Unfold(sh, v, m) ==
  LET nr == Prod(Take(sh, m))  nc == Prod(Drop(sh, m))
  IN  TLCEval([i \in 1..nr |-> [j \in 1..nc |-> v[(i - 1) * nc + j]]])

\* rank of an integer matrix over GF(p); p prime, a lower bound on the rational rank
RECURSIVE PowMod(_, _, _)
PowMod(b, e, p) == IF e = 0 THEN 1
                   ELSE LET h == PowMod(b, e \div 2, p)
                        IN  IF e % 2 = 0 THEN (h * h) % p ELSE (((h * h) % p) * b) % p
RECURSIVE RankFrom(_, _, _)
RankFrom(A, c, p) ==
  IF A = << >> \/ c > Len(A[1]) THEN 0
  ELSE LET piv == {i \in 1..Len(A) : A[i][c] # 0}
       IN  IF piv = {} THEN RankFrom(A, c + 1, p)
           ELSE LET i0  == CHOOSE i \in piv : TRUE
                    inv == PowMod(A[i0][c], p - 2, p)
                    row == TLCEval([j \in 1..Len(A[1]) |-> (A[i0][j] * inv) % p])
                    rest == SelectSeq(Iota(Len(A)), LAMBDA i : i # i0)
                    B   == TLCEval([k \in 1..Len(rest) |->
                             [j \in 1..Len(A[1]) |-> (A[rest[k]][j] - A[rest[k]][c] * row[j]) % p]])
                IN  1 + RankFrom(B, c + 1, p)
RankMod(A, p) == RankFrom(TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> A[i][j] % p]]), 1, p)
\* TT-rank of an array: ranks of its unfoldings
TTRankOf(sh, v) == [m \in 1..(Len(sh) - 1) |-> RankMod(Unfold(sh, v, m), 46337)]
=============================================================================
