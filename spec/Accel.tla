------------------------------- MODULE Accel -------------------------------
(* Matrix products over 32-bit integers and over arbitrarily large integers. *)
(* A large integer is a little-endian digit sequence in base 1000; digits    *)
(* may have any sign.  These definitions are complete TLA+; Accel.java (next *)
(* to this file) evaluates the same operators natively inside TLC, and       *)
(* SelfTest.tla compares the two.                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC

LOCAL Iota(n) == [k \in 1..n |-> k]
LOCAL Sum(n, F(_)) == FoldLeft(LAMBDA acc, k : acc + F(k), 0, Iota(n))
LOCAL Mx(x, y) == IF x > y THEN x ELSE y
LOCAL D(x, k) == IF k >= 1 /\ k <= Len(x) THEN x[k] ELSE 0

DotV(x, y) == Sum(Len(x), LAMBDA k : x[k] * y[k])
MatMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                  Sum(Len(B), LAMBDA k : A[i][k] * B[k][j])]])

\* normal form: digits 0..999, the last one 0 or -1 (the sign)
RECURSIVE NormFrom(_, _, _)
NormFrom(x, k, carry) ==
  IF k > Len(x)
  THEN IF carry \in {0, -1} THEN <<carry>> ELSE <<carry % 1000>> \o NormFrom(x, k, carry \div 1000)
  ELSE LET t == x[k] + carry IN <<t % 1000>> \o NormFrom(x, k + 1, t \div 1000)
RECURSIVE Strip(_)
Strip(x) == IF Len(x) >= 2 /\ ((x[Len(x)] = 0 /\ x[Len(x) - 1] = 0) \/ (x[Len(x)] = -1 /\ x[Len(x) - 1] = 999))
            THEN Strip(Append(SubSeq(x, 1, Len(x) - 2), x[Len(x)])) ELSE x
BNorm(x) == Strip(NormFrom(x, 1, 0))
BSign(x) == LET n == BNorm(x) IN IF n[Len(n)] = -1 THEN -1
                                 ELSE IF n = <<0>> THEN 0 ELSE 1
BAdd(x, y) == BNorm([k \in 1..Mx(Len(x), Len(y)) |-> D(x, k) + D(y, k)])
BSub(x, y) == BNorm([k \in 1..Mx(Len(x), Len(y)) |-> D(x, k) - D(y, k)])
BMul(x, y) == LET a == BNorm(x)  b == BNorm(y)
              IN  BNorm([k \in 1..(Len(a) + Len(b) - 1) |->
                           Sum(Len(a), LAMBDA i : a[i] * D(b, k + 1 - i))])
BDotV(xs, ys) == FoldLeft(LAMBDA acc, t : BAdd(acc, BMul(xs[t], ys[t])), <<0>>, Iota(Len(xs)))
BMatMul(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                   BDotV(A[i], [k \in 1..Len(B) |-> B[k][j]])]])
=============================================================================
