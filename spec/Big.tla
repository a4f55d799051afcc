-------------------------------- MODULE Big --------------------------------
(* Fixed-point reals as large integers (see Accel): the recorder multiplies  *)
(* by 10^6 (suffix 6) and rounds; a product of two such has scale 10^12.     *)
EXTENDS Arrays

BigOf(n) == BNorm(<<n>>)
BNeg(x) == BSub(<<0>>, x)
BAbs(x) == IF BSign(x) < 0 THEN BNeg(x) ELSE BNorm(x)
BLeq(x, y) == BSign(BSub(x, y)) <= 0
BLt(x, y) == BSign(BSub(x, y)) < 0
BMax(x, y) == IF BLeq(x, y) THEN y ELSE x
BEq(x, y) == BSign(BSub(x, y)) = 0
BNear(x, y, tol) == BLeq(BAbs(BSub(x, y)), tol)
BDivK(x) == LET n == BNorm(x) IN IF Len(n) <= 3 THEN <<0>> ELSE SubSeq(n, 3, Len(n))   \* x / 10^6, downwards
BShift(x, k) == [i \in 1..k |-> 0] \o x         \* times 1000^k
BScale(c, x) == BMul(BigOf(c), x)
BSumV(xs) == FoldLeft(LAMBDA acc, x : BAdd(acc, x), <<0>>, xs)
BMaxAbs(xs) == FoldLeft(LAMBDA acc, x : BMax(acc, BAbs(x)), <<0>>, xs)
F6(n) == BShift(<<n>>, 2)        \* the integer n with scale 10^6
F12(n) == BShift(<<n>>, 4)
F6V(x) == TLCEval([k \in 1..Len(x) |-> F6(x[k])])
F6M(A) == TLCEval([i \in 1..Len(A) |-> F6V(A[i])])
\* |x - y| <= tol, entrywise
BNearV(x, y, tol) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : BNear(x[k], y[k], tol)
BNearM(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : BNearV(A[i], B[i], tol)
BMaxAbsM(A) == FoldLeft(LAMBDA acc, r : BMax(acc, BMaxAbs(r)), <<0>>, A)
\* accuracy of the product (scale 10^12) of two matrices recorded with 6 decimals
\* whose inner dimension is n: the rounding of the recorder, and 10^-8 relative
MulTol(A, B, n) ==
  LET a == BMaxAbsM(A)  b == BMaxAbsM(B)
  IN  BAdd(BScale(n, BAdd(BAdd(a, b), BigOf(2))), BScale(n, BMul(a, BAdd(BDivK(b), <<1>>))))
BIsProd(A, B, C) ==     \* C (6 decimals) = A * B
  BNearM(BMatMul(A, B), [i \in 1..Len(C) |-> [j \in 1..Len(C[i]) |-> BShift(C[i][j], 2)]],
         BAdd(MulTol(A, B, Len(B)), F6(2)))
BIsProdInt(A, B, C) ==  \* C integer
  BNearM(BMatMul(A, B), [i \in 1..Len(C) |-> [j \in 1..Len(C[i]) |-> F12(C[i][j])]], MulTol(A, B, Len(B)))
BTransp(A) == TLCEval([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
=============================================================================
