-------------------------------- MODULE Fix --------------------------------
(* Reals with nine decimals, as large integers (see Accel), and the linear   *)
(* algebra with which recorded results are judged.  Products are rounded     *)
(* downwards.  Fix.java evaluates FMatMul natively.                          *)
EXTENDS Big

FDrop(x) == LET n == BNorm(x) IN IF Len(n) <= 3 THEN IF BSign(n) < 0 THEN <<-1>> ELSE <<0>> ELSE SubSeq(n, 4, Len(n))  \* x / 10^9
FMatMul(A, B) == LET P == BMatMul(A, B) IN TLCEval([i \in 1..Len(P) |-> [j \in 1..Len(P[i]) |-> FDrop(P[i][j])]])

F9(n) == BNorm(<<0, 0, 0, n>>)
Fx(k) == BNorm(<<k>>)             \* k units of 10^-9
FMul(x, y) == FDrop(BMul(x, y))
F9V(v) == TLCEval([k \in 1..Len(v) |-> F9(v[k])])
F9M(A) == TLCEval([i \in 1..Len(A) |-> F9V(A[i])])
FDot(x, y) == FDrop(BDotV(x, y))
FSq(v) == FDot(v, v)
FSum(v) == BSumV(v)
FEye(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN F9(1) ELSE <<0>>]])
FScale(c, v) == TLCEval([k \in 1..Len(v) |-> BMul(<<c>>, v[k])])      \* integer times vector
FMulV(c, v) == TLCEval([k \in 1..Len(v) |-> FMul(c, v[k])])
FAddV(x, y) == TLCEval([k \in 1..Len(x) |-> BAdd(x[k], y[k])])
FSubV(x, y) == TLCEval([k \in 1..Len(x) |-> BSub(x[k], y[k])])
FZero(v) == \A k \in 1..Len(v) : BSign(v[k]) = 0
\* 10^-5 (resp. 10^-6, 10^-4) of x and as much absolutely
Tol5(x) == LET n == BNorm(BMul(x, <<10>>)) IN BAdd(IF Len(n) <= 2 THEN <<0>> ELSE SubSeq(n, 3, Len(n)), Fx(10000))
Tol4(x) == BMul(<<10>>, Tol5(x))
Tol6(x) == LET n == BNorm(x) IN BAdd(IF Len(n) <= 2 THEN <<0>> ELSE SubSeq(n, 3, Len(n)), Fx(1000))
TolV(v) == Tol5(BMaxAbs(v))
FNear(x, y, tol) == BNear(x, y, tol)
FNearV(x, y) == BNearV(x, y, TolV(y))
FNearM(A, B, tol) == BNearM(A, B, tol)
IsOrth(Q) == FNearM(FMatMul(Transp(Q), Q), FEye(Len(Q[1])), Fx(1000))     \* columns orthonormal, 10^-6

\* ---- pseudo-inverses
FZ(A, scale) == FNearM(A, [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> <<0>>]], Tol5(scale))
FSubM(A, B) == [i \in 1..Len(A) |-> FSubV(A[i], B[i])]
\* X = A B^+ : least squares (the residual is orthogonal to the rows of B) of minimum
\* norm (the rows of X are combinations W of the columns of B)
IsRightPinv(A, B, X, W) ==
  LET BT == Transp(B)
      G == FMatMul(FSubM(FMatMul(X, B), A), BT)
      b == FMul(Fx(2 * Len(B)), BMaxAbsM(B))      \* nine decimals of W or X, times B
  IN  /\ Len(X) = Len(A) /\ Len(X[1]) = Len(B)
      /\ FNearM(G, [i \in 1..Len(G) |-> [j \in 1..Len(G[i]) |-> <<0>>]],
                BAdd(Tol5(BMaxAbsM(FMatMul(A, BT))), FMul(b, BScale(Len(BT), BMaxAbsM(B)))))
      /\ FNearM(FMatMul(W, BT), X, BAdd(Tol5(BMaxAbsM(X)), b))

\* eigen-decomposition of a symmetric matrix, from a certificate:
\* u square with orthonormal columns, lam decreasing, G u = u diag(lam)
IsEig(G, u, lam) ==
  LET n == Len(G)
      tol == Tol6(IF n = 0 THEN <<0>> ELSE BMaxAbsM(G))
  IN  /\ Len(u) = n /\ Len(lam) = n /\ IsOrth(u)
      /\ \A k \in 1..(n - 1) : BLeq(lam[k + 1], BAdd(lam[k], tol))
      /\ FNearM(FMatMul(G, u), TLCEval([i \in 1..n |-> [j \in 1..n |-> FMul(u[i][j], lam[j])]]), tol)
\* Gram matrix on the shorter side
Gram(W) == IF Len(W) <= Len(W[1]) THEN FMatMul(W, Transp(W)) ELSE FMatMul(Transp(W), W)
\* eigenvalues lam certified as the squared singular values of W
IsSpectrum(W, c) == IsEig(Gram(W), c.u, c.lam)

\* trains with recorded cores: [sh, rk, c] where c[m] is flat (r_{m-1}, n_m, r_m)
TRank(t, m) == IF m = 0 \/ m = Len(t.sh) THEN 1 ELSE t.rk[m]
TrainOk(t) == /\ Len(t.c) = Len(t.sh) /\ Len(t.rk) = Len(t.sh) - 1
              /\ \A m \in 1..Len(t.sh) : Len(t.c[m]) = TRank(t, m - 1) * t.sh[m] * TRank(t, m)
CoreL(t, m) == ToMat(t.c[m], TRank(t, m - 1) * t.sh[m], TRank(t, m))      \* (r n) x r'
CoreR9(t, m) == ToMat(t.c[m], TRank(t, m - 1), t.sh[m] * TRank(t, m))     \* r x (n r')
FDen(t) ==        \* the array denoted, flat
  FlatMat(FoldLeft(LAMBDA acc, m :
            LET P == FMatMul(acc, CoreR9(t, m)) IN ToMat(FlatMat(P), Len(acc) * t.sh[m], TRank(t, m)),
          <<<<F9(1)>>>>, Iota(Len(t.sh))))
TrainT(t) ==
  LET d == Len(t.sh)
  IN  [sh |-> Rev(t.sh), rk |-> Rev(t.rk),
       c |-> [m \in 1..d |-> TransposeV(<<TRank(t, d - m), t.sh[d + 1 - m], TRank(t, d + 1 - m)>>, t.c[d + 1 - m])]]
LeftOrth(t) == \A m \in 1..(Len(t.sh) - 1) : IsOrth(CoreL(t, m))
=============================================================================
