------------------------------- MODULE Utils -------------------------------
(* Matricizations, multiplication by pseudo-inverses, projectors and model    *)
(* tensors.  The machine holds one array of integers; it is matricized        *)
(* (which leaves it alone) and multiplied in a mode by way of matricization   *)
(* and dematricization.  The other operations have no state: each is decided  *)
(* by what defines it.                                                        *)
EXTENDS Fix
Others(d, mode) == SelectSeq(Iota(d), LAMBDA m : \A i \in 1..Len(mode) : mode[i] # m)
Order(d, mode) == mode \o Others(d, mode)
\* mode: distinct modes, counted from 1; flat: one row index for all of them
MatShape(sh, mode, flat) ==
  LET left == [i \in 1..Len(mode) |-> sh[mode[i]]]  o == Others(Len(sh), mode)
      right == Prod([i \in 1..Len(o) |-> sh[o[i]]])
  IN  (IF flat THEN <<Prod(left)>> ELSE left) \o <<right>>
Mat(sh, v, mode) == Permute(sh, v, Order(Len(sh), mode))
\* the array whose matricization in mode m has the rows w (flat): the inverse
InvPerm(p) == [i \in 1..Len(p) |-> CHOOSE j \in 1..Len(p) : p[j] = i]
Demat(sh, w, m) ==
  LET p == Order(Len(sh), <<m>>)
  IN  Permute([i \in 1..Len(sh) |-> sh[p[i]]], w, InvPerm(p))
\* array after multiplication of mode m by B (new x old index)
MulMode(sh, v, m, B) ==
  LET o == Others(Len(sh), <<m>>)  nc == Prod([i \in 1..Len(o) |-> sh[o[i]]])
      P == MatMul(B, ToMat(Mat(sh, v, <<m>>), sh[m], nc))
      nsh == [sh EXCEPT ![m] = Len(B)]
  IN  [sh |-> nsh, v |-> Demat(nsh, FlatMat(P), m)]

\* ---- pseudo-inverses ----------------------------------------------------------
\* K = M^+, by the four conditions
IsPinv(M, K) ==
  LET MK == FMatMul(M, K)  KM == FMatMul(K, M)
      s == BAdd(F9(1), BMaxAbsM(KM))
  IN  /\ Len(K) = Len(M[1]) /\ Len(K[1]) = Len(M)
      /\ FNearM(FMatMul(MK, M), M, Tol5(BMaxAbsM(M))) /\ FNearM(FMatMul(KM, K), K, Tol5(BMaxAbsM(K)))
      /\ FNearM(MK, Transp(MK), Tol5(F9(1))) /\ FNearM(KM, Transp(KM), Tol5(F9(1)))
\* Hadamard matrix entries: sign of the parity of the common bits
RECURSIVE Parity(_, _)
Parity(i, j) == IF i = 0 \/ j = 0 THEN 0 ELSE (((i % 2) * (j % 2)) + Parity(i \div 2, j \div 2)) % 2
Had(n) == [i \in 1..n |-> [j \in 1..n |-> IF Parity(i - 1, j - 1) = 0 THEN 1 ELSE -1]]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* B = sum over i of 2^e[i] u_i v_i^T, u_i and v_i columns of Hadamard matrices of sizes n and m
HadB(n, m, e) == LET U == Had(n)  V == Had(m) IN [a \in 1..n |-> [b \in 1..m |-> Sum(Len(e), LAMBDA i : Pow2(e[i]) * U[a][i] * V[b][i])]]
\* kept by the cut-off 3 / 2^c relative to the greatest value
Kept(e, c) == LET top == MaxSeq(e) IN SelectSeq(Iota(Len(e)), LAMBDA i : c < 0 \/ Pow2(e[i]) * Pow2(c) > 3 * Pow2(top))
\* n m 2^top (A B^+), an integer matrix, if only the values that are kept count
HadPinv(A, n, m, e, c) ==
  LET U == Had(n)  V == Had(m)  top == MaxSeq(e)  ks == Kept(e, c)
      AV == MatMul(A, V)
  IN  [a \in 1..Len(A) |-> [b \in 1..n |-> Sum(Len(ks), LAMBDA q : Pow2(top - e[ks[q]]) * AV[a][ks[q]] * U[b][ks[q]])]]

\* B has 10^ex[i] at <<rw[i], cl[i]>> and is zero elsewhere.  Column rw[i] of A B^+ times
\* 10^ex[i] is column cl[i] of A, unless 10^ex[i] is not above the cut-off 3 * 10^-c relative
\* to the greatest value (c < 0: the default one, far below all values)
DiagPinv(A, n, e) ==
  LET top == FoldLeft(LAMBDA acc, x : Max2(acc, x), e.ex[1], e.ex)
      kept(i) == e.c < 0 \/ e.ex[i] > top - e.c
  IN  [a \in 1..Len(A) |-> [j \in 1..n |-> LET I == SelectSeq(Iota(Len(e.ex)), LAMBDA i : e.rw[i] = j) IN IF I = << >> THEN 0 ELSE IF kept(I[1]) THEN A[a][e.cl[I[1]]] ELSE 0]]

\* ---- projectors ------------------------------------------------------------------
IRank(A) == RankMod(A, 46337)
ProjectorClause(X, Y, P, K) ==
  LET n == Len(X)  M == MatMul(Transp(Y), X)
      X9 == F9M(X)  Y9 == F9M(Y)  M9 == F9M(M)
      PX == FMatMul(P, X9)  YP == FMatMul(Transp(Y9), P)
      r == IRank(M)  one == BAdd(F9(1), BMaxAbsM(P))
  IN  IF ~(Len(P) = n /\ \A i \in 1..n : Len(P[i]) = n) THEN "shape"
      ELSE IF ~IsPinv(M9, K) THEN "certificate"
      ELSE IF ~FNearM(FMatMul(P, P), P, Tol5(one)) THEN "idempotent"
      ELSE IF r = IRank(X) /\ ~FNearM(PX, X9, Tol5(BAdd(one, BMaxAbsM(X9)))) THEN "range"
      ELSE IF r = IRank(Y) /\ ~FNearM(YP, Transp(Y9), Tol5(BAdd(one, BMaxAbsM(Y9)))) THEN "kernel"
      ELSE IF ~FNearM(FMatMul(FMatMul(X9, K), Transp(Y9)), P, Tol5(one)) THEN "projector"
      ELSE "ok"

\* ---- model tensors ----------------------------------------------------------------
HilbertOk(d, n, sh, v) ==
  /\ sh = [m \in 1..d |-> n] /\ Len(v) = Numel(sh)
  /\ \A q \in 1..Len(v) : FNear(BMul(v[q], <<SumSeq(Unflatten(sh, q - 1)) + 1>>), F9(1), Fx(2000))
\* values a to b (tenths) at equal distances, in units of 1 / (10 L)
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Lcm(x, y) == (x \div Gcd(x, y)) * y
GridL(sh) == FoldLeft(LAMBDA acc, n : IF n > 1 THEN Lcm(acc, n - 1) ELSE acc, 1, sh)
GridVal(L, n, a, b, i) == a * L + (IF n > 1 THEN (b - a) * i * (L \div (n - 1)) ELSE 0)
SqrtSums(sh, a, b) == LET L == GridL(sh) IN Fill(sh, LAMBDA ix : Abs(Sum(Len(sh), LAMBDA m : GridVal(L, sh[m], a, b, ix[m]))))
SqrtLegal(sh, a, b) == SumSeq(SqrtSums(sh, a, b)) > 0
SqrtOk(sh, a, b, rsh, v) ==
  LET S == SqrtSums(sh, a, b)  T == SumSeq(S)
  IN  /\ rsh = sh /\ Len(v) = Len(S)
      /\ \A q \in 1..Len(v) : BSign(v[q]) >= 0 /\ FNear(BMul(FMul(v[q], v[q]), <<T>>), F9(S[q]), Tol5(F9(MaxSeq(S))))
      /\ FNear(FSq(v), F9(1), Fx(10000))
\* decay: squared singular values at most k^-p (p twice the power) in the last mode, the
\* first of them one, and up to a factor in the others, which are changed by the modes
\* treated after them
RECURSIVE IPow(_, _)
IPow(k, p) == IF p = 0 THEN 1 ELSE k * IPow(k, p - 1)
DecayClause(sh, p, rsh, v, cert) ==
  LET d == Len(sh)
      U(m) == LET nc == Numel(sh) \div sh[m] IN ToMat(Mat(sh, v, <<m>>), sh[m], nc)
  IN  IF rsh # sh \/ Len(v) # Numel(sh) THEN "shape"
      ELSE IF ~\A m \in 1..d : IsSpectrum(U(m), cert[m]) THEN "certificate"
      ELSE IF ~FNear(cert[d].lam[1], F9(1), Fx(3000)) \/ ~\A k \in 1..Len(cert[d].lam) : BLeq(BMul(cert[d].lam[k], <<IPow(k, p)>>), BAdd(F9(1), BMul(<<IPow(k, p)>>, Fx(3000)))) THEN "last mode"
      ELSE IF ~\A m \in 1..(d - 1) : \A k \in 1..Len(cert[m].lam) : BLeq(BMul(cert[m].lam[k], <<IPow(k, p)>>), BAdd(F9(4), BMul(<<IPow(k, p)>>, Fx(3000)))) THEN "decay"
      ELSE IF ~\A m \in 1..(d - 1) : BLeq(Fx(100000000), cert[m].lam[1]) THEN "vanishes"
      ELSE "ok"
=============================================================================
