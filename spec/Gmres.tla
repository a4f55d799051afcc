------------------------------- MODULE Gmres -------------------------------
(* The TT-GMRES solver (C17) for A x = b, left-preconditioned by the inverse  *)
(* of a matrix acting on one mode.  A run is a state machine                  *)
(*   new -> run -> ... -> run -> end                                          *)
(* over the reported relative residuals; LinMaps says what A and the          *)
(* preconditioner are.  Bm, cv, r0 below: the preconditioned matrix, right-    *)
(* hand side and initial residual.                                            *)
EXTENDS LinMaps, Fix, Ranks

\* ---- the run, as a machine: rho is the last reported residual, tol the tolerance ----
MayIter(k, below, maxiter) == k < maxiter /\ (k = 0 \/ ~below)
MayEnd(k, below, maxiter) == k = maxiter \/ below
\* a residual that is zero up to round-off (fifteen decimals): the Krylov space may be exhausted, nothing is left to do
Nothing(r) == BLt(r, <<0, 1>>)

\* ---- the problem; everything with nine decimals ----
\* 1/c with nine decimals, for c dividing 10^9
Recip(c) == LET q == 1000000000 \div Abs(c)
                dg == <<q % 1000, (q \div 1000) % 1000, q \div 1000000>>
            IN  IF c < 0 THEN BNeg(dg) ELSE BNorm(dg)
PreV(pc, sh, v) == IF pc = << >> THEN F9V(v) ELSE LET w == ModeMul(sh, v, pc[1].mode, Transp(pc[1].B)) IN TLCEval([k \in 1..Len(w) |-> BMul(<<w[k]>>, Recip(pc[1].c))])
\* the matrix of x |-> P^-1 A x, as rows: y = Bm x
SystemMat(pc, sh, maps) ==
  LET M == FoldLeft(LAMBDA acc, k : AddM(acc, MapM(maps[k])), MapM(maps[1]), Drop(Iota(Len(maps)), 1))
      P == IF pc = << >> THEN M ELSE TLCEval([p \in 1..Len(M) |-> ModeMul(sh, M[p], pc[1].mode, Transp(pc[1].B))])
      dn == IF pc = << >> THEN 1 ELSE pc[1].c
  IN  TLCEval([q \in 1..Len(P) |-> [p \in 1..Len(P) |-> BMul(<<P[p][q]>>, Recip(dn))]])
ApplyA(maps, v) == ApplyM(FoldLeft(LAMBDA acc, k : AddM(acc, MapM(maps[k])), MapM(maps[1]), Drop(Iota(Len(maps)), 1)), v)
Resid(pc, sh, maps, b, x0) == PreV(pc, sh, SubV(b, ApplyA(maps, x0)))

\* ---- the certificate of a Krylov space: columns Q, Hessenberg H, with B Q_K = Q_{K+1} H ----
ColsOf(Q, k) == TLCEval([i \in 1..Len(Q) |-> SubSeq(Q[i], 1, k)])
KrylovOk(Bm, r0, Q, H, beta) ==
  LET K == Len(H[1])
      tol == Tol6(BMaxAbsM(Bm))
  IN  /\ Len(Q) = Len(r0) /\ Len(H) = K + 1
      /\ \A i \in 1..Len(Q) : Len(Q[i]) = K + 1
      /\ \A i \in 1..(K + 1) : \A j \in 1..K : i > j + 1 => BSign(H[i][j]) = 0
      /\ IsOrth(ColsOf(Q, K))
      /\ BNearV([i \in 1..Len(Q) |-> FMul(beta, Q[i][1])], r0, TolV(r0))
      /\ FNearM(FMatMul(Bm, ColsOf(Q, K)), FMatMul(Q, H), tol)
\* y solves min || r0 - B Q_k y ||: the residual is orthogonal to B Q_k
ResidOf(BQ, r0, y) == FSubV(r0, FlatMat(FMatMul(BQ, [i \in 1..Len(y) |-> <<y[i]>>])))
OptimalOk(BQ, r0, r) ==
  LET t == Tol5(FMul(BMaxAbs(r0), BAdd(F9(1), BMaxAbsM(BQ))))
  IN  \A j \in 1..Len(BQ[1]) : BLeq(BAbs(FDot([i \in 1..Len(BQ) |-> BQ[i][j]], r)), t)
\* x (certificate) is the norm of v, up to 10^-6
NormIs(x, v) ==
  LET dl == Tol6(x)  sq == FSq(v)  u == BAdd(x, dl)  w == BSub(x, dl)  e == Fx(10 * Len(v))
  IN  /\ BSign(x) >= 0 /\ BLeq(sq, BAdd(FMul(u, u), e))
      /\ BSign(w) <= 0 \/ BLeq(FMul(w, w), BAdd(sq, e))
\* how far numbers may be from those of exact arithmetic: the tolerance 10^-t of the inner
\* roundings, relative to the initial residual (norm beta); sketches of full rank do not truncate
Inexact(e, beta) ==
  BAdd(Tol5(beta), IF e.method \in {"sketch", "orth_sketch"} THEN <<0>>
                   ELSE FMul(BMul(<<IF e.t >= 3 THEN 10 ELSE 100>>, beta), CASE e.t = 1 -> Fx(100000000) [] e.t = 2 -> Fx(10000000) [] e.t = 4 -> Fx(100000) [] e.t = 6 -> Fx(1000) [] OTHER -> Fx(1)))

\* ---- rank arguments ----
GArg(sh, a) == IF a.k \in {"int", "npint"} THEN [m \in 1..(Len(sh) - 1) |-> a.r[1]] ELSE a.r
Full(sh) == Trim(sh, [m \in 1..(Len(sh) - 1) |-> Numel(sh)])
Suffices(sh, a) == RLeq(Full(sh), GArg(sh, a))
FinalArg(e) == IF e.final.k = "none" THEN e.rank ELSE e.final
ArgGood(sh, a) == a.k \in {"int", "npint"} \/ (Len(a.r) = Len(sh) - 1)
Pos(a) == \A m \in 1..Len(a.r) : a.r[m] >= 1
RMethods == {"exact", "pairwise", "sketch", "orth_sketch"}
Scales == {0, 40, -50}
LegalCall(g, e) ==
  /\ e.sys \in 1..Len(g.systems) /\ e.b \in 1..Len(g.bs) /\ e.x0 \in 0..Len(g.bs)
  /\ (g.bs[e.b].sys # 0 => g.bs[e.b].sys = e.sys)
  /\ e.t \in {0, 1, 2, 4, 6, 9}       \* tolerance 10^-t; 0: none
  /\ e.maxiter >= 1 /\ e.method \in RMethods /\ e.fmethod \in RMethods \cup {"none"}
  /\ ArgGood(g.sh, e.rank) /\ Pos(e.rank) /\ (e.final.k = "none" \/ (ArgGood(g.sh, e.final) /\ Pos(e.final)))
  /\ (e.sym => g.systems[e.sys].sym)
  \* the map times 2^pa, the right-hand side times 2^pb (and the guess and the solution times 2^(pb - pa)):
  \* the same run, up to these factors
  /\ e.pa \in Scales /\ e.pb \in Scales
=============================================================================
