----------------------------- MODULE TraceStream ----------------------------
(* Checks recorded histories of streaming sketches.  A trace is              *)
(*   [g, L, R, ev]  with the tables of the two random matrices at full rank, *)
(* numbers with 9 decimals as large integers.                                *)
EXTENDS Stream, Fix, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Prep(G) == TLCEval([i \in 1..Len(G) |->
  [sh |-> G[i].sh, fl |-> G[i].fl, fr |-> G[i].fr, grow |-> G[i].grow,
   tens |-> [j \in 1..Len(G[i].tens) |-> [sh |-> G[i].tens[j].sh, v |-> Denote(G[i].tens[j])]]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces

VARIABLES tid, l, st, tf, bad
vars == <<tid, l, st, tf, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
g == Scaled(Groups[Tr.g], tf)
Unit == <<<<BShift(<<1>>, 3)>>>>
FN(n) == BigOf(n)
SC(o) == SlotComp(BMatMul, Unit, FN, g, [L |-> Tr.L, R |-> Tr.R], o)
\* tolerance (18 decimals) for an array of given 1-norm
Tol(o) == LET n1 == FoldLeft(LAMBDA acc, x : acc + Abs(x), 1, o.v)
              mx == BAdd(BAdd(FoldLeft(LAMBDA acc, A : BMax(acc, BMaxAbsM(A)), <<0>>, Tr.L),
                              FoldLeft(LAMBDA acc, A : BMax(acc, BMaxAbsM(A)), <<0>>, Tr.R)), BShift(<<1>>, 3))
          IN  BScale(4, BMul(BigOf(n1), mx))
NearC(got, want, tol) ==     \* got: 9 decimals, want: 18
  Len(got) = Len(want) /\ \A q \in 1..Len(got) : BNear(BShift(got[q], 3), want[q], tol)
ObsClause(o, seen) ==
  LET c == SC(o)  tol == Tol(o)  d == Len(o.sh)
  IN  CASE seen.sh # o.sh                  -> "shape"
        [] seen.lr # o.lr \/ seen.rr # o.rr -> "rank"
        [] seen.psh # [m \in 1..d |-> PsiSh(o.sh, o.lr, o.rr, m)] -> "psi-shape"
        [] seen.osh # [m \in 1..(d - 1) |-> <<o.lr[m], o.rr[m]>>] -> "omega-shape"
        [] seen.sz # -1 /\ seen.sz # SkSize(o.sh, o.lr, o.rr) -> "size"
        [] ~\A m \in 1..d : NearC(seen.psi[m], c.psi[m], tol)     -> "psi"
        [] ~\A m \in 1..(d - 1) : NearC(seen.om[m], c.om[m], tol) -> "omega"
        [] OTHER -> "ok"
\* ---- assembly: core by core the solution of a least-squares problem ----------
\* X = A B^+.  That X has minimum norm is required where B is well-conditioned
\* (otherwise round-off decides which singular values count) or zero.
ZeroM(B) == \A i \in 1..Len(B) : FZero(B[i])
WellCond(B, c) == IsSpectrum(B, c) /\ BLeq(BMaxAbs(c.lam), BScale(10000, c.lam[Len(c.lam)]))
Huge(X) == BLt(F9(1000000), BMaxAbsM(X))
Solves(A, B, X, W, c, none) ==
  IF ~(Len(X) = Len(A) /\ Len(X[1]) = Len(B)) THEN FALSE
  ELSE IF ZeroM(B) THEN none => ZeroM(X)      \* none: not even round-off
  ELSE IF WellCond(B, c) THEN IsRightPinv(A, B, X, W)
  ELSE Huge(X) \/ LET BT == Transp(B) IN FZ(FMatMul(FSubM(FMatMul(X, B), A), BT), BAdd(BMaxAbsM(FMatMul(A, BT)), FMul(BMaxAbsM(X), FMul(BMaxAbsM(B), BMaxAbsM(B)))))
\* bound of the round-off in the entries of the array of a train
RoundOff(t) == FoldLeft(LAMBDA acc, m : FMul(acc, BAdd(F9(1), BScale(TRank(t, m), BMaxAbs(t.c[m])))), Fx(1000 * Len(t.sh)), Iota(Len(t.sh)))
AsmClause ==
  LET o == st[Ev.a]  t == Ev.t  d == Len(o.sh)  side == AsmSide(o, Ev.dir)
      psiL(m) == ToMat(Ev.obs.psi[m], (IF m = 1 THEN 1 ELSE o.lr[m - 1]) * o.sh[m], IF m = d THEN 1 ELSE o.rr[m])
      psiR(m) == ToMat(Ev.obs.psi[m], IF m = 1 THEN 1 ELSE o.lr[m - 1], o.sh[m] * (IF m = d THEN 1 ELSE o.rr[m]))
      om(m) == ToMat(Ev.obs.om[m], o.lr[m], o.rr[m])
      seen == ObsClause(o, Ev.obs)
      x == FDen(t)  pv == g.tens[Ev.p].v  p9 == F9V(pv)
      ro == RoundOff(t)
      n1 == FoldLeft(LAMBDA acc, q : acc + Abs(q), 1, pv)
      df == FSubV(x, p9)  x2 == FSq(x)  p2 == FSq(p9)
      mag == BAdd(BAdd(x2, p2), BMul(BScale(Numel(o.sh), FMul(ro, BAdd(ro, BMaxAbs(x)))), <<4>>))
      \* the square of the error, times what it has been divided by
      errok == LET e2 == BMul(FMul(Ev.err, Ev.err), <<IF Ev.rmse THEN Numel(o.sh) ELSE 1>>)
                   nb == IF Ev.flip THEN x2 ELSE p2
                   got == IF Ev.rel THEN FMul(e2, nb) ELSE e2
               IN  BNear(got, FSq(df), BAdd(BAdd(Tol5(mag), Tol5(FSq(df))), BAdd(ro, IF Ev.rel THEN Tol5(FMul(nb, Ev.err)) ELSE <<0>>)))
  IN  IF seen # "ok" THEN seen
      ELSE IF t.sh # o.sh \/ t.rk # AsmRank(o, Ev.dir) \/ ~TrainOk(t) THEN "assembled-shape"
      ELSE IF (IF side = "right" THEN t.c[d] # Ev.obs.psi[d] ELSE t.c[1] # Ev.obs.psi[1]) THEN "end core"
      ELSE IF ~\A m \in 1..(d - 1) :
                 IF side = "right" THEN Solves(psiL(m), om(m), CoreL(t, m), Ev.W[m], Ev.cert[m], Ev.none[m])
                 ELSE Solves(Transp(psiR(m + 1)), Transp(om(m)), Transp(CoreR9(t, m + 1)), Ev.W[m], Ev.cert[m], Ev.none[m]) THEN "least squares"
      ELSE IF o.k = "c" THEN "ok"
      ELSE IF Ev.dir = "auto" /\ Ev.tt # t THEN "to_tt"
      ELSE IF Ev.dir # "auto" THEN "ok"
      ELSE IF Ev.nsh # o.sh \/ ~BNearV(Ev.np, x, BAdd(TolV(x), ro)) THEN "to_numpy"
      ELSE IF ~BNear(Ev.dot, FDot(x, p9), BAdd(BAdd(Tol5(FMul(BMaxAbs(x), F9(n1))), BScale(n1, ro)), Tol5(<<0>>))) THEN "sketch-dot"
      ELSE IF BSign(Ev.norm) < 0 \/ ~BNear(FMul(Ev.norm, Ev.norm), x2, BAdd(Tol5(mag), ro)) THEN "sketch-norm"
      ELSE IF Ev.inf THEN (IF Ev.rel /\ BLeq(IF Ev.flip THEN x2 ELSE p2, ro) THEN "ok" ELSE "error-infinite")
      ELSE IF Ev.rel /\ (IF Ev.flip THEN BLeq(x2, BAdd(F9(1), ro)) ELSE p2 = <<0>>) THEN "ok"
      ELSE IF BSign(Ev.err) < 0 \/ ~errok THEN "sketch-error" ELSE "ok"
\* rows lo+1..hi of the table, exactly
SliceClause ==
  LET T == IF Ev.side = "l" THEN Tr.L ELSE Tr.R
      want == [m \in 1..Len(T) |-> [x \in 1..Len(T[m]) |-> SubSeq(T[m][x], Ev.lo[m] + 1, Ev.hi[m])]]
  IN  IF Ev.res = want THEN "ok" ELSE "slice"
Clause ==
  IF ~Ok(g, st, Ev) THEN "illegal-event"
  ELSE IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.op = "slice" THEN SliceClause
  ELSE IF Ev.op = "asm" THEN (IF Ev.changed # << >> THEN "modified" ELSE AsmClause)
  ELSE IF Ev.op = "poke" THEN (IF Ev.changed # << >> THEN "modified" ELSE "ok")
  ELSE LET st2 == Do(g, st, Ev)
       \* the new sketch is observed in full; of the others, whether they changed
       IN  IF Ev.changed # << >> THEN "modified"
           ELSE ObsClause(st2[Len(st2)], Ev.obs)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = << >> /\ tf = [j \in 1..Len(Groups[Traces[tid].g].tens) |-> 1] /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ LET c == Clause
           IN  /\ bad' = c
               /\ IF c = "ok" THEN st' = Do(g, st, Ev) /\ tf' = Factors(tf, Ev) ELSE PrintT(<<"REJECT", tid, l, c>>) /\ UNCHANGED <<st, tf>>
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(st) : Len(st[i].v) = Numel(st[i].sh)
=============================================================================
