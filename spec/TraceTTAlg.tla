----------------------------- MODULE TraceTTAlg -----------------------------
(* Checks recorded lives of tensor trains (TTAlg).  State: the abstract       *)
(* state s, the denoted array v with nine decimals (exact as long as nothing  *)
(* has been truncated, and then also iv, the integer array; << >> after), and *)
(* the ranks recorded last.                                                   *)
EXTENDS TTAlg, Sweep, SketchDef, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Prep(G) == TLCEval([i \in 1..Len(G) |-> [tens |-> G[i].tens, adds |-> G[i].adds,
   tv |-> [j \in 1..Len(G[i].tens) |-> Denote(G[i].tens[j])], av |-> [j \in 1..Len(G[i].adds) |-> Denote(G[i].adds[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces

VARIABLES tid, l, s, v, iv, rk, bad
vars == <<tid, l, s, v, iv, rk, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
g == Groups[Tr.g]
d == Len(s.sh)

\* what a producing operation must satisfy, as clause names
Mx == IF Ev.rank.k = "none" THEN Trim(s.sh, rk) ELSE TrimArg(s.sh, Ev.rank)
Shape(t, sh) == TrainOk(t) /\ t.sh = sh
First(cs) == LET f == SelectSeq(cs, LAMBDA c : ~c[1]) IN IF f = << >> THEN "ok" ELSE f[1][2]

\* a rounding sweep (right to left) of the array x of shape sh into t
RoundClause(sh, x, t, mx, eps, cert) ==
  IF ~Shape(t, sh) THEN "shape"
  ELSE LET tr == TrainT(t)  xr == TransposeV(sh, x)  n == Len(sh)
       IN  IF ~LeftOrth(tr) THEN "right-orthonormal"
           ELSE LET ss == SweepStates(xr, tr)  mr == Rev(mx)
                IN  IF ~\A m \in 1..(n - 1) : IsSpectrum(ss[m].W, cert[m]) THEN "certificate"
                    ELSE IF ~\A m \in 1..(n - 1) : t.rk[m] <= mx[m] THEN "rank exceeds"
                    ELSE IF ~\A m \in 1..(n - 1) : KeepOk(cert[m].lam, eps, mr[m], tr.rk[m]) THEN "values kept"
                    ELSE IF ~IsProjection(xr, tr, ss) THEN "projection"
                    ELSE IF ~\A m \in 1..(n - 1) : Dominant(ss[m], cert[m].lam, tr.rk[m]) THEN "dominant"
                    ELSE "ok"
SvdClause(t, mx, cert, specs) ==
  IF ~Shape(t, s.sh) THEN "shape"
  ELSE IF t.rk # mx THEN "rank"
  ELSE IF ~LeftOrth(t) THEN "left-orthonormal"
  ELSE LET ss == SweepStates(v, t)
       IN  IF ~\A m \in 1..(d - 1) : IsSpectrum(ss[m].W, cert[m]) THEN "certificate"
           ELSE IF ~SpecsOk(s.sh, v, specs) THEN "certificate"
           ELSE IF ~IsProjection(v, t, ss) THEN "projection"
           ELSE IF ~\A m \in 1..(d - 1) : Dominant(ss[m], cert[m].lam, t.rk[m]) THEN "dominant"
           ELSE IF ~SqErrOk(v, t, specs) THEN "quasi-optimal"
           ELSE IF Ev.rank.k = "none" /\ ~FNearV(FDen(t), v) THEN "exact"
           ELSE "ok"
Exact(t) == iv # << >> /\ RLeq(TTRankOf(s.sh, iv), t.rk)
\* the sketching sweeps; Z(m, W) spans what step m must contain
SketchClause(t, mx, Z(_, _)) ==
  IF ~Shape(t, s.sh) THEN "shape"
  ELSE IF t.rk # mx THEN "rank"
  ELSE IF ~LeftOrth(t) THEN "left-orthonormal"
  ELSE LET ss == SweepStates(v, t)
       IN  IF ~IsProjection(v, t, ss) THEN "projection"
           ELSE IF ~\A m \in 1..(d - 1) : RangeWithin(CoreL(t, m), Z(m, ss[m].W)) THEN "range"
           ELSE IF BLt(BAdd(FSq(v), Tol5(FSq(v))), FSq(FDen(t))) THEN "larger than input"
           ELSE "ok"
OmegaAt(m) == FMatMul(FMatMul(Transp(Ev.L[m]), UnfoldF(s.sh, v, m)), Ev.R[m])
SumIV(pre) == FoldLeft(LAMBDA acc, i : AddV(acc, ScaleV(Ev.with[i][2], g.av[Ev.with[i][1]])), iv, Iota(pre))
SumV(pre) == FoldLeft(LAMBDA acc, i : FAddV(acc, F9V(ScaleV(Ev.with[i][2], g.av[Ev.with[i][1]]))), v, Iota(pre))
\* pairwise rounding: summand after summand, each step a rounding sweep; pre[i] is the
\* result for the first i+1 summands (Ev.pre[1]: the first one alone)
PairClause ==
  LET n == Len(Ev.with)  mx == TrimArg(s.sh, Ev.rank)
      Step(i) ==    \* i >= 1: from pre[i] (or the bare first summand) and summand i
        LET x0 == IF i = 1 THEN v ELSE FDen(Ev.pre[i])
            x == FAddV(x0, F9V(ScaleV(Ev.with[i][2], g.av[Ev.with[i][1]])))
        IN  RoundClause(s.sh, x, Ev.pre[i + 1], mx, Ev.eps, Ev.cert[i + 1])
      bads == IF n = 0 THEN << >> ELSE SelectSeq([i \in 1..n |-> Step(i)], LAMBDA c : c # "ok")
  IN  IF n = 0 THEN RoundClause(s.sh, v, Ev.res, mx, Ev.eps, Ev.cert[1])
      ELSE IF bads # << >> THEN bads[1]
      ELSE IF ~Shape(Ev.res, s.sh) \/ ~FNearV(FDen(Ev.res), FDen(Ev.pre[n + 1])) THEN "repeat" ELSE "ok"
RsumClause ==
  LET mx == TrimArg(s.sh, Ev.rank)
      x == SumV(Len(Ev.with))
      suff == iv # << >> /\ Ev.eps = 0 /\ \A i \in (IF Ev.method = "pairwise" THEN 0 ELSE Len(Ev.with))..Len(Ev.with) : RLeq(TTRankOf(s.sh, SumIV(i)), mx)
      c == CASE Ev.method = "exact" -> RoundClause(s.sh, x, Ev.res, mx, Ev.eps, Ev.cert[1])
             [] Ev.method = "pairwise" -> PairClause
             [] Ev.method = "sketch" -> IF ~Shape(Ev.res, s.sh) THEN "shape" ELSE IF Ev.res.rk # mx THEN "rank" ELSE "ok"
             [] Ev.method = "orth_sketch" -> IF ~Shape(Ev.res, s.sh) THEN "shape" ELSE IF Ev.res.rk # mx THEN "rank"
                                             ELSE IF ~LeftOrth(Ev.res) THEN "left-orthonormal"
                                             ELSE IF ~IsProjection(x, Ev.res, SweepStates(x, Ev.res)) THEN "projection" ELSE "ok"
             [] Ev.method = "none" -> IF Ev.obs.cls # "TensorSum" \/ ~FNearV(Ev.obs.v, x) THEN "method None" ELSE "ok"
  IN  IF c # "ok" THEN c
      ELSE IF Ev.method # "none" /\ suff /\ ~FNearV(FDen(Ev.res), x) THEN "exact"
      ELSE "ok"
\* spectra of the unfoldings against the values returned: one list per mode, the
\* first two of them for the first bond
ValsClause ==
  LET ok(b, vals) ==
        LET lam == Ev.specs[b].lam
            tol == Tol5(lam[1])
            at(j) == IF j <= Len(lam) THEN lam[j] ELSE <<0>>
        IN  /\ \A j \in 1..Len(vals) : BSign(vals[j]) >= 0 /\ BNear(FMul(vals[j], vals[j]), at(j), tol)
            /\ \A j \in (Len(vals) + 1)..Len(lam) : BLeq(lam[j], tol)
            /\ \A j \in 1..(Len(vals) - 1) : BLeq(vals[j + 1], vals[j])
  IN  IF ~SpecsOk(s.sh, v, Ev.specs) THEN "certificate"
      ELSE IF Len(Ev.vals) # d THEN "count"
      ELSE IF ~\A b \in 1..(d - 1) : ok(b, Ev.vals[b + 1]) THEN "singular values"
      ELSE IF ~ok(1, Ev.vals[1]) THEN "singular values (first)" ELSE "ok"
Clause ==
  IF ~Legal(g, s, Ev) THEN "illegal-event"
  ELSE IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.changed THEN "operand modified"
  ELSE CASE Ev.op = "orth" -> IF ~Shape(Ev.res, s.sh) THEN "shape" ELSE IF ~LeftOrth(Ev.res) THEN "left-orthonormal"
                              ELSE IF ~RLeq(Ev.res.rk, rk) THEN "rank" ELSE IF ~FNearV(FDen(Ev.res), v) THEN "array" ELSE "ok"
         [] Ev.op = "round" -> LET c == RoundClause(s.sh, v, Ev.res, Mx, Ev.eps, Ev.cert)
                               IN  IF c # "ok" THEN c
                                   ELSE IF Ev.zc /\ \E m \in 1..(d - 1) : Ev.res.rk[m] # 1 THEN "zero singular values kept"
                                   ELSE IF Ev.eps = 0 /\ (Ev.rank.k = "none" \/ Exact([rk |-> Mx])) /\ ~FNearV(FDen(Ev.res), v) THEN "exact" ELSE "ok"
         [] Ev.op = "svd" -> LET c == SvdClause(Ev.res, IF Ev.rank.k = "none" THEN Trim(s.sh, [m \in 1..(d - 1) |-> Numel(s.sh)]) ELSE TrimArg(s.sh, Ev.rank), Ev.cert, Ev.specs)
                             IN  IF c # "ok" THEN c ELSE IF Exact(Ev.res) /\ ~FNearV(FDen(Ev.res), v) THEN "exact" ELSE "ok"
         [] Ev.op = "hmt" -> LET c == SketchClause(Ev.res, TrimArg(s.sh, Ev.rank), LAMBDA m, W : FMatMul(W, Ev.R[m]))
                             IN  IF c # "ok" THEN c ELSE IF Ev.t # "ss" /\ Exact(Ev.res) /\ ~FNearV(FDen(Ev.res), v) THEN "exact" ELSE "ok"
         [] Ev.op = "osk" -> LET om == TLCEval([m \in 1..(d - 1) |-> OmegaAt(m)])
                                 c == SketchClause(Ev.res, TrimArg(s.sh, Ev.rank), LAMBDA m, W : FMatMul(FMatMul(W, Ev.R[m]), Transp(om[m])))
                             IN  IF c # "ok" THEN c ELSE IF Ev.t # "ss" /\ Ev.t2 # "ss" /\ Exact(Ev.res) /\ ~FNearV(FDen(Ev.res), v) THEN "exact" ELSE "ok"
         [] Ev.op = "norm" -> IF BNear(FMul(Ev.val, Ev.val), FSq(v), Tol5(FSq(v))) THEN "ok" ELSE "norm"
         [] Ev.op = "svdvals" -> ValsClause
         [] Ev.op = "rsum" -> RsumClause
         [] OTHER -> "ok"
TT == IF s.sh = << >> THEN << >> ELSE TransposeV(s.sh, v)
NextArrays ==
  CASE Ev.op = "start" -> v' = F9V(g.tv[Ev.p]) /\ iv' = g.tv[Ev.p]
    [] Ev.op = "T"     -> v' = TransposeV(s.sh, v) /\ iv' = IF iv = << >> THEN iv ELSE TransposeV(s.sh, iv)
    [] Ev.op = "scale" -> v' = FScale(Ev.c, v) /\ iv' = IF iv = << >> THEN iv ELSE ScaleV(Ev.c, iv)
    [] Ev.op = "add"   -> v' = FAddV(v, F9V(g.av[Ev.p])) /\ iv' = IF iv = << >> THEN iv ELSE AddV(iv, g.av[Ev.p])
    [] Ev.op \in {"svd", "round", "hmt", "osk"} -> v' = FDen(Ev.res) /\ iv' = << >>
    [] Ev.op = "rsum" /\ Ev.method # "none" -> v' = FDen(Ev.res) /\ iv' = << >>
    [] OTHER -> UNCHANGED <<v, iv>>
NextRanks ==
  CASE Ev.op \in {"svd", "round", "hmt", "osk", "orth"} -> Ev.res.rk
    [] Ev.op = "rsum" /\ Ev.method # "none" -> Ev.res.rk
    [] Ev.op = "start" -> g.tens[Ev.p].rk
    [] Ev.op = "T" -> Rev(rk)
    [] Ev.op = "add" -> [m \in 1..Len(rk) |-> rk[m] + g.adds[Ev.p].rk[m]]
    [] OTHER -> rk
Nil == [sh |-> << >>, tt |-> FALSE, k |-> "", rk |-> << >>, lo |-> FALSE, ro |-> FALSE, n |-> 0]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Nil /\ v = << >> /\ iv = << >> /\ rk = << >> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ LET c == Clause
           IN  /\ bad' = c
               /\ IF c = "ok" THEN s' = After(g, s, Ev) /\ NextArrays /\ rk' = NextRanks
                  ELSE PrintT(<<"REJECT", tid, l, c>>) /\ UNCHANGED <<s, v, iv, rk>>
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad = "ok" => (v # << >> => Len(v) = Numel(s.sh))
=============================================================================
