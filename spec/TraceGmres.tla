----------------------------- MODULE TraceGmres -----------------------------
(* Checks recorded runs of the solver: events "call", "iter".., "end". *)
EXTENDS Gmres, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
PrepSys(sh, S) == LET ms == [k \in 1..Len(S.maps) |-> IF S.maps[k].k = "pc" THEN Pc(S.maps[k]) ELSE Mpo(S.maps[k].cores)]
                      pc == [k \in 1..Len(S.pc) |-> Pc(S.pc[k])]
                  IN  [sym |-> S.sym, maps |-> ms, pc |-> pc, Bm |-> SystemMat(pc, sh, ms)]
Prep(GS) == TLCEval([i \in 1..Len(GS) |-> LET G == GS[i] IN
   [sh |-> G.sh, systems |-> [j \in 1..Len(G.systems) |-> PrepSys(G.sh, G.systems[j])],
    bs |-> [j \in 1..Len(G.bs) |-> [sys |-> G.bs[j].sys, exact |-> G.bs[j].exact, v |-> Denote(G.bs[j].tt)]]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces
VARIABLES tid, l, st, k, c, rho, bad       \* c: index of the call event, rho: the last residual reported (15 decimals)
vars == <<tid, l, st, k, c, rho, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Call == Tr.ev[c]
g == Groups[Tr.g]
S == g.systems[Call.sys]
Bi == g.bs[Call.b].v
X0 == IF Call.x0 = 0 THEN Zeros(g.sh) ELSE g.bs[Call.x0].v
Cv == PreV(S.pc, g.sh, Bi)
R0 == Resid(S.pc, g.sh, S.maps, Bi, X0)
ZeroB == FZero(F9V(Bi))
Solved == FZero(R0)
Suff == Suffices(g.sh, Call.rank)
Below(r) == BLt(r, Call.tol15)
Near9(x, y, tol) == BNear(x, y, tol)
CallClause ==
  IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.changed # << >> THEN "modified"
  ELSE IF ~LegalCall(g, Ev) \/ (Ev.pb # 0 /\ \A q \in 1..Len(g.bs[Ev.b].v) : g.bs[Ev.b].v[q] = 0) THEN "illegal-event" ELSE "ok"
\* the event of the call carries the certificates: beta, nc (norms), Q, H
StartClause ==      \* with the first reported residual
  IF ~Ev.finite THEN "not finite"
  ELSE IF ~Suff THEN "ok"
  ELSE IF ~NormIs(Call.beta, R0) \/ ~NormIs(Call.nc, Cv) THEN "certificate"
  ELSE IF ~Solved /\ Call.K > 0 /\ ~KrylovOk(S.Bm, R0, Call.Q, Call.H, Call.beta) THEN "certificate"
  ELSE IF ~ZeroB /\ ~Near9(FMul(Ev.rho, Call.nc), Call.beta, Tol5(BAdd(Call.beta, Call.nc))) THEN "initial residual" ELSE "ok"
Part12(x) == BDivK(BDivK(x))        \* round-off, relative to the initial residual
IterClause ==
  LET kk == IF k + 1 <= Call.K THEN k + 1 ELSE Call.K IN      \* Krylov spaces stop growing at the dimension
  IF ~MayIter(k, Below(rho), Call.maxiter) THEN "iteration after the end"
  ELSE IF ~Ev.finite THEN "not finite"
  ELSE IF ~BLeq(Ev.rho15, BAdd(rho, BAdd(BAdd(BDivK(rho), Part12(Tr.ev[c + 1].rho15)), <<0, 1>>))) THEN "residual increases"
  ELSE IF ~Suff \/ Solved THEN "ok"
  ELSE LET BQ == FMatMul(S.Bm, ColsOf(Call.Q, kk))  r == ResidOf(BQ, R0, Ev.y)
       IN  IF ~OptimalOk(BQ, R0, r) \/ ~NormIs(Ev.nr, r) THEN "certificate"
           ELSE IF ~ZeroB /\ ~Near9(FMul(Ev.rho, Call.nc), Ev.nr, Inexact(Call, Call.beta)) THEN "reported residual is not minimal" ELSE "ok"
EndClause ==
  IF ~(k > 0 \/ Solved \/ Below(rho)) \/ ~MayEnd(k, Below(rho) \/ Solved \/ (Call.t = 0 /\ k > 0 /\ Nothing(rho)), Call.maxiter) THEN "ends early"
  ELSE IF Ev.cls # "TensorTrain" \/ Ev.sh # g.sh THEN "type or shape"
  ELSE IF ~RLeq(Ev.rk, Trim(g.sh, GArg(g.sh, FinalArg(Call)))) THEN "final rank"
  ELSE IF ~Ev.finite THEN "not finite"
  ELSE IF Call.save /\ k > 0 /\ ~(Ev.nnu = k /\ Ev.ny = k) THEN "basis"
  ELSE IF ~Suff \/ ~Suffices(g.sh, FinalArg(Call)) THEN "ok"
  ELSE IF Solved THEN (IF FNearV(Ev.x, F9V(X0)) THEN "ok" ELSE "exact initial value lost")
  ELSE LET r == FSubV(Cv, FlatMat(FMatMul(S.Bm, [i \in 1..Len(Ev.x) |-> <<Ev.x[i]>>])))
           best == Tr.ev[l - 1].nr
       IN  IF ~NormIs(Ev.nt, r) THEN "certificate"
           ELSE IF ~ZeroB /\ ~Near9(FMul(Tr.ev[l - 1].rho, Call.nc), Ev.nt, Inexact(Call, Call.beta)) THEN "reported residual is not the true one"
           ELSE IF k > 0 /\ ~Near9(Ev.nt, best, Inexact(Call, Call.beta)) THEN "not minimal"
           ELSE "ok"
Clause == CASE Ev.op = "call" -> IF st \notin {"new", "end"} THEN "no end" ELSE CallClause
            [] Ev.op = "rho0" -> IF st # "call" THEN "order" ELSE StartClause
            [] Ev.op = "iter" -> IF st # "run" THEN "order" ELSE IterClause
            [] Ev.op = "end"  -> IF st # "run" THEN "order" ELSE EndClause
            [] OTHER -> "illegal-event"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = "new" /\ k = 0 /\ c = 0 /\ rho = <<0>> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ LET w == Clause IN bad' = w /\ (IF w = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, w>>))
        /\ st' = (CASE Ev.op = "call" -> "call" [] Ev.op = "end" -> "end" [] OTHER -> "run")
        /\ k' = (IF Ev.op = "iter" THEN k + 1 ELSE IF Ev.op = "call" THEN 0 ELSE k)
        /\ c' = (IF Ev.op = "call" THEN l ELSE c)
        /\ rho' = (IF Ev.op \in {"rho0", "iter"} THEN Ev.rho15 ELSE rho)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
