----------------------------- MODULE TraceUtils -----------------------------
(* Checks recorded uses of the utilities. *)
EXTENDS Utils, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Prep(G) == TLCEval(G)
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces
VARIABLES tid, l, sh, v, bad
vars == <<tid, l, sh, v, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
g == Groups[Tr.g]
Clause(nx) ==
  IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.changed THEN "argument changed"
  ELSE CASE Ev.op = "load" -> "ok"
    [] Ev.op = "mat" ->
         IF Ev.sh # MatShape(sh, Ev.mode, Ev.flat) THEN "shape" ELSE IF Ev.v # Mat(sh, v, Ev.mode) THEN "matricization" ELSE "ok"
    [] Ev.op = "mul" -> IF Ev.sh # nx.sh THEN "shape" ELSE IF Ev.v # nx.v THEN "dematricization" ELSE "ok"
    [] Ev.op = "pinv" ->
         LET pr == g.pairs[Ev.p]  A == IF Ev.vec THEN <<pr.A[1]>> ELSE pr.A
         IN  IF IsRightPinv(F9M(A), F9M(pr.B), Ev.X, Ev.W) THEN "ok" ELSE "pseudo-inverse"
    [] Ev.op = "had" -> IF Ev.B # HadB(Ev.n, Ev.m, Ev.e) THEN "matrix" ELSE IF Ev.X # HadPinv(Ev.A, Ev.n, Ev.m, Ev.e, Ev.c) THEN "cut-off" ELSE "ok"
    [] Ev.op = "diag" -> IF Ev.X # DiagPinv(Ev.A, Ev.n, Ev) THEN "cut-off" ELSE "ok"
    [] Ev.op = "proj" -> ProjectorClause(g.projs[Ev.p].X, g.projs[Ev.p].Y, Ev.P, Ev.K)
    [] Ev.op = "hilbert" -> IF HilbertOk(Ev.d, Ev.n, Ev.sh, Ev.v) THEN "ok" ELSE "hilbert"
    [] Ev.op = "sqrt" -> IF SqrtOk(Ev.sh, Ev.a, Ev.b, Ev.rsh, Ev.v) THEN "ok" ELSE "sqrt"
    [] Ev.op = "decay" -> DecayClause(Ev.sh, Ev.p, Ev.rsh, Ev.v, Ev.cert)
    [] OTHER -> "unknown"
Step == IF Ev.exc # "" THEN [sh |-> sh, v |-> v]
        ELSE IF Ev.op = "load" THEN [sh |-> g.arrs[Ev.p].sh, v |-> g.arrs[Ev.p].v]
        ELSE IF Ev.op = "mul" THEN MulMode(sh, v, Ev.m, Ev.B) ELSE [sh |-> sh, v |-> v]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ sh = << >> /\ v = << >> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ \E nx \in {TLCEval(Step)} :
             /\ sh' = nx.sh /\ v' = nx.v /\ bad' = Clause(nx)
        /\ (IF bad' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, bad'>>))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
