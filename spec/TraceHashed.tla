---------------------------- MODULE TraceHashed ----------------------------
(* Checks recorded requests against the table of the entries revealed.        *)
EXTENDS Hashed, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Prep(G) == TLCEval([i \in 1..Len(G) |-> [cls |-> G[i].cls, side |-> G[i].side, rows |-> G[i].rows, r |-> G[i].r, nnz |-> G[i].nnz]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces
VARIABLES tid, l, table, bad
vars == <<tid, l, table, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
g == Groups[Tr.g]
Sign == g.cls \in {"ss", "fn-sign"}
RowsOf(e) == [i \in 1..Len(e.rows) |-> g.rows[e.rows[i]]]
\* the matrix of a plain function call has one bond behind all modes
NameSide == IF g.cls \in {"fn-normal", "fn-sign"} THEN "f" ELSE g.side
Names(rows) == IF NameSide = "f" THEN [i \in 1..Len(rows) |-> <<rows[i]>>] ELSE rows
New(e) == Revealed(IF NameSide = "f" THEN "l" ELSE NameSide, Names(RowsOf(e)), e.lo, e.hi, e.vals)
Whole(e, m) == e.lo[m] = 0 /\ e.hi[m] = g.r[m]
Clause(T) ==
  IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.op = "stats" THEN
    IF \A m \in 1..Len(Ev.z) : IF Sign THEN SignStats(Ev.z[m], Ev.z[m].n, g.r[m], g.nnz[m]) ELSE NormalStats(Ev.z[m], Ev.z[m].n) THEN "ok" ELSE "distribution"
  ELSE IF ~Complete(Ev.rows, Ev.lo, Ev.hi, Ev.vals) THEN "shape"
  ELSE IF ~Sign /\ \E t \in T : t[4] = 0 THEN "not finite"
  ELSE IF ~IsFunction(T) THEN "entry changed"
  ELSE IF ~Sign /\ ~Injective(T) THEN "different entries agree"
  ELSE IF Sign /\ \E m \in 1..Len(Ev.lo) : Whole(Ev, m) /\ \E i \in 1..Len(Ev.rows) : ~SignRow(Ev.vals[m][i], g.nnz[m]) THEN "number of non-zeros"
  ELSE IF Sign /\ \E t \in T : t[4] \notin {1, 2, 3} THEN "not a sign"
  ELSE "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ table = {} /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ table' = (IF Ev.op = "ask" /\ Ev.exc = "" /\ Complete(Ev.rows, Ev.lo, Ev.hi, Ev.vals) THEN table \cup New(Ev) ELSE table)
        /\ bad' = Clause(table')
        /\ (IF bad' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, bad'>>))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
