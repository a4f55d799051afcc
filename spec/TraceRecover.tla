---------------------------- MODULE TraceRecover ----------------------------
(* Checks recorded histories of recoveries. *)
EXTENDS Recover, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Prep(G) == TLCEval([i \in 1..Len(G) |-> [j \in 1..Len(G[i].tens) |->
   [sh |-> G[i].tens[j].sh, v |-> Denote(G[i].tens[j]), kinds |-> KindsOf(G[i].tens[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces
VARIABLES tid, l, known, bad
vars == <<tid, l, known, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
g == Groups[Tr.g]
Clause ==
  IF ~Legal(g, known, Ev) THEN "illegal-event"
  ELSE IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.op = "T" THEN "ok"
  ELSE LET t == Do(g, known, Ev)[Len(known) + 1]
       IN  IF Ev.sh # t.sh THEN "shape"
           ELSE IF ~Generic(t.sh, t.v, Ev.method, Ev.L, Ev.R) THEN "skip"
           ELSE IF ~Same(Ev.x, F9V(t.v)) THEN "not recovered" ELSE "ok"
\* behind a result that need not be exact nothing is known
Init == tid \in 1..Len(Traces) /\ l = 1 /\ known = << >> /\ bad = "ok"
Next == /\ bad \in {"ok", "skip"} /\ l <= Len(Tr.ev)
        /\ LET w == IF bad = "skip" THEN "skip" ELSE Clause IN bad' = w /\ (IF w \in {"ok", "skip"} THEN TRUE ELSE PrintT(<<"REJECT", tid, l, w>>))
        /\ known' = (IF bad' = "ok" THEN Do(g, known, Ev) ELSE known)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
