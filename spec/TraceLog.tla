------------------------------ MODULE TraceLog ------------------------------
EXTENDS Log, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>
Ev == Traces[tid].ev[l]
S(rows) == [i \in 1..Len(rows) |-> {rows[i][j] : j \in 1..Len(rows[i])}]
Seen(x) == IF x.none THEN None ELSE S(x.rows)
Match == {s2 \in After(st[Ev.f], Ev) : s2.mem = Seen(Ev.mem) /\ s2.disk = Seen(Ev.disk[Ev.f])}
Clause ==
  IF ~LogOk(st, Ev) THEN "illegal-event"
  ELSE LET call == Called(st, Ev)  fails == Fails(st, Ev)
       IN  IF Ev.op = "run" /\ Ev.calls # (IF call THEN 1 ELSE 0) THEN (IF call THEN "not run" ELSE "run again")
           ELSE IF call /\ ~Ev.given THEN "arguments"
           ELSE IF (Ev.exc # "") # fails THEN (IF fails THEN "failure hidden" ELSE "raised")
           ELSE IF Match = {} THEN (IF ~\E s2 \in After(st[Ev.f], Ev) : s2.disk = Seen(Ev.disk[Ev.f]) THEN "file" ELSE "rows")
           ELSE IF \E f \in 1..Len(st) : f # Ev.f /\ Seen(Ev.disk[f]) # st[f].disk THEN "other file"
           ELSE IF Ev.others # << >> THEN "other log" ELSE "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [i \in 1..Traces[tid].files |-> New] /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Traces[tid].ev)
        /\ \E c \in {Clause} : /\ bad' = c
                               /\ IF c = "ok" THEN \E s2 \in Match : st' = [st EXCEPT ![Ev.f] = s2] ELSE PrintT(<<"REJECT", tid, l, c>>) /\ UNCHANGED st
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == \A f \in 1..Len(st) : \A i \in 1..Len(Rows(st[f].mem)) : OneValue(Rows(st[f].mem)[i])
=============================================================================
