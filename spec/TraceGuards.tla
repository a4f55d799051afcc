----------------------------- MODULE TraceGuards -----------------------------
(* A request is answered exactly if it is consistent, and changes nothing. *)
EXTENDS Guards, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Clause == IF Accept(Ev) /\ ~Free(Ev) /\ Ev.exc # "" THEN "consistent request refused"
          ELSE IF ~Accept(Ev) /\ ~Free(Ev) /\ Ev.exc = "" THEN "inconsistent request answered"
          ELSE IF Ev.hang THEN "no answer"
          ELSE IF Ev.changed # << >> THEN "modified by the request"
          ELSE "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ LET c == Clause IN bad' = c /\ (IF c = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, c>>))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
