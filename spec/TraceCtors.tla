----------------------------- MODULE TraceCtors -----------------------------
(* Checks recorded uses of the constructors of random objects.                *)
EXTENDS Ctors, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
MCGroups == <<1>>
Traces == File.traces
VARIABLES tid, l, qs, ids, first, bad     \* requests, present and first contents
vars == <<tid, l, qs, ids, first, bad>>
Ev == Traces[tid].ev[l]
Old(n) == {i \in 1..Len(qs) : n = i}
Clause ==
  IF Ev.op = "make" /\ Refused(Ev.q) THEN (IF Ev.exn = "ValueError" THEN IF Ev.ids = ids THEN "ok" ELSE "earlier object changed" ELSE "not refused")
  ELSE IF Ev.exn # "" THEN "raised"
  ELSE IF Ev.op = "cover" THEN (IF Ev.ids # ids THEN "earlier object changed" ELSE IF Cardinality({Ev.ix[t] : t \in 1..Len(Ev.ix)}) = Numel(Ev.sh) THEN "ok" ELSE "never chosen")
  ELSE IF Ev.op = "poke" THEN (IF Ev.shared # << >> THEN "parts share memory" ELSE IF \A i \in 1..Len(ids) : i = Ev.p \/ Ev.ids[i] = ids[i] THEN "ok" ELSE "shared contents")
  ELSE LET q == Ev.q  o == Ev.obj  n == Len(qs)
           same == {i \in 1..n : qs[i] = q}
           alike == {i \in 1..n : [qs[i] EXCEPT !.seed = 0] = [q EXCEPT !.seed = 0]}
       IN  IF SubSeq(Ev.ids, 1, n) # ids THEN "earlier object changed"
           ELSE IF o.sh # q.sh \/ (q.kind = "mpo" /\ o.outs # q.outs) THEN "shape"
           ELSE IF o.rk # Rank(q) THEN "rank"
           ELSE IF [m \in 1..Len(o.parts) |-> o.parts[m].sh] # Parts(q) THEN "stored shapes"
           ELSE IF Contents(q, o) # "ok" THEN Contents(q, o)
           ELSE IF Seeded(q) /\ \E i \in same : first[i] # Ev.ids[n + 1] THEN "not reproduced"
           ELSE IF Draws(q) /\ \E i \in alike : ~(Seeded(q) /\ i \in same) /\ first[i] = Ev.ids[n + 1] THEN "not new"
           ELSE "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ qs = << >> /\ ids = << >> /\ first = << >> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Traces[tid].ev)
        /\ bad' = Clause
        /\ (IF bad' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, bad'>>))
        /\ ids' = Ev.ids
        /\ IF Ev.op = "make" /\ Ev.exn = "" THEN qs' = Append(qs, Ev.q) /\ first' = Append(first, Ev.ids[Len(Ev.ids)]) ELSE UNCHANGED <<qs, first>>
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
