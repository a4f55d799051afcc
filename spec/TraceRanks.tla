----------------------------- MODULE TraceRanks -----------------------------
(* Checks recorded calls against the ranks Calls.tla defines. *)
EXTENDS Calls, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Clause ==
  IF Ev.exc # "" THEN "raised"
  ELSE CASE Ev.op = "trim"   -> IF Ev.res = TrainRank(Ev) THEN "ok" ELSE "trimmed ranks"
         [] Ev.op = "train"  -> IF Ev.res # TrainRank(Ev) THEN "rank" ELSE IF Ev.shapes # CoreShapes(Ev.sh, TrainRank(Ev)) THEN "core shapes" ELSE "ok"
         [] Ev.op = "drm"    -> IF Ev.res # ArgVal(Ev.sh, Ev.rank) THEN "rank" ELSE "ok"
         [] Ev.op = "stream" -> IF Ev.left # StreamLeft(Ev.sh, Ev.rank, Ev.right) THEN "left rank"
                                ELSE IF Ev.rightr # StreamRight(Ev.sh, Ev.rank, Ev.right) THEN "right rank"
                                ELSE IF Ev.res # StreamTT(Ev.sh, Ev.rank, Ev.right) THEN "rank of the train" ELSE "ok"
         [] Ev.op \in {"hmt", "osk", "svd", "rsum"} -> IF Ev.res # Trim(Ev.sh, ArgVal(Ev.sh, Ev.rank)) THEN "rank" ELSE "ok"
         [] Ev.op \in {"round", "rsumx"} -> IF RLeq(Ev.res, Trim(Ev.sh, ArgVal(Ev.sh, Ev.rank))) THEN "ok" ELSE "rank"
         [] Ev.op = "mpo"    -> IF Ev.res # Trim([m \in 1..Len(Ev.sh) |-> Ev.sh[m] * Ev.osh[m]], ArgVal(Ev.sh, Ev.rank)) THEN "rank" ELSE "ok"
         [] Ev.op = "tucker" -> IF Ev.res # TuckerRank(Ev.sh, Ev.rank) THEN "rank" ELSE "ok"
         [] OTHER -> "illegal-event"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ LET c == Clause IN bad' = c /\ (IF c = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, c>>))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
