----------------------------- MODULE TraceMemo -----------------------------
(* Checks recorded histories of requests against the table of answers.        *)
EXTENDS Memo, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tid, l, table, objs, bad
vars == <<tid, l, table, objs, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Finite(v) == \A i \in 1..Len(v) : \A j \in 1..Len(v[i]) : Abs(v[i][j]) < 2000000000
One(T, k, a) ==
  IF ~LegalKey(k) THEN "illegal key"
  ELSE IF a.exc # "" THEN "raised"
  ELSE IF ~Finite(a.v) THEN "not finite"
  ELSE IF ~Consistent(T, k, a.v) THEN "not determined by the seed"
  ELSE IF ~Fresh(T, k, a.v) THEN "the same for another seed"
  ELSE IF a.left # << >> /\ a.right # << >> /\ ~Apart(a.left, a.right) THEN "both sides share numbers"
  ELSE "ok"
Calls == FoldLeft(LAMBDA acc, i : <<acc[1] \cup {[k |-> Ev.ks[i], v |-> Ev.res[i].v]}, IF acc[2] = "ok" THEN One(acc[1], Ev.ks[i], Ev.res[i]) ELSE acc[2]>>,
                  <<table, "ok">>, [i \in 1..Len(Ev.ks) |-> i])
Use(o) == CASE Ev.how = "whole" -> SameAns(o.v, Ev.v)
            [] Ev.how = "T" -> SameAns(o.v, Ev.v)
            [] Ev.how = "slice" -> SameAns(SliceOf(o.v, o.r, Ev.lo, Ev.hi), Ev.v)
            [] Ev.how = "grow" -> SameAns(o.v, SliceOf(Ev.v, Ev.hi, [i \in 1..Len(o.r) |-> 0], o.r))
Clause ==
  CASE Ev.op = "call" -> IF Ev.g0 # Ev.g1 THEN "global generator changed" ELSE Calls[2]
    [] Ev.op = "perturb" -> "ok"
    [] Ev.op = "new" -> IF Ev.exc # "" THEN "raised" ELSE IF ~Finite(Ev.v) THEN "not finite" ELSE "ok"
    [] Ev.op = "use" -> IF Ev.exc # "" THEN "raised" ELSE IF Ev.g0 # Ev.g1 THEN "global generator changed"
                        ELSE IF ~Use(objs[Ev.o]) THEN "an unseeded matrix changed" ELSE "ok"
    \* without seed: two requests get different answers (the generator is not reset between them)
    [] Ev.op = "unseeded" -> IF Ev.exc # "" THEN "raised" ELSE IF Continuous(Ev.k) /\ SameAns(Ev.v, Ev.v2) THEN "unseeded requests agree" ELSE "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ table = {} /\ objs = << >> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ bad' = Clause
        /\ table' = IF Ev.op = "call" THEN Calls[1] ELSE table
        /\ objs' = IF Ev.op = "new" THEN Append(objs, [v |-> Ev.v, r |-> Ev.r]) ELSE objs
        /\ (IF bad' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, bad'>>))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
