--------------------------------- MODULE Log ---------------------------------
(* Experiment logs (scripts/experiment_base.py).  A log on a file runs each    *)
(* configuration once, also across reloads, failing experiments and saves that *)
(* are interrupted.                                                            *)
(*   st[f] = [mem, disk]  rows of the log in memory and on file f; a row is a  *)
(*   set of pairs <<key, value>> (values as canonical texts), one per key      *)
(*   mem = None resp. disk = None: there is no log, no file              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
None == <<{<<"-", "-">>}>>
New == [mem |-> None, disk |-> None]
Rows(s) == IF s = None THEN << >> ELSE s
Conf(e) == {<<"name", e.name>>} \cup {e.conds[i] : i \in 1..Len(e.conds)}
Row(e) == Conf(e) \cup {e.res[i] : i \in 1..Len(e.res)}
\* some run with these conditions is in the log
Done(rows, e) == \E i \in 1..Len(rows) : Conf(e) \subseteq rows[i]
OneValue(row) == \A x \in row : \A y \in row : x[1] = y[1] => x = y
LogOk(st, e) ==
  /\ e.f \in 1..Len(st)
  /\ CASE e.op = "open" -> e.how \in {"init", "load", "overwrite"}
       [] e.op = "run"  -> st[e.f].mem # None /\ OneValue(Row(e)) /\ e.out \in {"ok", "raise", "full"}
                          /\ (e.out = "full" => LET s == st[e.f] IN Len(Rows(s.disk)) <= Len(s.mem) /\ SubSeq(s.mem, 1, Len(Rows(s.disk))) = Rows(s.disk))
       [] e.op = "save" -> st[e.f].mem # None
       [] OTHER -> FALSE
Fails(st, e) == \/ e.op = "open" /\ e.how = "load" /\ st[e.f].disk = None
                \/ e.op = "run" /\ ~Done(st[e.f].mem, e) /\ e.out # "ok"
Called(st, e) == e.op = "run" /\ ~Done(st[e.f].mem, e)
\* the possible states of the log afterwards: after an interrupted save the new run may be kept in memory
After(s, e) ==
  CASE e.op = "open" /\ e.how = "load" /\ s.disk = None -> {s}
    [] e.op = "open" -> {[s EXCEPT !.mem = IF e.how = "overwrite" THEN << >> ELSE Rows(s.disk)]}
    [] e.op = "save" -> {[s EXCEPT !.disk = s.mem]}
    [] Done(s.mem, e) \/ e.out = "raise" -> {s}
    [] e.out = "full" -> {s, [s EXCEPT !.mem = Append(@, Row(e))]}
    [] OTHER -> LET m == Append(s.mem, Row(e)) IN {[mem |-> m, disk |-> m]}
=============================================================================
