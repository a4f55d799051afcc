-------------------------------- MODULE MCLog --------------------------------
(* All histories of two runs of two names and two conditions, with every kind  *)
(* of failure, on one file.                                                    *)
EXTENDS Log
VARIABLES st, runs
vars == <<st, runs>>
C == {<< >>, <<<<"a", "1">>>>, <<<<"a", "2">>>>, <<<<"b", "1">>, <<"a", "1">>>>}
E == {[op |-> "run", f |-> 1, name |-> n, conds |-> c, out |-> o, res |-> <<<<"error", "0">>>>] : n \in {"x", "y"}, c \in C, o \in {"ok", "raise", "full"}}
     \cup {[op |-> "open", f |-> 1, how |-> h] : h \in {"init", "load", "overwrite"}} \cup {[op |-> "save", f |-> 1]}
Init == st = <<New>> /\ runs = {}
Next == \E e \in E : /\ LogOk(st, e)
                     /\ \E s2 \in After(st[1], e) : st' = <<s2>> /\ Len(Rows(s2.mem)) <= 3
                     /\ runs' = IF e.op = "run" /\ e.out = "ok" /\ Called(st, e) THEN runs \cup {Conf(e)} ELSE IF e.op = "open" /\ e.how = "overwrite" THEN {} ELSE runs
Spec == Init /\ [][Next]_vars
\* a configuration is in the log once; whatever has been run and saved is found again
Once == \A i, j \in 1..Len(Rows(st[1].mem)) : i < j => Rows(st[1].mem)[i] # Rows(st[1].mem)[j]
Kept == st[1].mem # None => \A c \in runs : \E i \in 1..Len(st[1].mem) : c \subseteq st[1].mem[i]
\* the file only grows, unless a log that was told to overwrite it is saved
Grows == [][(st[1].disk # None /\ st'[1].disk # st[1].disk /\ st[1].mem # None /\ Len(Rows(st[1].disk)) <= Len(st[1].mem) /\ SubSeq(st[1].mem, 1, Len(st[1].disk)) = st[1].disk)
            => SubSeq(st'[1].disk, 1, Len(st[1].disk)) = st[1].disk]_vars
=============================================================================
