------------------------------- MODULE GenLog -------------------------------
EXTENDS Log, Json, IOUtils, Randomization
File == JsonDeserialize(IOEnv.POOL_FILE)
Groups == File.groups       \* [files, names, keys: sequence of [k, vals], res: sequence of [k, vals], depth]
Depth == File.depth
VARIABLES gid, st, hist, done
vars == <<gid, st, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
P(n) == Pick(1..100) <= n
Of(s) == s[Pick(1..Len(s))]
Sub(s) == LET n == Pick(0..Len(s)) IN SelectSeq(s, LAMBDA x : P(75))
Draw(s) == LET t == Sub(s) IN [i \in 1..Len(t) |-> <<t[i].k, Of(t[i].vals)>>]
Past == SelectSeq(hist, LAMBDA e : e.op = "run")
Shuffle(s) == IF Len(s) < 2 THEN s ELSE LET i == Pick(1..Len(s)) IN <<s[i]>> \o SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* a configuration of the past, in another order, with one value or one key changed, or any
NewRun(x) ==
  LET f == Pick(1..Len(st))
      o == IF P(60) THEN "ok" ELSE Pick({"ok", "raise", "full"})
      c == IF Past # << >> /\ P(70) THEN
             LET e == Of(Past)
                 i == IF Len(e.conds) = 0 THEN 0 ELSE Pick(1..Len(e.conds))
                 vals == IF i = 0 THEN << >> ELSE g.keys[CHOOSE j \in 1..Len(g.keys) : g.keys[j].k = e.conds[i][1]].vals
                 ch == Pick(1..10)
             IN  CASE ch <= 5 \/ i = 0 -> [name |-> e.name, conds |-> Shuffle(e.conds)]
                   [] ch = 6 -> [name |-> e.name, conds |-> SubSeq(e.conds, 1, i - 1) \o SubSeq(e.conds, i + 1, Len(e.conds))]
                   [] ch = 7 -> [name |-> Of(g.names), conds |-> e.conds]
                   [] OTHER -> [name |-> e.name, conds |-> [e.conds EXCEPT ![i] = <<e.conds[i][1], Of(vals)>>]]
           ELSE [name |-> Of(g.names), conds |-> Draw(g.keys)]
  IN  [op |-> "run", f |-> f, name |-> c.name, conds |-> c.conds, out |-> o, cut |-> Pick(0..100), form |-> Pick(0..3),
       res |-> Draw(g.res)]
Ev0(x) ==
  LET f == Pick(1..Len(st))  c == Pick(1..100)
  IN  IF st[f].mem = None \/ c <= 22 THEN [op |-> "open", f |-> f, how |-> IF st[f].disk # None /\ P(50) THEN "load" ELSE IF P(12) THEN "overwrite" ELSE "init"]
      ELSE IF c <= 27 THEN [op |-> "save", f |-> f]
      ELSE NewRun(x)
Init == gid \in 1..Len(Groups) /\ st = [i \in 1..Groups[gid].files |-> New] /\ hist = << >> /\ done = FALSE
Next == \/ /\ Len(hist) < Depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ \E es \in {TLCEval([i \in 1..6 |-> Ev0(i)])} :
                LET ok == SelectSeq(es, LAMBDA e : LogOk(st, e))
                IN  IF ok = << >> THEN UNCHANGED <<st, hist>>
                    ELSE hist' = Append(hist, ok[1]) /\ \E s2 \in After(st[ok[1].f], ok[1]) : st' = [st EXCEPT ![ok[1].f] = s2]
        \/ Len(hist) = Depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, st, hist>>
Spec == Init /\ [][Next]_vars
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* no configuration twice
Once == \A f \in 1..Len(st) : LET r == Rows(st[f].mem) IN \A i \in 1..Len(r) : \A j \in 1..Len(r) : i < j => r[i] # r[j]
=============================================================================
