---------------------------- MODULE TraceGraded -----------------------------
(* Checks recorded truncations against Graded.  Recorded of every result: its *)
(* shape, the coefficient of each term in thousandths of 2^(-e_i), the largest *)
(* of the other coefficients and what is outside the span of the terms, in    *)
(* thousandths of 2^(-33).                                                     *)
EXTENDS Graded, Fix, Json, IOUtils
File == JsonDeserialize(IOEnv.TRACE_FILE)
Groups == File.groups
Traces == File.traces
VARIABLES tid, l, s, bad
vars == <<tid, l, s, bad>>
Tr == Traces[tid]
g == Groups[Tr.g]
Set(x) == {x[i] : i \in 1..Len(x)}
Ev == LET e == Tr.ev[l] IN IF e.op = "start" THEN [e EXCEPT !.X = Set(e.X)] ELSE e
New == After(g, s, Ev)
Slack == 20       \* of 1000
Near(x, y) == x - y <= Slack /\ y - x <= Slack
Has(o, i, X) == Near(o.diag[i], IF i \in X THEN 1000 * g.c[i] ELSE 0)
RankOk(o) ==
  CASE Ev.op = "round" /\ Ev.k > 0 -> o.rk = Rounded(g, s, s.kept, Ev.rank, Ev.k).rk
    [] Ev.op = "rsum" /\ Ev.method = "exact" /\ Ev.k > 0 -> o.rk = Rounded(g, s, s.kept \cup Set(Ev.is), Ev.rank, Ev.k).rk
    [] Ev.op \in {"round", "rsum"} -> \A m \in 1..Len(o.rk) : o.rk[m] <= Mx(s, Ev.rank)[m]
    [] Ev.op = "svd" /\ Ev.rank.k # "none" -> o.rk = Mx(s, Ev.rank)
    [] OTHER -> TRUE
\* (value * 2^33)^2 against c^2 4^(33 - e) times the squared lengths
TwoTo(n) == FoldLeft(LAMBDA a, i : BMul(a, <<2>>), <<1>>, [i \in 1..n |-> i])
Lengths == FoldLeft(LAMBDA a, m : BMul(a, <<NormSq(g, m)>>), <<1>>, [m \in 1..Len(g.sh) |-> m])
Square(i) == FMul(F9(1), BMul(F9(g.c[i] * g.c[i]), BMul(TwoTo(2 * (33 - g.e[i])), Lengths)))
Percent(x) == LET n == BNorm(BMul(x, <<50>>)) IN IF Len(n) <= 1 THEN <<0>> ELSE SubSeq(n, 2, Len(n))        \* five percent
ValsOk(vals) == LET q == SetToSortSeq(s.kept, LAMBDA a, b : a < b) IN
  /\ Len(vals) >= Len(q)
  /\ \A j \in 1..Len(vals) : LET v2 == FMul(vals[j], vals[j]) IN
       IF j <= Len(q) THEN BSign(vals[j]) > 0 /\ BNear(v2, Square(q[j]), Percent(Square(q[j])))
       ELSE BSign(vals[j]) >= 0 /\ BLeq(v2, Percent(F9(1)))
Clause ==
  IF ~Legal(g, s, Ev) THEN "illegal-event"
  ELSE IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.op = "svdvals" THEN (IF Len(Ev.vals) = Len(s.sh) /\ \A b \in 1..Len(Ev.vals) : ValsOk(Ev.vals[b]) THEN "ok" ELSE "singular values")
  ELSE LET o == Ev.obs IN
    IF o.sh # New.sh THEN "shape"
    ELSE IF New.tt /\ ~o.tt THEN "type"
    ELSE IF ~\A i \in New.kept : Has(o, i, New.kept) THEN "term lost"
    ELSE IF ~\A i \in 1..g.n : Has(o, i, New.kept) THEN "term kept"
    ELSE IF ~Near(o.off, 0) \/ ~Near(o.out, 0) THEN "other terms"
    ELSE IF ~RankOk(o) THEN "rank" ELSE "ok"
Nil == [sh |-> << >>, kept |-> {}, tt |-> FALSE, how |-> ""]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = Nil /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ \E c \in {Clause} : bad' = c /\ (IF c = "ok" THEN s' = New ELSE PrintT(<<"REJECT", tid, l, c>>) /\ s' = s)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
