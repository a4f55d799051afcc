------------------------------ MODULE TraceHuge ------------------------------
EXTENDS Huge, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
PrepT(t) == [k |-> t.k, sh |-> t.sh, m |-> HDenote(t), rb |-> HRank(t)]
Prep(G) == TLCEval([i \in 1..Len(G) |-> [sh |-> G[i].sh, rec |-> G[i].rec, cap |-> G[i].cap, mpos |-> G[i].mpos, drms |-> G[i].drms,
                                         tens |-> [j \in 1..Len(G[i].tens) |-> PrepT(G[i].tens[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>
g == Groups[Traces[tid].g]
Ev == Traces[tid].ev[l]
P10(x, k) == BShift(BScale(CASE k % 3 = 0 -> 1 [] k % 3 = 1 -> 10 [] OTHER -> 100, x), k \div 3)
BProd(s) == FoldLeft(LAMBDA acc, n : BScale(n, acc), <<1>>, s)
\* numbers are recorded as mantissa (17 digits) and exponent: x = m * 10^e, e <= 30
\* |x * den - n| <= n / 10^6 + a, all times 10^-e
NearDec(x, den, n, a) ==
  LET k == IF x.e < 0 THEN -x.e ELSE 0
      y == BMul(P10(x.m, IF x.e > 0 THEN x.e ELSE 0), den)
  IN  BLeq(BScale(1000000, BAbs(BSub(y, P10(BigOf(n), k)))), P10(BigOf(Abs(n) + a), k))
\* the same for x^2 * den
NearSq(x, den, n, a) ==
  LET k == IF x.e < 0 THEN -2 * x.e ELSE 0
      y == BMul(BMul(BMul(x.m, x.m), den), P10(<<1>>, IF x.e > 0 THEN 2 * x.e ELSE 0))
  IN  BLeq(BScale(1000000, BAbs(BSub(y, P10(BigOf(n), k)))), P10(BigOf(Abs(n) + a), k))
Res ==
  LET x == st[Ev.a]
  IN CASE Ev.op = "gather" -> IF Ev.res = [i \in 1..Len(Ev.ix) |-> AtM(x.m, Ev.ix[i])] THEN "ok" ELSE "gather"
       [] Ev.op = "dot" -> IF NearDec(Ev.res, <<1>>, HDot(x.m, st[Ev.b].m), 1) THEN "ok" ELSE "dot"
       [] Ev.op = "norm" -> IF BSign(Ev.res.m) < 0 THEN "norm-sign" ELSE IF NearSq(Ev.res, <<1>>, HDot(x.m, x.m), 1) THEN "ok" ELSE "norm"
       [] Ev.op = "error" ->
            LET y == st[Ev.b]
                df == HAdd(x.m, y.m, -1)  n2 == HDot(df, df)  a2 == HDot(x.m, x.m)  b2 == HDot(y.m, y.m)
                den == BMul(BigOf(IF Ev.rel THEN b2 ELSE 1), IF Ev.rmse THEN BProd(x.sh) ELSE <<1>>)
            IN  IF Ev.rel /\ b2 = 0 THEN (IF Ev.inf \/ ~y.ex \/ Ev.nz THEN "ok" ELSE "error-relative-to-zero")
                ELSE IF Ev.inf THEN "error-infinite"
                ELSE IF BSign(Ev.res.m) < 0 THEN "error-sign"
                ELSE IF NearSq(Ev.res, den, n2, 1 + (IF Ev.fast THEN a2 + b2 ELSE 0)) THEN "ok" ELSE "error"
       [] Ev.op = "sketch" ->
            LET D == g.drms[Ev.l]
                c == HSketch(x.sh, x.m, D.l.cores, D.r.cores, D.l.rank, D.r.rank)
            IN  IF Ev.obs.psi # c.psi THEN "psi" ELSE IF Ev.obs.om # c.om THEN "omega" ELSE IF Ev.obs.sz # SkSize(x.sh, D.l.rank, D.r.rank) THEN "sketch-size" ELSE "ok"
       [] OTHER -> "ok"
Obs(o) ==
  IF Ev.obs.sh # o.sh THEN "shape" ELSE IF Ev.obs.n # o.n THEN "summands" ELSE IF Ev.obs.k # o.k THEN "format"
  ELSE IF Ev.op = "split" /\ ~NearDec(Ev.res, <<1>>, HDot(o.m, o.m), 1) THEN "split" ELSE "ok"
Clause ==
  IF ~HOk(g, st, Ev) THEN "illegal-event"
  ELSE IF Ev.exc # "" THEN "raised"
  ELSE IF Ev.op \in {"gather", "dot", "norm", "error", "sketch"} THEN Res
  ELSE LET s2 == HDo(g, st, Ev) IN Obs(s2[Len(s2)])
Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = << >> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Traces[tid].ev)
        /\ \E c \in {Clause} : bad' = c /\ IF c = "ok" THEN st' = HDo(g, st, Ev) ELSE PrintT(<<"REJECT", tid, l, c>>) /\ UNCHANGED st
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(st) : \A x \in DOMAIN st[i].m : st[i].m[x] # 0
=============================================================================
