---------------------------- MODULE TraceSession ----------------------------
(* Decides whether recorded sessions are behaviours of Session.  A trace is  *)
(* [pool, drms, ev]; each event carries the operation, what it returned and  *)
(* delta, the observations (of every variable of the session) that differ    *)
(* from the previous ones.  The verdict is total: a rejected event is        *)
(* printed with the name of the failing clause and ends the trace.           *)
EXTENDS Session, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACE_FILE)
PoolsJ == File.pools
Traces == File.traces
Limit == Len(Traces)

VARIABLES tid, l, st, obs, memo, bad
vars == <<tid, l, st, obs, memo, bad>>

DrmOf(j) == [side |-> j.side, sh |-> j.sh,
             tab |-> IF j.side = "l" THEN LeftTable(j.cores) ELSE RightTable(j.sh, j.cores),
             rank |-> j.rank]
MCPool == FoldLeft(LAMBDA acc, p : acc \o p.pool, << >>, PoolsJ)
MCDrms == TLCEval(FoldLeft(LAMBDA acc, p : acc \o [i \in 1..Len(p.drms) |-> DrmOf(p.drms[i])], << >>, PoolsJ))

Ev == Traces[tid].ev[l]
Has(r, f) == f \in DOMAIN r

\* ---- observations ---------------------------------------------------------
ObsClause(o, seen) ==
  IF o.t = "x"
  THEN CASE seen.t # "x"                 -> "not-a-tensor"
         [] seen.sh # o.sh               -> "shape"
         [] seen.v # o.v                 -> "value"
         [] o.sz >= 0 /\ seen.sz # o.sz  -> "size"
         [] o.k = "sum" /\ seen.n # o.n  -> "summands"
         [] o.rk # << >> /\ seen.rk # o.rk -> "rank"
         [] OTHER -> "ok"
  ELSE LET lr == SkLeftRank(o)  rr == SkRightRank(o)  c == SkComponents(o)
       IN CASE seen.t # "sk"               -> "not-a-sketch"
            [] seen.sh # o.sh              -> "sketch-shape"
            [] seen.lr # lr \/ seen.rr # rr -> "sketch-rank"
            [] seen.psi # c.psi            -> "psi"
            [] seen.om # c.om              -> "omega"
            [] seen.sz # SkSize(o.sh, lr, rr) -> "sketch-size"
            [] OTHER -> "ok"
\* the observations after the event
NewObs(n) == [s \in 1..n |->
   LET ds == {i \in 1..Len(Ev.delta) : Ev.delta[i].s = s}
   IN  IF ds # {} THEN Ev.delta[CHOOSE i \in ds : TRUE]
       ELSE IF s <= Len(obs) THEN obs[s] ELSE [t |-> "none"]]

\* ---- results of observers ---------------------------------------------------
\* recorded numbers are fixed-point with 6 decimals (Big)
NumNear(x6, n) == BNear(x6, F6(n), BAdd(BigOf(2), BScale(2, BigOf(Abs(n)))))
CallKey == <<Ev.fn, st.slots[Ev.a], Obj(st, Ev.a).ver, IF Has(Ev, "l") THEN <<Ev.l, Ev.r>> ELSE << >>>>
ResClause ==
  LET A == IF Ev.op \in Observers \ Refused THEN Obj(st, Ev.a) ELSE 0
  IN
  CASE Ev.op = "gather" ->
         IF Ev.res = [i \in 1..Len(Ev.ix) |-> At(A.sh, A.v, Ev.ix[i])] THEN "ok" ELSE "gather"
    [] Ev.op = "partial" ->
         \* L[m], R[m]: contractions of the first m, of the other cores; C: the cores
         LET d == Len(A.sh)
             flat(c) == [q \in 1..(Len(c) * Len(c[1])) |-> c[(q - 1) \div Len(c[1]) + 1][((q - 1) % Len(c[1])) + 1]]
             left(c) == flat(c)                                   \* (a,i) x b
             right(c) == [x \in 1..Len(c) |-> FlatMat(c[x])]      \* a x (i,b)
         IN  IF Len(Ev.L) # d - 1 \/ Len(Ev.R) # d - 1 THEN "partial-count"
             ELSE IF ~\A m \in 1..(d - 1) : BIsProdInt(Ev.L[m], Ev.R[m], Unfold(A.sh, A.v, m)) THEN "partial-product"
             ELSE IF Ev.L[1] # left(Ev.cores[1]) \/ Ev.R[d - 1] # right(Ev.cores[d]) THEN "partial-end"
             ELSE IF ~\A m \in 1..(d - 2) : BIsProd(Ev.L[m], right(Ev.cores[m + 1]),
                       ToMat(FlatMat(Ev.L[m + 1]), Len(Ev.L[m]), A.sh[m + 1] * Len(Ev.cores[m + 1][1][1]))) THEN "partial-left"
             ELSE "ok"
    [] Ev.op = "call" ->
         LET same == {i \in 1..Len(memo) : memo[i].key = CallKey}
         IN  IF same = {} THEN "ok"
             ELSE LET old == memo[CHOOSE i \in same : TRUE].res
                      tol == BAdd(F6(1), BMaxAbs(old))
                  IN  IF Len(old) = Len(Ev.res)
                           /\ \A i \in 1..Len(old) : BLeq(BMul(<<0, 100>>, BAbs(BSub(old[i], Ev.res[i]))), tol)
                      THEN "ok" ELSE "not-repeatable"
    [] Ev.op = "dot" ->
         LET B == Obj(st, Ev.b) IN IF NumNear(Ev.res, DotV(A.v, B.v)) THEN "ok" ELSE "dot"
    [] Ev.op = "norm" ->
         \* |res^2 - |A|^2| small, res >= 0
         LET n2 == DotV(A.v, A.v)
             r2 == BMul(Ev.res, Ev.res)
         IN  IF BSign(Ev.res) < 0 THEN "norm-sign"
             ELSE IF BNear(r2, F12(n2), BAdd(F6(1), BScale(8, F6(n2)))) THEN "ok" ELSE "norm"
    [] Ev.op = "error" ->
         LET B  == Obj(st, Ev.b)
             df == SubV(A.v, B.v)
             n2 == DotV(df, df)
             b2 == DotV(B.v, B.v)
             a2 == DotV(A.v, A.v)
             \* expected^2 = n2 / (b2 if rel) / (N if rmse)
             den == BMul(BigOf(IF Ev.rel THEN b2 ELSE 1), BigOf(IF Ev.rmse THEN Numel(A.sh) ELSE 1))
             r2  == BMul(BMul(Ev.res, Ev.res), den)     \* scale 10^12
             \* absolute accuracy of the square: the inner-product formula cancels
             tol == BAdd(BScale(20, BMul(den, F6(1))), BScale(20, F6(1 + n2 + a2 + b2)))
         IN  IF Ev.rel /\ b2 = 0 THEN (IF Ev.inf \/ ~B.ex \/ Ev.nz THEN "ok" ELSE "error-relative-to-zero")
             ELSE IF Ev.inf THEN "error-infinite"
             ELSE IF BSign(Ev.res) < 0 THEN "error-sign"
             ELSE IF BNear(r2, F12(n2), tol) THEN "ok" ELSE "error"
    [] OTHER -> "ok"

\* ---- verdict on the current event -----------------------------------------
Clause ==
  IF ~Ok(st, Ev) THEN "illegal-event"
  ELSE IF Ev.op \in Refused /\ Ev.exc = "" THEN "not-refused"
  ELSE IF Ev.op \notin Refused /\ Ev.exc # "" THEN "raised"
  ELSE LET st2 == Do(st, Ev)
           ob2 == NewObs(Len(st2.slots))
           \* a lazy sum that is not to change keeps its summands one by one
           moved == {s \in 1..Min2(Len(obs), Len(st2.slots)) : Live(st2, s) /\ Live(st, s) /\ Obj(st2, s) = Obj(st, s) /\ st2.slots[s] = st.slots[s]
                       /\ Has(obs[s], "parts") /\ Has(ob2[s], "parts") /\ ob2[s].parts # obs[s].parts}
           wrong == {s \in 1..Len(st2.slots) : Live(st2, s)
                       /\ (s > Len(obs) \/ ob2[s] # obs[s] \/ Obj(st2, s) # Obj(st, s))
                       /\ ObsClause(Obj(st2, s), ob2[s]) # "ok"}
       IN  IF ResClause # "ok" THEN ResClause
           \* the random matrices of the session
           ELSE IF Ev.drms # << >> THEN "modified-random-matrix"
           ELSE IF wrong = {} THEN (IF moved = {} THEN "ok" ELSE "modified-summands")
           ELSE LET s == CHOOSE s \in wrong : \A t \in wrong : s <= t
                    c == ObsClause(Obj(st2, s), ob2[s])
                IN  IF s <= Len(obs) /\ Obj(st2, s) = Obj(st, s) THEN "modified-" \o c ELSE c

Init == /\ tid \in 1..Limit /\ l = 1 /\ st = EmptyState /\ obs = << >> /\ memo = << >> /\ bad = "ok"
Next ==
  /\ bad = "ok" /\ l <= Len(Traces[tid].ev)
  /\ LET c == Clause
     IN  /\ bad' = c
         /\ IF c = "ok"
            THEN /\ st' = Do(st, Ev)
                 /\ obs' = NewObs(Len(st'.slots))
                 /\ memo' = IF Ev.op = "call" THEN Append(memo, [key |-> CallKey, res |-> Ev.res]) ELSE memo
                 /\ TypeOK(st') /\ Frame(st, Ev, st')
            ELSE PrintT(<<"REJECT", tid, l, c>>) /\ UNCHANGED <<st, obs, memo>>
  /\ l' = l + 1
  /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
\* every accepted prefix satisfies the machine's own invariant
Inv == TypeOK(st)
=============================================================================
