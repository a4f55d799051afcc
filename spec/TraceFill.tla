----------------------------- MODULE TraceFill -----------------------------
(* Checks recorded rounds of calls.  Numbers are recorded as identities: the  *)
(* same number has the same identity throughout a trace, zero is an entry     *)
(* that was not written.  A key is shape and seed; a call without seed has a  *)
(* key of its own.                                                            *)
EXTENDS Fill, Json, IOUtils, SequencesExt, Functions
File == JsonDeserialize(IOEnv.TRACE_FILE)
Traces == File.traces
VARIABLES tid, l, known, bad
vars == <<tid, l, known, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* known: set of [sh, seed, x]
NoSeed == "none"
Sq(x) == x * x
IdsOf(k) == {k.x[i] : i \in 1..Len(k.x)}
One(kn, r) ==
  LET n == Prod(r.sh)  S == {r.x[i] : i \in 1..Len(r.x)} IN
  IF r.exc # "" THEN "raised"
  ELSE IF r.osh # r.sh THEN "shape"
  ELSE IF Len(r.x) # n \/ 0 \in S THEN "returned before every entry was written"
  ELSE IF r.later # r.x THEN "written to after the return"
  ELSE IF Cardinality(S) # n THEN "the same number in two places"
  ELSE IF r.seed # NoSeed /\ \E k \in kn : k.seed = r.seed /\ k.sh = r.sh /\ k.x # r.x THEN "depends on more than seed, shape and position"
  ELSE IF \E k \in kn : (k.seed # r.seed \/ r.seed = NoSeed) /\ IdsOf(k) \cap S # {} THEN "different seeds share numbers"
  \* sums over the whole array and over each eighth of it: seven standard deviations (values times 1000)
  ELSE IF \E i \in 1..Len(r.mom) : LET m == r.mom[i] IN m.n >= 30 /\ (m.s * m.s > 49 * m.n \/ (m.q - m.n) * (m.q - m.n) > 200 * m.n
                          \/ Sq(m.a - (6827 * m.n) \div 10000) > 12 * m.n + 4 \/ Sq(2 * m.p - m.n) > 49 * m.n) THEN "not standard normal"
  ELSE "ok"
Learn(kn, r) == kn \cup {[sh |-> r.sh, seed |-> r.seed, x |-> r.x]}
\* the calls of a round one after the other
Round == FoldLeft(LAMBDA acc, r : LET w == One(acc[1], r) IN <<Learn(acc[1], r), IF acc[2] = "ok" THEN w ELSE acc[2]>>, <<known, "ok">>, Ev.res)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ known = {} /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ \E R \in {Round} : known' = R[1] /\ bad' = R[2]
        /\ (IF bad' = "ok" THEN TRUE ELSE PrintT(<<"REJECT", tid, l, bad'>>))
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
