------------------------------ MODULE GenFill ------------------------------
(* Histories of calls with schedules of their threads.  A round is one or two *)
(* calls made at the same time; the schedule says in which order their tasks  *)
(* are started and may end.                                                   *)
EXTENDS Fill, Json, IOUtils, Randomization, SequencesExt, Functions
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf                 \* [shapes, seeds, envs, rounds, w]
VARIABLES calls, tok, round, hist, style, done
vars == <<calls, tok, round, hist, style, done>>
Pick(X) == RandomElement(X)
P(n) == Pick(1..100) <= n
Of(s) == s[Pick(1..Len(s))]
\* keys of the rounds before, to be asked for again
Old == UNION {{r.calls[i] : i \in 1..Len(r.calls)} : r \in {hist[j] : j \in 1..Len(hist)}}
NewCall(x) == IF Old # {} /\ P(60) THEN LET o == Pick(Old) IN IF P(75) THEN o ELSE IF P(50) THEN [o EXCEPT !.seed = Of(Conf.seeds)] ELSE [o EXCEPT !.sh = Of(Conf.shapes)]
              ELSE [sh |-> Of(Conf.shapes), seed |-> Of(Conf.seeds)]
\* the size of the array does not matter for the order of starts and ends
Run(k) == [main |-> "submit", todo |-> 1..Conf.w, run |-> {}]
Styles == {"any", "any", "any", "serial", "burst", "reverse", "last"}
Begin(x) == LET k == IF P(30) THEN 2 ELSE 1
                cs == [i \in 1..k |-> NewCall(i)]
                same == k = 2 /\ P(50)
            IN  [calls |-> IF same THEN <<cs[1], cs[1]>> ELSE cs, state |-> [i \in 1..k |-> Run(i)],
                 env |-> Pick(1..Conf.envs), hold |-> IF P(2) THEN 2500 ELSE IF P(10) THEN 300 ELSE Pick({0, 1, 5}), gap |-> Pick({0, 0, 0, 1})]
Init == hist = << >> /\ calls = Begin(0) /\ tok = << >> /\ round = 1 /\ style = "any" /\ done = FALSE
Starts(i) == LET t == calls.state[i].todo IN
  IF t = {} THEN {} ELSE
  CASE style = "serial" -> IF calls.state[i].run = {} THEN {Pick(t)} ELSE {}
    [] style = "reverse" -> {CHOOSE x \in t : \A y \in t : y <= x}
    [] OTHER -> {Pick(t)}
Ends(i) == LET r == calls.state[i].run  t == calls.state[i].todo IN
  IF r = {} \/ (style \in {"burst", "last"} /\ t # {}) THEN {}
  ELSE IF style = "last" THEN {CHOOSE x \in r : \A y \in r : y >= x} ELSE {Pick(r)}
Step == \E i \in {Pick(1..Len(calls.calls))} :
          \E go \in {IF Ends(i) # {} /\ (Starts(i) = {} \/ P(50)) THEN "end" ELSE IF Starts(i) # {} THEN "start" ELSE "none"} :
          \/ go = "start" /\ \E t \in {CHOOSE t \in Starts(i) : TRUE} :
               calls' = [calls EXCEPT !.state[i].todo = @ \ {t}, !.state[i].run = @ \cup {t}] /\ tok' = Append(tok, <<"s", i, t>>)
          \/ go = "end" /\ \E t \in {CHOOSE t \in Ends(i) : TRUE} :
               calls' = [calls EXCEPT !.state[i].run = @ \ {t}] /\ tok' = Append(tok, <<"e", i, t>>)
          \/ go = "none" /\ UNCHANGED <<calls, tok>>
Over == \A i \in 1..Len(calls.calls) : calls.state[i].todo = {} /\ calls.state[i].run = {}
Close == [calls |-> calls.calls, env |-> calls.env, hold |-> calls.hold, gap |-> calls.gap, tok |-> tok]
Next == \/ ~Over /\ round <= Conf.rounds /\ Step /\ UNCHANGED <<round, hist, style, done>>
        \/ /\ Over /\ round <= Conf.rounds /\ \E b \in {Begin(round)}, s \in {Pick(Styles)} :
             calls' = b /\ tok' = << >> /\ round' = round + 1 /\ hist' = Append(hist, Close) /\ style' = s
           /\ UNCHANGED done
        \/ round > Conf.rounds /\ ~done /\ done' = PrintT(<<"SCRIPT", 1, ToJson([ev |-> hist])>>) /\ UNCHANGED <<calls, tok, round, hist, style>>
Spec == Init /\ [][Next]_vars
Inv == round <= Conf.rounds + 1
=============================================================================
