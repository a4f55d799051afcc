------------------------------ MODULE GenGmres ------------------------------
(* Sequences of calls of the solver on shared objects. *)
EXTENDS Gmres, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
MCGroups == File.groups
Groups == TLCEval(GroupsIn)
VARIABLES gid, hist, done
vars == <<gid, hist, done>>
g == Groups[gid]
D == Len(g.sh) - 1
Pick(X) == RandomElement(X)
One(X) == {RandomElement(X)}
P(n) == Pick(1..100) <= n
Vec(X) == [m \in 1..D |-> Pick(X)]
RArg(full) == IF full THEN CASE P(50) -> [k |-> Pick({"int", "npint"}), r |-> <<Pick({Numel(g.sh), 100})>>]
                             [] P(50) -> [k |-> "tuple", r |-> Full(g.sh)]
                             [] OTHER -> [k |-> Pick({"list", "tuple"}), r |-> [m \in 1..D |-> Full(g.sh)[m] + Pick(0..3)]]
              ELSE IF P(30) THEN [k |-> "int", r |-> <<Pick(1..3)>>] ELSE [k |-> Pick({"tuple", "list"}), r |-> Vec(1..4)]
BIdx(sy) == {i \in 1..Len(g.bs) : g.bs[i].sys \in {0, sy}}
Cand == UNION {UNION {{[op |-> "call", sys |-> sy, b |-> b,
            x0 |-> IF g.bs[b].exact # 0 /\ P(60) THEN g.bs[b].exact ELSE IF P(50) THEN 0 ELSE Pick({i \in 1..Len(g.bs) : g.bs[i].sys = 0}),
            t |-> IF P(12) THEN 0 ELSE Pick({1, 2, 4, 6, 9}), maxiter |-> Pick({1, 1, 2, 3, 4, 6, 10, 15}),
            method |-> Pick(RMethods), fmethod |-> IF P(60) THEN "none" ELSE Pick(RMethods),
            rank |-> RArg(P(75)), final |-> IF P(55) THEN [k |-> "none", r |-> << >>] ELSE RArg(P(50)),
            sym |-> g.systems[sy].sym /\ P(60), pa |-> IF P(60) THEN 0 ELSE Pick(Scales), pb |-> IF P(60) \/ (\A q \in 1..Numel(g.sh) : Denote(g.bs[b].tt)[q] = 0) THEN 0 ELSE Pick(Scales), save |-> P(40), verbose |-> P(20)]
            : b \in One(BIdx(sy))} : sy \in One(1..Len(g.systems))} : x \in {1}}
Init == gid \in 1..Len(Groups) /\ hist = << >> /\ done = FALSE
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ \E cs \in {TLCEval(Cand)} : \E e \in {CHOOSE e \in cs : TRUE} : hist' = Append(hist, e)
        \/ /\ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(hist) : LegalCall(g, hist[i])
=============================================================================
