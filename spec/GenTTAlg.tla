------------------------------ MODULE GenTTAlg ------------------------------
(* Behaviours of TTAlg as scripts. *)
EXTENDS TTAlg, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
MCGroups == File.groups
Groups == TLCEval(GroupsIn)
VARIABLES gid, s, hist, done
vars == <<gid, s, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
D == Len(s.sh) - 1
MaxRank == Conf.maxrank
RandArg(kinds) ==
  {[k |-> k, r |-> IF k = "none" THEN << >> ELSE IF k = "int" THEN <<Pick(1..MaxRank)>> ELSE [m \in 1..D |-> Pick(1..MaxRank)]] : k \in One(kinds)}
\* a rank argument within the admissible ranks
TrimmedArg(a) == [a EXCEPT !.r = IF a.k = "int" THEN <<1>> ELSE Trim(s.sh, a.r)]
BiggerArg(a) == [k |-> IF a.k = "int" THEN "int" ELSE Pick({"tuple", "list"}), r |-> [m \in 1..Len(a.r) |-> a.r[m] + Pick({1, 1, 2, 3})]]
\* summands; sometimes the same one again
With(k) == LET J == {j \in 1..Len(g.adds) : g.adds[j].sh = s.sh}
               x == <<Pick(J), Pick({1, 1, -1, 2})>>
           IN  IF Pick(1..3) = 1 THEN [i \in 1..k |-> IF i < 3 THEN <<x[1], 1>> ELSE <<Pick(J), Pick({1, -1, 2})>>] ELSE [i \in 1..k |-> <<Pick(J), Pick({1, -1, 2})>>]
Cands(op) ==
  CASE op = "start" -> {[op |-> op, p |-> p, sc |-> IF g.tens[p].k = "tt" THEN Pick({0, 0, 0, 9, -9, 25, -25, 100, -100}) ELSE 0,
                         bal |-> IF g.tens[p].k = "tt" THEN Pick({0, 0, 6, -6}) ELSE 0] : p \in One(1..Len(g.tens))}
    [] op = "svd" -> {[op |-> op, rank |-> a] : a \in RandArg({"none", "int", "tuple", "list", "np"})}
    [] op = "hmt" -> {[op |-> op, rank |-> a, t |-> Pick({"tt", "dg", "sg", "ss"}), given |-> FALSE] : a \in RandArg({"int", "tuple", "list"})}
                     \cup {[op |-> op, rank |-> TrimmedArg(a), t |-> Pick({"tt", "dg", "sg", "ss"}), given |-> TRUE] : a \in RandArg({"tuple", "list"})}
    [] op = "osk" -> UNION {{[op |-> op, rank |-> a, right |-> b, t |-> Pick({"tt", "dg", "sg"}), t2 |-> Pick({"tt", "dg", "sg", "ss"}), given |-> FALSE]
                              : b \in {BiggerArg(a0) : a0 \in {a}}} : a \in RandArg({"int", "tuple", "list"})}
                     \cup UNION {{[op |-> op, rank |-> a, right |-> b, t |-> Pick({"tt", "dg", "sg"}), t2 |-> Pick({"tt", "dg", "sg"}), given |-> TRUE]
                              : b \in {BiggerArg(a0) : a0 \in {a}}} : a \in {TrimmedArg(a1) : a1 \in RandArg({"tuple"})}}
    [] op = "orth" -> {[op |-> op]}
    [] op = "round" -> {[op |-> op, rank |-> a, eps |-> Pick({0, 0, 10, 100, 300, 500, 900}), oz |-> s.lo /\ Pick(BOOLEAN)] : a \in RandArg({"none", "none", "int", "tuple", "list", "np"})}
    [] op = "T" -> {[op |-> op]}
    [] op = "scale" -> {[op |-> op, c |-> Pick({-2, -1, 2, 3})]}
    [] op = "add" -> {[op |-> op, p |-> p] : p \in One({i \in 1..Len(g.adds) : g.adds[i].sh = s.sh /\ s.n < 2})}
    [] op \in {"svdvals", "norm"} -> {[op |-> op]}
    [] op = "rsum" -> {[op |-> op, rank |-> a, eps |-> IF m0 \in {"exact", "pairwise"} THEN Pick({0, 0, 100, 300}) ELSE 0, method |-> m0, of |-> Pick({1100, 1500, 2000, 3000}),
                        with |-> With(k)]
                        : a \in RandArg({"int", "tuple", "list"}), m0 \in One({"exact", "pairwise", "sketch", "orth_sketch", "sketch", "orth_sketch", "pairwise", "exact", "none"}), k \in One(0..3)}
    [] OTHER -> {}
Nil == [sh |-> << >>, tt |-> FALSE, k |-> "", rk |-> << >>, lo |-> FALSE, ro |-> FALSE, n |-> 0]
Init == gid \in 1..Len(Groups) /\ s = Nil /\ hist = << >> /\ done = FALSE
Try(op) == \E cs \in {TLCEval(Cands(op))} :
             IF \E e \in cs : Legal(g, s, e)
             THEN \E e \in {CHOOSE e \in cs : Legal(g, s, e)} : s' = After(g, s, e) /\ hist' = Append(hist, e)
             ELSE \E e \in {[op |-> "norm"]} : s' = s /\ hist' = Append(hist, e)
Ops(x) == IF x.tt THEN Conf.ttops ELSE Conf.ops
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ IF hist = << >> THEN Try("start") ELSE \E i \in One(1..Len(Ops(s))) : Try(Ops(s)[i])
        \/ /\ Len(hist) = Conf.depth /\ ~done
           /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>)
           /\ UNCHANGED <<gid, s, hist>>
Spec == Init /\ [][Next]_vars
Inv == /\ (s.lo \/ s.ro) => s.tt
       /\ ~(s.lo /\ s.ro)
       /\ s.rk = << >> \/ Len(s.rk) = Len(s.sh) - 1
=============================================================================
