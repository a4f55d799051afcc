----------------------------- MODULE GenGraded ------------------------------
(* Behaviours of Graded as scripts. *)
EXTENDS Graded, Json, IOUtils, Randomization
File == JsonDeserialize(IOEnv.POOL_FILE)
Groups == File.groups
VARIABLES gid, s, hist, done
vars == <<gid, s, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
D == Len(s.sh) - 1
Arg(kinds) == {[k |-> k, r |-> IF k = "none" THEN << >> ELSE IF k = "int" THEN <<Pick(1..g.n)>> ELSE [m \in 1..D |-> Pick(1..(g.n + 1))]] : k \in {Pick(kinds)}}
Big(kinds) == {[k |-> k, r |-> IF k = "int" THEN <<Cardinality(s.kept) + Pick(1..3)>> ELSE [m \in 1..D |-> Cardinality(s.kept) + Pick(1..3)]] : k \in {Pick(kinds)}}
\* a set drawn so that most terms are in it
Some == {i \in 1..g.n : Pick(1..5) > 1}
Order(X, n) == LET q == SetToSeq(X) IN IF Len(q) = 0 THEN q ELSE LET r == (n % Len(q)) + 1 IN SubSeq(q, r, Len(q)) \o SubSeq(q, 1, r - 1)
Cuts(X) == {k \in 1..36 : Clear(g, X, k)} 
Cut(X) == IF Pick(1..3) = 1 \/ Cuts(X) = {} THEN 0 ELSE Pick(Cuts(X))
Cands(op) ==
  CASE op = "start" -> {[op |-> op, how |-> File.hows[Pick(1..Len(File.hows))], at |-> Pick(1..Len(g.sh)), b |-> Pick({0, 60, -60, 400, -400, 480, -700}), X |-> IF X = {} THEN 1..g.n ELSE X] : X \in {Some}}
    [] op = "svd" -> {[op |-> op, rank |-> a] : a \in Arg({"none", "int", "list", "tuple"})}
    [] op = "round" -> {[op |-> op, rank |-> a, k |-> Cut(s.kept)] : a \in Arg({"none", "int", "list", "tuple"})}
    [] op = "hmt" -> {[op |-> op, rank |-> a, t |-> "tt"] : a \in Big({"int", "list"})}
    [] op = "add" -> {[op |-> op, i |-> i] : i \in (1..g.n) \ s.kept}
    [] op = "rsum" -> {[op |-> op, is |-> is, rank |-> a, k |-> Cut(1..g.n), method |-> Pick({"exact", "pairwise"})] : is \in {Order((1..g.n) \ s.kept, Pick(0..5))}, a \in Arg({"int", "list", "tuple"})}
    [] OTHER -> {[op |-> op]}
Nil == [sh |-> << >>, kept |-> {}, tt |-> FALSE, how |-> ""]
Init == gid \in 1..Len(Groups) /\ s = Nil /\ hist = << >> /\ done = FALSE
Ok(op) == {e \in TLCEval(Cands(op)) : Legal(g, s, e)}
Do(es) == \E e \in {CHOOSE e \in es : TRUE} : s' = After(g, s, e) /\ hist' = Append(hist, e)
\* svdvals at the end whenever possible
Next == \/ /\ Len(hist) < File.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ \E op \in {IF hist = << >> THEN "start" ELSE File.ops[Pick(1..Len(File.ops))]} :
                \E es \in {TLCEval(Ok(op))} : IF es # {} THEN Do(es) ELSE Do({[op |-> "T"]})
        \/ /\ Len(hist) = File.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, s, hist>>
Spec == Init /\ [][Next]_vars
\* what is kept is always the leading part of what there was and of what came in
Inv == /\ (hist = << >> => WellFormed(g))
       /\ s.kept \subseteq 1..g.n /\ (hist # << >> => s.kept # {})
       /\ \A k \in 1..Len(hist) : hist[k].op # "start" => Legal(g, s, [op |-> "T"])
=============================================================================
