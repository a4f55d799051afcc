------------------------------ MODULE GenHuge ------------------------------
EXTENDS Huge, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
PrepT(t) == [k |-> t.k, sh |-> t.sh, m |-> HDenote(t), rb |-> HRank(t)]
Prep(G) == TLCEval([i \in 1..Len(G) |-> [sh |-> G[i].sh, rec |-> G[i].rec, cap |-> G[i].cap, base |-> G[i].base, mpos |-> G[i].mpos, drms |-> G[i].drms,
                                         tens |-> [j \in 1..Len(G[i].tens) |-> PrepT(G[i].tens[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
VARIABLES gid, st, hist, done
vars == <<gid, st, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
A(P(_)) == One({i \in 1..Len(st) : P(st[i])})
Mates(a) == {i \in 1..Len(st) : st[i].sh = st[a].sh}
Every(o) == TRUE
\* an index: of the support of an object, one differing from such in a mode, or one of the list
Row(sh) ==
  LET S == UNION {Support(st[i].m) : i \in {j \in 1..Len(st) : st[j].sh = sh}} \cup (IF sh = g.sh THEN {g.base[i] : i \in 1..Len(g.base)} ELSE {Rev(g.base[i]) : i \in 1..Len(g.base)})
      x == Pick(S)  m == Pick(1..Len(sh))
  IN  IF Pick(1..3) = 1 THEN [x EXCEPT ![m] = IF Pick(1..2) = 1 THEN (IF @ = sh[m] - 1 THEN 0 ELSE @ + 1) ELSE (IF @ = 0 THEN sh[m] - 1 ELSE @ - 1)] ELSE x
Cands(op) ==
  CASE op = "make" -> {[op |-> op, p |-> Pick(1..Len(g.tens))]}
    [] op = "mul" -> {[op |-> op, a |-> a, c |-> Pick({-3, -1, 0, 2, 3}), ty |-> Pick({"int", "float"})] : a \in A(Every)}
    [] op = "div" -> {[op |-> op, a |-> a, c |-> Pick({1, 2, 3})] : a \in A(Every)}
    [] op \in {"neg", "T"} -> {[op |-> op, a |-> a] : a \in A(Every)}
    [] op = "split" -> {[op |-> op, a |-> a, n |-> Pick(1..5)] : a \in A(LAMBDA o : o.k = "sparse")}
    [] op \in {"orth", "round"} -> {[op |-> op, a |-> a] : a \in A(LAMBDA o : o.k = "tt")}
    [] op = "rsum" -> {[op |-> op, a |-> a, how |-> Pick({"exact", "pairwise"})] : a \in A(LAMBDA o : o.k = "sum" /\ o.ks = {"tt"})}
    [] op = "mpo" -> IF g.mpos = << >> THEN {} ELSE {[op |-> op, a |-> a, p |-> Pick(1..Len(g.mpos)), how |-> Pick(0..1)] : a \in A(LAMBDA o : o.k = "tt" /\ o.sh = g.sh)}
    [] op = "rec" -> {[op |-> op, a |-> a, fn |-> Pick({"hmt", "osk", "ssk"}), seed |-> Pick(1..1000)] : a \in A(LAMBDA o : o.m # << >>)}
    [] op = "norm" -> {[op |-> op, a |-> a] : a \in A(NormOk)}
    [] op \in {"add", "sub"} -> UNION {{[op |-> op, a |-> a, b |-> b] : b \in One(Mates(a))} : a \in A(Every)}
    [] op = "msum" -> UNION {{[op |-> op, ix |-> <<a, b, c>>, n |-> Pick(1..IF Pick(BOOLEAN) THEN 12 ELSE 70)] : b \in One(Mates(a)), c \in One(Mates(a))} : a \in A(Every)}
    [] op = "ttplus" -> UNION {{[op |-> "add", a |-> a, b |-> b] : b \in One({i \in Mates(a) : st[i].ks = {"tt"}})} : a \in A(LAMBDA o : o.ks = {"tt"})}
    [] op = "ttadd" -> UNION {{[op |-> op, a |-> a, b |-> b] : b \in One({i \in Mates(a) : st[i].k = "tt"})} : a \in A(LAMBDA o : o.k = "tt")}
    [] op = "dot" -> UNION {{[op |-> op, a |-> a, b |-> b] : b \in One({i \in Mates(a) : DotOk(st[a], st[i])})} : a \in A(Every)}
    [] op = "error" -> UNION {UNION {{[op |-> op, a |-> a, b |-> b, rel |-> r, rmse |-> m, fast |-> f] :
                                b \in One({i \in Mates(a) : IF f THEN DotOk(st[a], st[i]) /\ NormOk(st[i]) ELSE st[i].k = "tt"}), r \in One({TRUE, FALSE}), m \in One({TRUE, FALSE})}
                              : a \in A(LAMBDA o : IF f THEN NormOk(o) ELSE o.k = "tt")} : f \in One({TRUE, FALSE})}
    [] op = "gather" -> {[op |-> op, a |-> a, ty |-> Pick({"tuple", "array"}), ix |-> [i \in 1..n |-> Row(st[a].sh)]] : n \in One(0..6), a \in A(LAMBDA o : o.k # "sum")}
    [] op = "sketch" -> {[op |-> op, a |-> a, l |-> l] : l \in One(1..Len(g.drms)), a \in A(LAMBDA o : o.sh = g.sh)}
    [] OTHER -> {}
Init == gid \in 1..Len(Groups) /\ st = << >> /\ hist = << >> /\ done = FALSE
Perform(e) == st' = HDo(g, st, e) /\ hist' = Append(hist, e)
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ \E css \in {TLCEval(IF Len(hist) < 3 THEN <<Cands("make")>> ELSE [i \in 1..5 |-> Cands(Conf.ops[Pick(1..Len(Conf.ops))])])} :
                \E es \in {TLCEval([i \in 1..Len(css) |-> {e \in css[i] : HOk(g, st, e)}])} :
                  IF \E i \in 1..Len(es) : es[i] # {} THEN Perform(CHOOSE e \in es[CHOOSE i \in 1..Len(es) : es[i] # {} /\ \A k \in 1..(i - 1) : es[k] = {}] : TRUE)
                  ELSE Perform([op |-> "make", p |-> Pick(1..Len(g.tens))])
        \/ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, st, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(st) : \A x \in DOMAIN st[i].m : InRange(st[i].sh, x) /\ st[i].m[x] # 0
Frame == [][\A i \in 1..Len(st) : st'[i] = st[i]]_vars
=============================================================================
