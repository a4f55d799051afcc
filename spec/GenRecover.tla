---------------------------- MODULE GenRecover ----------------------------
(* Histories of recoveries as scripts. *)
EXTENDS Recover, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
Prep(G) == TLCEval([i \in 1..Len(G) |-> [j \in 1..Len(G[i].tens) |->
   [sh |-> G[i].tens[j].sh, v |-> Denote(G[i].tens[j]), kinds |-> KindsOf(G[i].tens[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
VARIABLES gid, known, hist, done
vars == <<gid, known, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
P(n) == Pick(1..100) <= n
\* ranks at least lo, often equal to it
Above(lo) == [m \in 1..Len(lo) |-> Max2(1, lo[m]) + Pick({0, 0, 0, 1, 2, 3})]
Bigger(x) == [m \in 1..Len(x) |-> x[m] + Pick({1, 1, 2, 4})]
Start(x) == [m \in 1..Len(x) |-> Pick(1..x[m])]
Kinds == {"tuple", "list"}
Near(i) == {j \in 1..N(g, known) : TAt(g, known, j).sh = TAt(g, known, i).sh}
Drms(kinds) == {d \in {"default", "tt", "dg", "sg", "ss"} : kinds \subseteq Applies(d)}
Rec(terms) ==
  LET sh == TAt(g, known, terms[1][1]).sh
      r == TTRanks(sh, Comb(g, known, terms))
      ds == Drms(CombKinds(g, known, terms))
      lo0 == Above(r)  low == IF P(50) THEN Trim(sh, lo0) ELSE lo0
      gs == ds \cap Grows
  IN  UNION {UNION {UNION {UNION {
        LET up == Bigger(lo)
            left == method # "stream" \/ P(50)
            same == method = "hmt" \/ P(50)
            d2 == IF same THEN d1 ELSE Pick(IF how0 = "grow" /\ gs # {} THEN gs ELSE ds)
            giv == (d1 = "ss" \/ d2 = "ss" \/ how0 = "grow" \/ P(50))
            lt == IF giv /\ d1 = "default" THEN "tt" ELSE d1
            rt == IF giv /\ d2 = "default" THEN "tt" ELSE d2
            how == IF method # "stream" \/ (how0 = "grow" /\ gs = {}) THEN "once" ELSE how0
            int == ~giv /\ P(25)
            mx == FoldLeft(LAMBDA acc, y : Max2(acc, y), 1, lo)
            k == Pick(Kinds)
            A(x) == [k |-> k, r |-> x]
            I(n) == [k |-> "int", r |-> <<n>>]
            lr == IF int THEN I(IF left THEN mx ELSE mx + 2) ELSE A(IF left THEN lo ELSE up)
            rr == IF method = "hmt" THEN lr ELSE IF int THEN I(IF left THEN mx + 2 ELSE mx) ELSE A(IF left THEN up ELSE lo)
            l0 == IF how = "grow" THEN Start(lr.r) ELSE << >>
        IN  {[op |-> "rec", method |-> method, terms |-> terms, how |-> how, lr |-> lr, rr |-> rr, lt |-> lt, rt |-> rt,
              given |-> giv, dir |-> IF method = "stream" THEN Pick({"auto", "left", "right", "to_tt"}) ELSE "",
              l0 |-> l0, r0 |-> IF how = "grow" THEN Start(rr.r) ELSE << >>,
              nl |-> IF lt = "ss" THEN Start(lr.r) ELSE << >>, nr |-> IF rt = "ss" THEN Start(rr.r) ELSE << >>,
              seed |-> IF ~giv /\ P(30) THEN -1 ELSE Pick(0..100000), sc |-> Pick({0, 0, 0, 0, 8, -8, 25, -25, 100, -100})]}
        : lo \in {low}} : d1 \in One(IF how0 = "grow" /\ gs # {} THEN gs ELSE ds)} : how0 \in One({"once", "upd", "grow"})} : method \in One({"stream", "stream", "orth", "hmt"})}
Sparse == {i \in 1..N(g, known) : TAt(g, known, i).kinds \subseteq {"sparse"}}
Others(i) == IF i \in Sparse /\ P(70) THEN Near(i) \cap Sparse ELSE Near(i)
TermsOf(i) == IF P(40) THEN {<<<<i, Pick({1, 1, -1, 2})>>>>}
              ELSE IF P(50) THEN UNION {One({<<<<i, 1>>, <<j, 1>>, <<j, -1>>>>, <<<<j, 1>>, <<i, 1>>, <<j, -1>>>>}) : j \in One(Others(i))}
              ELSE {<<<<i, Pick({1, -1})>>>> \o [q \in 1..Pick(1..2) |-> <<Pick(Others(i)), Pick({1, -1, 1, 2})>>]}
Cands(n) == UNION {UNION {Rec(t) : t \in TermsOf(i)} : i \in One(IF P(40) THEN Sparse ELSE 1..N(g, known))}
Trans(n) == {[op |-> "T", a |-> Pick(1..N(g, known))]}
Init == gid \in 1..Len(Groups) /\ known = << >> /\ hist = << >> /\ done = FALSE
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ \E cs \in {TLCEval(IF P(15) THEN Trans(0) ELSE UNION {Cands(i) : i \in 1..5})} :
                IF \E e \in cs : Legal(g, known, e) THEN \E e \in {CHOOSE e \in cs : Legal(g, known, e)} : known' = Do(g, known, e) /\ hist' = Append(hist, e)
                ELSE \E e \in {[op |-> "T", a |-> 1]} : known' = Do(g, known, e) /\ hist' = Append(hist, e)
        \/ /\ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, known, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(known) : Len(known[i].v) = Prod(known[i].sh)
=============================================================================
