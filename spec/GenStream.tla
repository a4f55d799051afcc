------------------------------ MODULE GenStream -----------------------------
(* Behaviours of Stream as scripts (see GenSession). *)
EXTENDS Stream, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
Prep(G) == TLCEval([i \in 1..Len(G) |->
  [sh |-> G[i].sh, fl |-> G[i].fl, fr |-> G[i].fr, grow |-> G[i].grow,
   tens |-> [j \in 1..Len(G[i].tens) |-> [sh |-> G[i].tens[j].sh, v |-> Denote(G[i].tens[j])]]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)

VARIABLES gid, st, tf, hist, done
vars == <<gid, st, tf, hist, done>>
g == Scaled(Groups[gid], tf)
Pick(X) == RandomElement(X)
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
D == Len(g.sh) - 1
TensOf(sh) == {p \in 1..Len(g.tens) : g.tens[p].sh = sh}
\* a random pair of ordered ranks, at least lo, within full
RandRank(tr, lo) ==
  LET f == Full(g, [tr |-> tr])
  IN  IF ~g.grow THEN {[l |-> f.l, r |-> f.r]}
      ELSE One({[l |-> [m \in 1..D |-> Pick(lo.l[m]..f.l[m])], r |-> [m \in 1..D |-> Pick(lo.r[m]..f.r[m])]] : i \in 1..8})
OneRank(tr, lo) ==
  LET cand == {x \in UNION {RandRank(tr, lo) : i \in 1..12} : RankOk(g, tr, x.l, x.r)} IN One(cand)
Ones == [m \in 1..D |-> 1]
RandCuts(rank) ==
  \* thresholds sorted per mode; the same number of cuts for all modes
  LET n == Pick(0..3)
      X == [m \in 1..D |-> [i \in 1..n |-> Pick(0..rank[m])]]
      srt == [m \in 1..D |-> SortSeq(X[m], LAMBDA a, b : a < b)]
  IN  {<<[m \in 1..D |-> 0]>> \o c \o <<rank>> : c \in {[i \in 1..Len(srt0[1]) |-> [m \in 1..D |-> srt0[m][i]]] : srt0 \in {srt}}}
\* lower (below) or upper half of the ranks
Bounds(sd, x, up) == LET f == IF sd = "l" THEN g.fl ELSE g.fr IN [m \in 1..D |-> IF up THEN Pick((f[m] \div 2)..f[m]) ELSE Pick(0..(f[m] \div 2))]
\* a tensor of the shape; after a poke often one that has been used
Again(sh) == LET used == {hist[i].p : i \in {j \in 1..Len(hist) : "p" \in DOMAIN hist[j]}} \cap TensOf(sh)
             IN  One(IF used # {} /\ Pick(1..3) > 1 /\ \E i \in 1..Len(hist) : hist[i].op = "poke" THEN used ELSE TensOf(sh))
Cands(op) ==
  CASE op = "new" -> UNION {{[op |-> op, p |-> p, lr |-> x.l, rr |-> x.r] : x \in OneRank(FALSE, [l |-> Ones, r |-> Ones])} : p \in Again(g.sh)}
    [] op = "block" -> {[op |-> op, p |-> p, lc |-> a, rc |-> b] : p \in One(TensOf(g.sh)), a \in RandCuts(g.fl), b \in RandCuts(g.fr)}
    [] op = "reblock" -> {[op |-> op, a |-> s, rep |-> Pick({"sum", "sparse"}), lc |-> a, rc |-> b] : s \in One(1..Len(st)), a \in RandCuts(g.fl), b \in RandCuts(g.fr)}
    [] op = "upd" -> UNION {{[op |-> op, a |-> s, p |-> p, c |-> Pick({1, 1, -1})] : p \in Again(st[s].sh)} : s \in One({i \in 1..Len(st) : st[i].k = "s"})}
    [] op = "scale" -> {[op |-> op, a |-> s, c |-> Pick({-2, -1, 0, 2, 3}), k |-> IF Pick(1..4) = 1 THEN Pick({-60, -30, 24, 60}) ELSE 0, ty |-> Pick({"int", "float", "np"})] : s \in One(1..Len(st))}
    [] op = "div" -> {[op |-> op, a |-> s, c |-> Pick({-1, 2, 1}), n |-> Pick({1, 1, 3, 333, 1000003}), ty |-> Pick({"int", "float"})] : s \in One(1..Len(st))}
    [] op = "poke" -> {[op |-> op, p |-> IF old = {} THEN Pick(1..Len(g.tens)) ELSE Pick(old), c |-> Pick({-1, 2, 3}), m |-> Pick(0..7)]
                        : old \in {{hist[i].p : i \in {j \in 1..Len(hist) : "p" \in DOMAIN hist[j]}}}}
    [] op = "T" -> {[op |-> op, a |-> s] : s \in One(1..Len(st))}
    [] op = "grow" -> UNION {{[op |-> op, a |-> s, rep |-> Pick({"sum", "sparse", "native"}), lr |-> x.l, rr |-> x.r]
                         : x \in OneRank(st[s].tr, [l |-> st[s].lr, r |-> st[s].rr])} : s \in One({i \in 1..Len(st) : st[i].k = "s"})}
    [] op = "asm" -> UNION {{[op |-> op, a |-> s, p |-> p, k |-> Pick({0, 0, 60, 120, -40, -90, -130}), train |-> Pick(BOOLEAN), dir |-> <<"auto", "auto", "auto", "left", "right">>[Pick(1..5)], rel |-> Pick(BOOLEAN), rmse |-> Pick(BOOLEAN), fast |-> Pick({FALSE, FALSE, TRUE}), flip |-> Pick(BOOLEAN)]
                         : p \in One(TensOf(st[s].sh))} : s \in One(1..Len(st))}
    [] op = "cadd" -> UNION {{[op |-> op, a |-> s, b |-> t, c |-> Pick({1, -1})] : t \in One({i \in 1..Len(st) : st[i].k = "c"})}
                         : s \in One({i \in 1..Len(st) : st[i].k = "c"})}
    [] op = "slice" -> UNION {{[op |-> op, side |-> sd,
                          via |-> SubSeq(<<<<Bounds(sd, 1, FALSE), Bounds(sd, 1, TRUE)>>, <<Bounds(sd, 2, FALSE), Bounds(sd, 2, TRUE)>>>>, 1, Pick({0, 0, 1, 2})), lo |-> [m \in 1..D |-> Min2(ab[m][1], ab[m][2])], hi |-> [m \in 1..D |-> Max2(ab[m][1], ab[m][2])]]
                         : ab \in {[m \in 1..D |-> LET f == IF sd = "l" THEN g.fl[m] ELSE g.fr[m] IN <<Pick(0..f), Pick(0..f)>>]}} : sd \in One({"l", "r"})}
    [] OTHER -> {}
Init == gid \in 1..Len(Groups) /\ st = << >> /\ tf = [j \in 1..Len(Groups[gid].tens) |-> 1] /\ hist = << >> /\ done = FALSE
Perform(e) == st' = Do(g, st, e) /\ tf' = Factors(tf, e) /\ hist' = Append(hist, e)
Fallback == [op |-> "T", a |-> 1]
Next == \/ /\ Len(hist) < Conf.depth /\ ~done
           /\ UNCHANGED <<gid, done>>
           /\ \E op \in (IF Len(st) = 0 THEN One({Conf.first[i] : i \in 1..Len(Conf.first)}) ELSE One(1..Len(Conf.ops))) :
                \E cs \in {TLCEval(Cands(IF Len(st) = 0 THEN op ELSE Conf.ops[op]))} :
                  IF \E e \in cs : Ok(g, st, e) THEN Perform(CHOOSE e \in cs : Ok(g, st, e))
                  ELSE IF Len(st) > 0 THEN Perform(Fallback) ELSE UNCHANGED <<st, tf, hist>>
        \/ /\ Len(hist) = Conf.depth /\ ~done
           /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>)
           /\ UNCHANGED <<gid, st, tf, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(st) : Len(st[i].v) = Numel(st[i].sh) /\ (st[i].k = "c" \/ RankOk([g EXCEPT !.grow = TRUE], st[i].tr, st[i].lr, st[i].rr))
\* sketches are values: no operation changes an existing one
Immutable == [][\A i \in 1..Len(st) : st'[i] = st[i]]_vars
=============================================================================
