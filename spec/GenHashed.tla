------------------------------ MODULE GenHashed ------------------------------
EXTENDS Hashed, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
Prep(G) == TLCEval([i \in 1..Len(G) |-> [cls |-> G[i].cls, d |-> Len(G[i].rows[1]), n |-> Len(G[i].rows), r |-> G[i].r, pats |-> G[i].pats]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
VARIABLES gid, hist, done
vars == <<gid, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
P(n) == Pick(1..100) <= n
\* rank ranges; the rank of a Gaussian matrix may be anything beyond the range
Draw(n) ==
  LET b == Len(g.r)
      whole == P(40)
      lo == [m \in 1..b |-> IF whole THEN 0 ELSE Pick(0..g.r[m])]
      hi == [m \in 1..b |-> IF whole THEN g.r[m] ELSE Pick(lo[m]..g.r[m])]
      r == [m \in 1..b |-> IF g.cls \in {"sg", "fn-normal"} THEN hi[m] + Pick({0, 0, 1, 5}) ELSE g.r[m]]
  IN  IF P(82) \/ g.pats = << >>
      THEN [op |-> "ask", rows |-> [q \in 1..Pick({1, 2, 3, 8, 14}) |-> Pick(1..g.n)], lo |-> lo, hi |-> hi, r |-> [m \in 1..b |-> IF r[m] = 0 THEN 1 ELSE r[m]], form |-> Pick(0..6)]
      ELSE [op |-> "stats", pat |-> Pick(1..Len(g.pats)), form |-> Pick(0..6)]
Init == gid \in 1..Len(Groups) /\ hist = << >> /\ done = FALSE
Next == \/ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>> /\ hist' = Append(hist, TLCEval(Draw(0)))
        \/ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, hist>>
Spec == Init /\ [][Next]_vars
Inv == TRUE
=============================================================================
