------------------------------- MODULE GenLin -------------------------------
(* Behaviours of LinMaps as scripts. *)
EXTENDS LinMaps, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
Prep(GS) == TLCEval([i \in 1..Len(GS) |-> LET G == GS[i] IN
   [tts |-> [j \in 1..Len(G.tts) |-> [sh |-> G.tts[j].sh, v |-> Denote(G.tts[j])]],
    mpos |-> [j \in 1..Len(G.mpos) |-> Mpo(G.mpos[j])], pcs |-> [j \in 1..Len(G.pcs) |-> Pc(G.pcs[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
VARIABLES gid, s, hist, done
vars == <<gid, s, hist, done>>
g == Groups[gid]
Pick(X) == RandomElement(X)
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}
Is(t) == {i \in 1..Len(s) : s[i].ty \in t}
Cands(op) ==
  CASE op \in {"tt", "mpo", "pc"} -> {[op |-> op, p |-> p] : p \in One(1..Len(CASE op = "tt" -> g.tts [] op = "mpo" -> g.mpos [] OTHER -> g.pcs))}
    [] op = "eye" -> {[op |-> op, sh |-> g.tts[p].sh] : p \in One(1..Len(g.tts))}
    [] op = "T" -> {[op |-> op, i |-> i] : i \in One(Is({"mpo"}))}
    [] op = "scale" -> {[op |-> op, i |-> i, how |-> Pick({"mul", "rmul", "neg", "div"}), c |-> Pick({-3, -2, -1, 0, 2, 3, 10})] : i \in One(Is({"mpo", "mpo", "tt", "tsum"}))}
    [] op = "msum" -> UNION {{[op |-> op, is |-> [k \in 1..n |-> IF k = 1 THEN i ELSE Pick({j \in Is({"mpo", "pc"}) : MapIns(s[j]) = MapIns(s[i]) /\ MapOuts(s[j]) = MapOuts(s[i])})]]
                        : n \in One(1..3)} : i \in One(Is({"mpo", "pc"}))}
    [] op = "tsum" -> UNION {{[op |-> op, is |-> [k \in 1..n |-> IF k = 1 THEN i ELSE Pick({j \in Is({"tt"}) : s[j].sh = s[i].sh})]] : n \in One(1..3)} : i \in One(Is({"tt"}))}
    [] op = "app" -> UNION {{[op |-> op, i |-> i, j |-> j] : j \in One({j \in Is({"tt", "tsum"}) : s[j].sh = MapIns(s[i])})} : i \in One(Is({"mpo", "msum", "pc"}))}
    [] op \in {"fwd", "bwd"} -> UNION {{[op |-> op, i |-> i, j |-> j] : j \in One({j \in Is({"tt"}) : s[j].sh = s[i].sh})} : i \in One(Is({"pc"}))}
    [] op = "add" -> UNION {{[op |-> op, i |-> i, j |-> j] : j \in One({j \in Is({"tt"}) : s[j].sh = s[i].sh})} : i \in One(Is({"tt"}))}
Init == gid \in 1..Len(Groups) /\ s = << >> /\ hist = << >> /\ done = FALSE
Good(e) == Legal(g, s, e) /\ Exactly(s, e) /\ Fits(Make(g, s, e))
\* division where it is exact, multiplication otherwise
Alt(e) == IF e.op = "scale" /\ ~Good(e) THEN {[e EXCEPT !.how = "mul"], [e EXCEPT !.how = "mul", !.c = 1]} ELSE {e}
Try(op) == \E cs \in {TLCEval(UNION {Alt(e) : e \in Cands(op)})} :
             IF \E e \in cs : Good(e)
             THEN \E e \in {CHOOSE e \in cs : Good(e)} : s' = Append(s, Make(g, s, e)) /\ hist' = Append(hist, e)
             ELSE \E e \in {[op |-> "tt", p |-> Pick(1..Len(g.tts))]} : s' = Append(s, Make(g, s, e)) /\ hist' = Append(hist, e)
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<gid, done>>
           /\ IF Len(hist) < Len(Conf.first) THEN Try(Conf.first[Len(hist) + 1]) ELSE \E i \in One(1..Len(Conf.ops)) : Try(Conf.ops[i])
        \/ /\ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", gid, ToJson([g |-> gid, ev |-> hist])>>) /\ UNCHANGED <<gid, s, hist>>
Spec == Init /\ [][Next]_vars
\* the algebra of maps, on every object made
Inv == \A k \in 1..Len(hist) : LET e == hist[k] IN
         /\ e.op = "T" => s[k].M = Transp(s[e.i].M)
         /\ e.op = "fwd" => ScaleV(s[e.i].c, s[e.j].v) = BackTimesC(s[e.i], s[k].v)
         /\ e.op = "app" /\ s[e.i].ty = "mpo" =>     \* the adjoint
              \A q \in 1..Len(s[k].v) : s[k].v[q] = DotV(Transp(s[e.i].M)[q], s[e.j].v)
=============================================================================
