------------------------------ MODULE GenCtors ------------------------------
EXTENDS Ctors, Json, IOUtils, Randomization
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
MCGroups == <<1>>
VARIABLES qs, hist, done       \* requests that give an object
vars == <<qs, hist, done>>
Pick(X) == RandomElement(X)
P(n) == Pick(1..100) <= n
Sh(big) == IF big THEN Pick({<<6, 6, 6, 6>>, <<20, 20, 20>>, <<60, 50>>, <<3, 40, 3>>, <<2, 2, 2>>, <<200>>, <<50, 2, 50, 2>>}) ELSE [i \in 1..Pick(1..5) |-> Pick({1, 2, 3, 4, 5})]
RankArg(n, top) ==
  LET k == Pick({"int", "tuple", "list", "np"})
  IN  [k |-> k, r |-> [i \in 1..(IF k = "int" THEN 1 ELSE n) |-> Pick(1..top)]]
Q0(kind, sh) == [kind |-> kind, sh |-> sh, outs |-> sh, rank |-> [k |-> "int", r |-> <<1>>], seed |-> IF P(30) THEN NoSeed ELSE Pick({0, 1, 2, 3, 17, 1000003, 2147483647}),
                 orth |-> FALSE, trim |-> "none", goal |-> "norm-1", nnz |-> 0]
Bad(q) == IF P(4) /\ q.rank.k # "int" THEN [q EXCEPT !.rank.r = Append(@, 2)] ELSE q
NewQ(n) ==
  LET kind == Pick(Kinds \cup {"tt", "sparse"})
      big == P(25) /\ kind \in {"tt", "cp", "tucker", "sparse", "dense"}
      long == P(12) /\ kind \in {"tt", "cp", "mpo", "tucker"}
      sh == IF long THEN [i \in 1..(IF kind = "tucker" THEN Pick(5..9) ELSE Pick(6..20)) |-> Pick({2, 2, 3})] ELSE IF kind = "sparse" /\ P(30) THEN Pick({<<40, 30>>, <<10, 1, 12, 5>>, <<1500>>, <<3, 500>>, <<300, 200>>, <<30, 30, 30>>}) ELSE IF kind = "tucker" /\ big THEN <<20, 20, 20>> ELSE IF kind = "sparse" \/ (kind = "dense" /\ ~big) THEN Sh(FALSE) ELSE Sh(big)
      d == Len(sh)
      q == Q0(kind, sh)
      N == Numel(sh)
  IN  CASE kind = "tt" -> LET o == P(45) IN Bad([q EXCEPT !.rank = IF long /\ P(70) THEN [k |-> "int", r |-> <<Pick(1..6)>>] ELSE IF big /\ P(50) THEN [k |-> "int", r |-> <<Pick(8..30)>>] ELSE RankArg(d - 1, IF big THEN 40 ELSE 7), !.orth = o, !.trim = Pick({"none", "none", "yes", "no"} \ (IF o /\ P(85) THEN {"no"} ELSE {})),
                                                        !.goal = IF P(3) THEN "norm-2" ELSE Pick({"norm-1", "norm-preserve"})])
        [] kind = "zero" -> Bad([q EXCEPT !.rank = RankArg(d - 1, 5)])
        [] kind = "cp" -> [q EXCEPT !.rank = [k |-> "int", r |-> <<IF big THEN Pick(5..40) ELSE Pick(1..8)>>]]
        [] kind = "tucker" -> [q EXCEPT !.rank = RankArg(d, IF long THEN 2 ELSE IF big THEN 22 ELSE 6)]
        [] kind = "sparse" -> [q EXCEPT !.nnz = IF P(3) THEN N + Pick(1..3) ELSE IF N > 2000 THEN Pick(50..300) ELSE Pick({0, 1, N, N - 1, N \div 2, Pick(0..N), Pick(0..N)})]
        [] kind = "mpo" -> LET s2 == IF long THEN sh ELSE SubSeq(sh, 1, Min2(d, 4))
                           IN Bad([q EXCEPT !.sh = s2, !.outs = IF P(40) THEN s2 ELSE [i \in 1..Len(s2) |-> Pick({1, 2, 3, 4, s2[i]})], !.rank = RankArg(Len(s2) - 1, 9)])
        [] OTHER -> q
Draw(n) ==
  LET c == Pick(1..100)
  IN  IF c <= 60 \/ qs = << >> THEN [op |-> "make", q |-> TLCEval(IF qs # << >> /\ P(15) THEN [qs[Pick(1..Len(qs))] EXCEPT !.seed = IF P(50) THEN @ ELSE Pick({NoSeed, 5, 6})] ELSE NewQ(0)), form |-> Pick(0..5)]
      ELSE IF c <= 64 THEN [op |-> "cover", sh |-> Sh(FALSE), half |-> P(50), form |-> Pick(0..5)]
      ELSE IF c <= 80 THEN [op |-> "make", q |-> qs[Pick(1..Len(qs))], form |-> Pick(0..5)]
      ELSE [op |-> "poke", p |-> Pick(1..Len(qs))]
Init == qs = << >> /\ hist = << >> /\ done = FALSE
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED done
           /\ \E e \in {TLCEval(Draw(0))} : hist' = Append(hist, e) /\ qs' = IF e.op = "make" /\ ~Refused(e.q) THEN Append(qs, e.q) ELSE qs
        \/ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", 1, ToJson([ev |-> hist])>>) /\ UNCHANGED <<qs, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A k \in 1..Len(qs) : qs[k].kind \in {"tt", "mpo"} /\ (qs[k].kind = "mpo" \/ Trims(qs[k])) => Admissible(IF qs[k].kind = "mpo" THEN Prods(qs[k]) ELSE qs[k].sh, Rank(qs[k]))
=============================================================================
