------------------------------ MODULE Recover ------------------------------
(* Exact recovery (C07).  Tensors [sh, v, kinds] are those of a pool g and,  *)
(* the state s, the trains returned by sketches of linear combinations of    *)
(* earlier ones.  A sketch of a combination x      *)
(* (made at once, by updates, or grown to its ranks) returns a train of the  *)
(* same array if its sketch ranks are at least the ranks of the unfoldings   *)
(* of x and the random matrices are generic for x.  Gaussian ones are so     *)
(* with probability one; for those with few values it is decided exactly.    *)
EXTENDS Fix, Tensors, Ranks, SketchDef

Rk2(A) == Max2(RankMod(A, 46337), RankMod(A, 46327))
TTRanks(sh, v) == TLCEval([m \in 1..(Len(sh) - 1) |-> Rk2(Unfold(sh, v, m))])

\* formats occurring in a tensor, and those a type of random matrix can be applied to
RECURSIVE Occurs(_, _)
Occurs(k, t) == IF t.k = "sum" THEN \E i \in 1..Len(t.ts) : Occurs(k, t.ts[i]) ELSE t.k = k
KindsOf(t) == TLCEval({k \in {"dense", "sparse", "tt", "cp", "tucker"} : Occurs(k, t)})
Applies(drm) == CASE drm \in {"default", "tt"} -> {"dense", "sparse", "tt", "cp", "tucker"}
                  [] drm = "dg" -> {"dense", "sparse", "tt"}
                  [] OTHER -> {"sparse"}
Grows == {"dg", "sg"}

N(g, s) == Len(g) + Len(s)
TAt(g, s, i) == IF i <= Len(g) THEN g[i] ELSE s[i - Len(g)]
Comb(g, s, terms) ==
  FoldLeft(LAMBDA acc, t : AddV(acc, ScaleV(t[2], TAt(g, s, t[1]).v)), ScaleV(terms[1][2], TAt(g, s, terms[1][1]).v), Drop(terms, 1))
CombKinds(g, s, terms) == UNION {TAt(g, s, terms[i][1]).kinds : i \in 1..Len(terms)}
Arg(sh, a) == IF a.k = "int" THEN [m \in 1..(Len(sh) - 1) |-> a.r[1]] ELSE a.r
Less(x, y) == \A m \in 1..Len(x) : x[m] < y[m]
\* bounds for 32-bit arithmetic
Small(v) == MaxAbs(v) < 3000
RecLegal(g, s, e) ==
  /\ Len(e.terms) >= 1 /\ \A i \in 1..Len(e.terms) : e.terms[i][1] \in 1..N(g, s) /\ e.terms[i][2] \in {1, -1, 2}
  /\ \A i \in 1..Len(e.terms) : TAt(g, s, e.terms[i][1]).sh = TAt(g, s, e.terms[1][1]).sh
  /\ LET sh == TAt(g, s, e.terms[1][1]).sh
         v == Comb(g, s, e.terms)
         lr == Arg(sh, e.lr)  rr == Arg(sh, e.rr)
         low == IF e.method = "stream" THEN [m \in 1..Len(lr) |-> Min2(lr[m], rr[m])] ELSE lr
     IN  /\ Small(v) /\ Len(lr) = Len(sh) - 1 /\ Len(rr) = Len(lr)
         /\ \A m \in 1..Len(lr) : lr[m] >= 1 /\ rr[m] >= 1
         /\ CombKinds(g, s, e.terms) \subseteq (Applies(e.lt) \cap Applies(e.rt))
         /\ CASE e.method = "stream" -> Less(lr, rr) \/ Less(rr, lr)
              [] e.method = "orth" -> Less(lr, rr)
              [] e.method = "hmt" -> e.lt = e.rt /\ e.lr = e.rr
              [] OTHER -> FALSE
         /\ RLeq(TTRanks(sh, v), low)
         /\ e.how \in {"once", "upd", "grow"}
         /\ (e.how # "once" => e.method = "stream") /\ (e.how = "grow" => e.given)
         /\ (e.how = "grow" => e.lt \in Grows /\ e.rt \in Grows /\ RLeq(e.l0, lr) /\ RLeq(e.r0, rr) /\ (Less(e.l0, e.r0) \/ Less(e.r0, e.l0)))
         /\ (e.lt = "default" => ~e.given) /\ (e.rt = "default" => ~e.given)
         /\ ("ss" \in {e.lt, e.rt} => e.given)
         \* a given random matrix has the ranks as they are
         /\ (e.given => /\ e.lr.k # "int" /\ e.rr.k # "int" /\ e.seed >= 0
                        /\ (e.method # "stream" => Admissible(sh, lr)))
         /\ e.sc \in {0, 8, -8, 25, -25, 100, -100}
Legal(g, s, e) == CASE e.op = "rec" -> RecLegal(g, s, e)
                 [] e.op = "T" -> e.a \in 1..N(g, s)
                 [] OTHER -> FALSE
Do(g, s, e) ==
  CASE e.op = "rec" -> Append(s, [sh |-> TAt(g, s, e.terms[1][1]).sh, v |-> Comb(g, s, e.terms), kinds |-> {"tt"}])
    [] e.op = "T"   -> Append(s, [sh |-> Rev(TAt(g, s, e.a).sh), v |-> TransposeV(TAt(g, s, e.a).sh, TAt(g, s, e.a).v), kinds |-> TAt(g, s, e.a).kinds])
    [] OTHER -> s
\* equal up to round-off: 10^-6 relative, 10^-7 absolute
Same(x, v) == BNearV(x, v, BAdd(BDivK(BMaxAbs(v)), Fx(100)))
\* the random matrices with few values do not lose rank (tables L, R of integers, see SketchDef;
\* a Gaussian one is recorded as an empty table)
Generic(sh, v, method, L, R) ==
  \A m \in 1..(Len(sh) - 1) :
    LET X == Unfold(sh, v, m)
        Y == IF R = << >> THEN X ELSE MatMul(X, R[m])
        Z == IF method = "hmt" \/ L = << >> THEN Y ELSE MatMul(Transp(L[m]), Y)
    IN  Rk2(Z) = Rk2(X)
=============================================================================
