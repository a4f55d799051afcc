-------------------------------- MODULE Huge --------------------------------
(* Tensors over index spaces far too large to be written down (2^66 entries   *)
(* and more, up to 110 modes).  An array is a finite map from multi-indices   *)
(* (sequences counted from 0) to non-zero integers; all other entries are 0.  *)
(* The machine of a session over such arrays: objects never change.           *)
(*   object: [ks, sh, m, rb, ex]  ks the formats of the summands ("tt",       *)
(*   "sparse", "cp"), m the map, rb a bound of the TT ranks, n summands,      *)
(*   k the format ("sum" for lazy sums), ex: entries are exact                *)
EXTENDS SketchDef

\* a map as a sequence of [p |-> index, v |-> value]
RECURSIVE MapOf(_, _, _)
MapOf(s, i, j) == IF i > j THEN << >> ELSE IF i = j THEN s[i].p :> s[i].v ELSE LET h == (i + j) \div 2 IN MapOf(s, i, h) @@ MapOf(s, h + 1, j)
ToMap(s) == TLCEval(MapOf(s, 1, Len(s)))
Support(m) == DOMAIN m
AtM(m, x) == IF x \in DOMAIN m THEN m[x] ELSE 0
NonZero(m) == LET D == {x \in DOMAIN m : m[x] # 0} IN IF D = DOMAIN m THEN m ELSE TLCEval([x \in D |-> m[x]])
HAdd(a, b, c) == NonZero(TLCEval([x \in DOMAIN a \cup DOMAIN b |-> AtM(a, x) + c * AtM(b, x)]))
HScale(c, a) == IF c = 0 THEN << >> ELSE TLCEval([x \in DOMAIN a |-> c * a[x]])
HDivisible(a, c) == \A x \in DOMAIN a : a[x] % c = 0
HDiv(a, c) == TLCEval([x \in DOMAIN a |-> IF a[x] < 0 THEN -((-a[x]) \div c) ELSE a[x] \div c])
HT(a) == TLCEval([y \in {Rev(x) : x \in DOMAIN a} |-> a[Rev(y)]])
SumOver(S, F(_)) == FoldLeft(LAMBDA acc, x : acc + F(x), 0, SetToSeq(S))
HDot(a, b) == SumOver(DOMAIN a \cap DOMAIN b, LAMBDA x : a[x] * b[x])
HMax(a) == FoldLeft(LAMBDA acc, x : Max2(acc, Abs(a[x])), 0, SetToSeq(DOMAIN a))

\* ---- what a representation denotes: prefixes with their row vectors, non-zero ones only
VecMat(v, G, i) == [b \in 1..CoreR(G) |-> Sum(Len(v), LAMBDA a : IF v[a] = 0 THEN 0 ELSE v[a] * G[a][i][b])]
NZ(v) == \E k \in 1..Len(v) : v[k] # 0
Extend(acc, n, F(_, _)) ==
  SelectSeq(TLCEval([q \in 1..(Len(acc) * n) |->
     LET t == acc[(q - 1) \div n + 1]  i == ((q - 1) % n) + 1
     IN  [p |-> Append(t.p, i - 1), v |-> F(t.v, i)]]), LAMBDA t : NZ(t.v))
HTT(cores) == FoldLeft(LAMBDA acc, G : Extend(acc, CoreN(G), LAMBDA v, i : VecMat(v, G, i)), <<[p |-> << >>, v |-> <<1>>]>>, cores)
HCP(fac) == FoldLeft(LAMBDA acc, F : Extend(acc, Len(F), LAMBDA v, i : [t \in 1..Len(v) |-> v[t] * F[i][t]]),
                     <<[p |-> << >>, v |-> [t \in 1..Len(fac[1][1]) |-> 1]]>>, fac)
\* products of sparse vectors: terms[t][m] a sequence of [i |-> place, v |-> value]
HTerm(f) == LET s == FoldLeft(LAMBDA acc, v : TLCEval([q \in 1..(Len(acc) * Len(v)) |->
                        LET t == acc[(q - 1) \div Len(v) + 1]  w == v[((q - 1) % Len(v)) + 1] IN [p |-> Append(t.p, w.i), v |-> t.v * w.v]]),
                      <<[p |-> << >>, v |-> 1]>>, f)
            IN  ToMap(s)
HDenote(r) ==
  NonZero(CASE "terms" \in DOMAIN r -> FoldLeft(LAMBDA acc, f : HAdd(acc, HTerm(f), 1), << >>, r.terms)
            [] r.k = "sparse" -> ToMap([i \in 1..Len(r.e) |-> [p |-> r.ix[i], v |-> r.e[i]]])
            [] r.k = "tt" -> LET s == HTT(r.cores) IN ToMap([i \in 1..Len(s) |-> [p |-> s[i].p, v |-> s[i].v[1]]])
            [] r.k = "cp" -> LET s == HCP(r.fac) IN ToMap([i \in 1..Len(s) |-> [p |-> s[i].p, v |-> SumSeq(s[i].v)]]))
HRank(r) == CASE "terms" \in DOMAIN r -> Len(r.terms) [] r.k = "sparse" -> Min2(Len(r.e), 20) [] r.k = "tt" -> MaxSeq(RankOf(r) \o <<1>>) [] r.k = "cp" -> Len(r.fac[1][1])

\* ---- linear maps: cores[m][a][i][j][b]; the outputs of one input multi-index
MpoRow(cores, x) ==
  LET s == FoldLeft(LAMBDA acc, m :
             LET C == cores[m]  i == x[m] + 1
             IN  Extend(acc, Len(C[1][i]), LAMBDA v, j : [b \in 1..Len(C[1][1][1]) |-> Sum(Len(v), LAMBDA a : v[a] * C[a][i][j][b])]),
             <<[p |-> << >>, v |-> <<1>>]>>, Iota(Len(cores)))
  IN  ToMap([i \in 1..Len(s) |-> [p |-> s[i].p, v |-> s[i].v[1]]])
HApply(cores, a) == FoldLeft(LAMBDA acc, x : HAdd(acc, MpoRow(cores, x), a[x]), << >>, SetToSeq(DOMAIN a))

\* ---- sketches: the rows of the random matrices that matter -----------------
\* L: for the index x, the vectors after the modes 1..d-1 (cores in contraction order)
Rows(cores, x) ==
  FoldLeft(LAMBDA acc, m : Append(acc, TLCEval(VecMat(IF m = 1 THEN <<1>> ELSE acc[m - 1], cores[m], x[m] + 1))), << >>, Iota(Len(cores)))
HSketch(sh, a, L, R, lr, rr) ==
  LET d == Len(sh)
      X == SetToSeq(DOMAIN a)
      lx == TLCEval([k \in 1..Len(X) |-> Rows(L, X[k])])
      rx == TLCEval([k \in 1..Len(X) |-> Rev(Rows(R, Rev(X[k])))])     \* entry m: bond m
      l(k, m) == IF m = 0 THEN <<1>> ELSE lx[k][m]
      r(k, m) == IF m = d THEN <<1>> ELSE rx[k][m]
      rb(m) == IF m = d THEN 1 ELSE rr[m]
      lb(m) == IF m = 0 THEN 1 ELSE lr[m]
      psi(m) == TLCEval([q \in 1..(lb(m - 1) * sh[m] * rb(m)) |->
                  LET b == ((q - 1) % rb(m)) + 1  i == ((q - 1) \div rb(m)) % sh[m]  al == (q - 1) \div (rb(m) * sh[m]) + 1
                  IN  Sum(Len(X), LAMBDA k : IF X[k][m] # i THEN 0 ELSE a[X[k]] * l(k, m - 1)[al] * r(k, m)[b])])
      om(m) == TLCEval([q \in 1..(lr[m] * rr[m]) |->
                  LET b == ((q - 1) % rr[m]) + 1  al == (q - 1) \div rr[m] + 1
                  IN  Sum(Len(X), LAMBDA k : a[X[k]] * l(k, m)[al] * r(k, m)[b])])
  IN  [psi |-> [m \in 1..d |-> psi(m)], om |-> [m \in 1..(d - 1) |-> om(m)]]

\* ---- the machine ------------------------------------------------------------
\* g: [sh, tens, mpos, drms, rec]; tens[p] = [k, sh, m, rb]
O(s, i) == s[i]
Valid(s, i) == i \in 1..Len(s)
KSet(o) == o.ks
\* the work of an inner product is bounded; formats whose inner product is computed without writing the arrays down
PairOk(x, y) == x = "sparse" \/ y = "sparse" \/ (x = "tt" /\ y = "tt")
DotOk(o, q) ==
  /\ o.n * q.n * Len(o.sh) <= 50000 /\ o.rb * q.rb <= 200000
  /\ LET w == SumSeq([i \in 1..Len(o.sh) |-> Min2(o.sh[i], 100000)]) \div 10 + 1
     IN  w * ((o.rb * q.rb) \div 10 + 1) <= 1000000 /\ w * ((o.n * q.n) \div 10 + 1) <= 50000
  /\ \A x \in o.ks : \A y \in q.ks : PairOk(x, y)
NormOk(o) == (o.n <= 400 /\ o.k \in {"tt", "sparse"}) \/ DotOk(o, o)
SmallM(o) == HMax(o.m) < 3000
Same(s, e) == O(s, e.a).sh = O(s, e.b).sh
HOk(g, s, e) ==
  CASE e.op = "make" -> e.p \in 1..Len(g.tens)
    [] e.op = "mul" -> Valid(s, e.a) /\ SmallM(O(s, e.a))
    [] e.op = "div" -> Valid(s, e.a) /\ HDivisible(O(s, e.a).m, e.c)
    [] e.op \in {"neg", "T"} -> Valid(s, e.a)
    [] e.op \in {"add", "sub"} -> Valid(s, e.a) /\ Valid(s, e.b) /\ Same(s, e) /\ SmallM(O(s, e.a)) /\ SmallM(O(s, e.b)) /\ Cardinality(DOMAIN O(s, e.a).m) + Cardinality(DOMAIN O(s, e.b).m) <= g.cap
    \* many summands: the objects of the list, over and over
    [] e.op = "msum" -> /\ e.ix # << >> /\ e.n >= 1 /\ \A i \in 1..Len(e.ix) : Valid(s, e.ix[i]) /\ O(s, e.ix[i]).sh = O(s, e.ix[1]).sh
                        /\ SumSeq([i \in 1..Len(e.ix) |-> HMax(O(s, e.ix[i]).m)]) * e.n < 3000
                        /\ SumSeq([i \in 1..Len(e.ix) |-> O(s, e.ix[i]).n]) * e.n <= 300
                        /\ SumSeq([i \in 1..Len(e.ix) |-> Cardinality(DOMAIN O(s, e.ix[i]).m)]) <= g.cap
    [] e.op = "ttadd" -> Valid(s, e.a) /\ Valid(s, e.b) /\ Same(s, e) /\ O(s, e.a).k = "tt" /\ O(s, e.b).k = "tt" /\ O(s, e.a).rb + O(s, e.b).rb <= 24
                         /\ SmallM(O(s, e.a)) /\ SmallM(O(s, e.b))
    [] e.op = "split" -> Valid(s, e.a) /\ O(s, e.a).k = "sparse" /\ e.n >= 1
    [] e.op \in {"orth", "round"} -> Valid(s, e.a) /\ O(s, e.a).k = "tt"
    [] e.op = "rsum" -> Valid(s, e.a) /\ O(s, e.a).k = "sum" /\ O(s, e.a).ks = {"tt"} /\ O(s, e.a).rb <= 12
    [] e.op = "mpo" -> Valid(s, e.a) /\ O(s, e.a).k = "tt" /\ e.p \in 1..Len(g.mpos) /\ O(s, e.a).sh = g.sh /\ O(s, e.a).rb <= 12 /\ SmallM(O(s, e.a))
    [] e.op = "rec" -> Valid(s, e.a) /\ g.rec /\ O(s, e.a).rb <= 10 /\ DOMAIN O(s, e.a).m # {}
    [] e.op = "dot" -> Valid(s, e.a) /\ Valid(s, e.b) /\ Same(s, e) /\ DotOk(O(s, e.a), O(s, e.b))
    [] e.op = "norm" -> Valid(s, e.a) /\ NormOk(O(s, e.a))
    [] e.op = "error" -> /\ Valid(s, e.a) /\ Valid(s, e.b) /\ Same(s, e)
                         /\ IF e.fast THEN DotOk(O(s, e.a), O(s, e.b)) /\ NormOk(O(s, e.a)) /\ NormOk(O(s, e.b))
                            ELSE O(s, e.a).k = "tt" /\ O(s, e.b).k = "tt"
    [] e.op = "gather" -> Valid(s, e.a) /\ O(s, e.a).k \in {"sparse", "tt", "cp"} /\ \A i \in 1..Len(e.ix) : InRange(O(s, e.a).sh, e.ix[i])
    [] e.op = "sketch" -> Valid(s, e.a) /\ O(s, e.a).sh = g.sh /\ e.l \in 1..Len(g.drms) /\ O(s, e.a).ex
    [] OTHER -> FALSE
Ex(o) == o.ex
MTimes(e, i) == (e.n + Len(e.ix) - i) \div Len(e.ix)      \* how often object i appears
HDo(g, s, e) ==
  CASE e.op = "make" -> Append(s, [k |-> g.tens[e.p].k, ks |-> {g.tens[e.p].k}, sh |-> g.tens[e.p].sh, m |-> g.tens[e.p].m, rb |-> g.tens[e.p].rb, n |-> 1, ex |-> TRUE])
    [] e.op = "mul" -> Append(s, [O(s, e.a) EXCEPT !.m = HScale(e.c, @)])
    [] e.op = "div" -> Append(s, [O(s, e.a) EXCEPT !.m = HDiv(@, e.c)])
    [] e.op = "neg" -> Append(s, [O(s, e.a) EXCEPT !.m = HScale(-1, @)])
    [] e.op = "T" -> Append(s, [O(s, e.a) EXCEPT !.m = HT(@), !.sh = Rev(@)])
    [] e.op \in {"add", "sub"} -> LET x == O(s, e.a)  y == O(s, e.b)
         IN  Append(s, [x EXCEPT !.k = "sum", !.ks = @ \cup y.ks, !.m = HAdd(x.m, y.m, IF e.op = "add" THEN 1 ELSE -1), !.rb = @ + y.rb, !.n = @ + y.n, !.ex = @ /\ y.ex])
    [] e.op = "msum" -> LET L == Len(e.ix)  os(i) == O(s, e.ix[i])
         IN  Append(s, [k |-> "sum", ks |-> UNION {os(i).ks : i \in {j \in 1..L : MTimes(e, j) > 0}}, sh |-> os(1).sh,
                        m |-> FoldLeft(LAMBDA acc, i : HAdd(acc, os(i).m, MTimes(e, i)), << >>, Iota(L)),
                        rb |-> Sum(L, LAMBDA i : MTimes(e, i) * os(i).rb), n |-> Sum(L, LAMBDA i : MTimes(e, i) * os(i).n), ex |-> \A i \in 1..L : os(i).ex])
    [] e.op = "ttadd" -> LET x == O(s, e.a)  y == O(s, e.b) IN Append(s, [x EXCEPT !.m = HAdd(x.m, y.m, 1), !.rb = @ + y.rb, !.ex = @ /\ y.ex])
    [] e.op = "split" -> Append(s, [O(s, e.a) EXCEPT !.k = "sum", !.n = e.n])
    [] e.op \in {"orth", "round", "rsum", "rec"} -> Append(s, [O(s, e.a) EXCEPT !.k = "tt", !.ks = {"tt"}, !.n = 1, !.ex = FALSE])
    [] e.op = "mpo" -> Append(s, [O(s, e.a) EXCEPT !.m = HApply(g.mpos[e.p], @), !.rb = @ * Len(g.mpos[e.p][2])])
    [] OTHER -> s
=============================================================================
