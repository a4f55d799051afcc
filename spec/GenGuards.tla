------------------------------ MODULE GenGuards ------------------------------
(* Random sequences of requests, near the boundary between consistent and not. *)
EXTENDS Guards, Json, IOUtils, Randomization
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf
VARIABLES sh, hist, done
vars == <<sh, hist, done>>
Pick(X) == RandomElement(X)
One(X) == {RandomElement(X)}
P(n) == Pick(1..100) <= n           \* true with probability n percent
D == Len(sh) - 1
Vec(n, X) == [m \in 1..n |-> Pick(X)]
Other(s) == LET m == Pick(1..Len(s)) IN CASE P(20) /\ s[m] > 1 -> [s EXCEPT ![m] = 1]
                                          [] P(30) -> [s EXCEPT ![m] = @ + 1]
                                          [] P(30) -> Rev(s)
                                          [] P(30) -> Append(s, Pick(1..2))
                                          [] P(50) /\ Len(s) > 2 -> Take(s, Len(s) - 1)
                                          [] OTHER -> [s EXCEPT ![m] = 1]
OtherMode(s) == LET m == Pick(1..Len(s)) IN IF P(20) /\ s[m] > 1 THEN [s EXCEPT ![m] = 1] ELSE IF P(60) \/ Rev(s) = s THEN [s EXCEPT ![m] = @ + 1] ELSE Rev(s)
Near(s) == IF P(60) THEN s ELSE Other(s)
\* a rank argument; now and then of a wrong length
Arg(n, X) == IF P(25) THEN [k |-> Pick({"int", "npint"}), r |-> <<Pick(X)>>]
             ELSE [k |-> Pick({"tuple", "list", "np", "nptuple"}), r |-> Vec(IF P(92) THEN n ELSE IF P(50) THEN n + 1 ELSE Max2(n - 1, 0), X)]
\* an argument bigger than a at every bond, or (more rarely) not quite
Val(a) == IF a.k \in ScalarK THEN [m \in 1..D |-> a.r[1]] ELSE a.r
Bigger(a) == LET v == Val(a) IN
  CASE P(20) -> Arg(D, 1..6)
    [] a.k \in ScalarK /\ P(60) -> [a EXCEPT !.r = <<a.r[1] + Pick(0..2)>>]
    [] OTHER -> [k |-> Pick({"tuple", "list", "nptuple"}), r |-> LET j == Pick(0..(2 * Max2(Len(v), 1))) IN [m \in 1..Len(v) |-> IF m = j THEN v[m] - Pick({0, 0, 1, -1}) ELSE v[m] + Pick(1..3)]]
PosArg(a) == [a EXCEPT !.r = [m \in 1..Len(a.r) |-> Max2(1, a.r[m])]]
\* a given random matrix for argument a
NoDrm == [t |-> "none", rank |-> << >>, sh |-> << >>]
DRank(a) == LET v == Val(a) IN IF P(60) \/ Len(v) = 0 THEN v
                               ELSE IF Rev(v) # v /\ P(70) THEN Rev(v) ELSE [v EXCEPT ![Pick(1..Len(v))] = Max2(1, @ + Pick({1, -1}))]
Drm(a) == IF P(40) THEN NoDrm
          ELSE LET s == IF P(80) THEN sh ELSE Other(sh)  r == DRank(a)
               IN [t |-> Pick({"tt", "dg", "sg", "ss"}), sh |-> s, rank |-> IF Len(r) = Len(s) - 1 THEN r ELSE [m \in 1..(Len(s) - 1) |-> 2]]
Mk(op) ==
  CASE op \in {"stream", "osk"} ->
         UNION {UNION {UNION {{[op |-> op, sh |-> sh, rank |-> IF sw THEN b ELSE a, right |-> IF sw THEN a ELSE b,
             lg |-> lg, rg |-> rg] : lg \in {Drm(IF sw THEN b ELSE a)}, rg \in {Drm(IF sw THEN a ELSE b)}}
             : sw \in {op = "stream" /\ P(50)}} : b \in {PosArg(b0) : b0 \in {Bigger(a)}}} : a \in {Arg(D, 1..4)}}
    [] op = "hmt" -> UNION {{[op |-> op, sh |-> sh, rank |-> a, rg |-> g] : g \in {Drm(a)}} : a \in {Arg(D, 1..4)}}
    [] op = "upd" -> {[op |-> op, sh |-> sh, sh2 |-> Near(sh), how |-> Pick({"add", "sub", "iadd", "isub"}), empty |-> P(25)]}
    [] op = "grow" ->
         UNION {UNION {{[op |-> op, sh |-> sh, sh2 |-> IF P(85) THEN sh ELSE Other(sh), t |-> Pick({"sg", "dg", "sg", "dg", "tt", "ss", "pl"}), t2 |-> Pick({"sg", "dg", "sg", "dg", "tt", "ss", "pl"}), old |-> o, oldr |-> q,
             rank |-> IF P(30) THEN Arg(D, 1..6) ELSE [k |-> Pick({"tuple", "list", "nptuple"}), r |-> [m \in 1..D |-> Max2(1, o[m] + w[m])]],
             right |-> IF P(15) THEN Arg(D, 2..8) ELSE [k |-> Pick({"tuple", "list", "nptuple"}), r |-> [m \in 1..D |-> Max2(1, q[m] + w[m] + Pick({0, 0, 0, 1, 2, -1}))]]]
             : q \in {[m \in 1..D |-> o[m] + Pick(1..3)]}, w \in {Vec(D, {0, 0, 1, 1, 2, 3, IF P(10) THEN -1 ELSE 0})}} : o \in {Vec(D, 1..3)}}
                : x \in {1}}
    [] op = "slice" -> UNION {{[op |-> op, sh |-> sh, t |-> Pick({"tt", "dg", "sg", "ss", "tt", "dg", "sg", "ss", "pl"}), side |-> Pick({"l", "r"}), rk |-> r,
             lo |-> [m \in 1..n |-> Pick({0, 0, 1, 2}) - (IF P(4) THEN 1 ELSE 0)],
             hi |-> [m \in 1..n2 |-> (IF m <= Len(r) THEN r[m] ELSE 1) - Pick({0, 0, 1}) + (IF P(5) THEN 1 ELSE 0)]]
             : n \in {IF P(94) THEN D ELSE D + 1}, n2 \in {IF P(94) THEN D ELSE Max2(1, D - 1)}} : r \in {Vec(D, 2..5)}}
    [] op = "block" -> {[op |-> op, sh |-> sh, sh2 |-> IF P(75) THEN sh ELSE Other(sh), t |-> Pick({"tt", "dg", "sg", "ss", "tt", "dg", "sg", "ss", "pl"}), t2 |-> Pick({"tt", "dg", "sg", "ss", "tt", "dg", "sg", "ss", "pl"})]}
    [] op = "sign" -> UNION {{[op |-> op, sh |-> sh, rank |-> a, side |-> Pick({"l", "r"}), nnz |-> LET v == Val(a) IN
             [m \in 1..(IF P(92) THEN Len(v) ELSE Len(v) + 1) |-> IF m > Len(v) THEN 1 ELSE IF P(12) THEN v[m] + 1 ELSE Pick(1..v[m])]] : x \in {1}} : a \in {Arg(D, 1..5)}}
    [] op = "drm" -> {[op |-> op, sh |-> sh, t |-> Pick({"tt", "dg", "sg", "ss"}), side |-> Pick({"l", "r"}), rank |-> Arg(D, 1..4)]}
    [] op = "use" -> {[op |-> op, sh |-> sh, sh2 |-> Near(sh), t |-> Pick({"tt", "dg", "sg", "ss"}), side |-> Pick({"l", "r"}), kind |-> Pick({"sparse", "tt", "dense", "cp", "tucker"})]}
    [] op = "cores" -> {[op |-> op, sh |-> sh, dir |-> Pick({"auto", "left", "right", "Left", "", "both", "lr", "rightleft", "none"}), tr |-> P(50)]}
    [] op = "rsum" -> {[op |-> op, sh |-> sh, rank |-> Arg(D, 1..4), n |-> Pick(1..4), of |-> Pick({2000, 1500, 1100, 3000, 1000, 900, 500}),
             method |-> Pick({"exact", "pairwise", "sketch", "orth_sketch", "exact", "pairwise", "sketch", "orth_sketch", "none", "Exact", "svd", "", "orth", "sketched"})]}
    [] op = "ttrand" -> {[op |-> op, sh |-> sh, rank |-> Arg(D, 1..5), goal |-> Pick({"norm-1", "norm-preserve", "norm-1", "norm-preserve", "norm_1", "", "norm-2"}),
             orthog |-> Pick({"yes", "no", "default"}), trim |-> Pick({"yes", "no", "default"})]}
    [] op = "wts" -> {[op |-> op, sh |-> sh, n |-> Pick(0..4), m |-> Pick(0..4), ty |-> Pick({"list", "tuple", "np", "gen", "mul", "rmul"})]}
    [] op = "mapsum" -> {[op |-> op, sh |-> sh, maps |-> [i \in 1..Pick(0..4) |-> IF P(85) THEN <<sh, sh>> ELSE LET n == Pick(1..4) IN
                    IF n = 1 THEN LET s == Other(sh) IN <<s, s>> ELSE <<IF n = 2 THEN sh ELSE OtherMode(sh), IF n = 3 THEN sh ELSE OtherMode(sh)>>], pc |-> P(50)]}
    [] op = "gmres" -> UNION {{[op |-> op, sh |-> sh, ish |-> IF Len(o) = Len(sh) THEN sh ELSE o, ash |-> o, bsh |-> IF P(70) THEN sh ELSE IF P(70) THEN o ELSE Other(sh), xsh |-> IF P(50) THEN << >> ELSE IF P(50) THEN o ELSE Near(sh),
             rank |-> Arg(D, 2..4), final |-> IF P(50) THEN [k |-> "none", r |-> << >>] ELSE Arg(D, 1..3),
             method |-> Pick({"exact", "pairwise", "sketch", "orth_sketch", "exact", "pairwise", "sketch", "orth_sketch", "qr"}),
             fmethod |-> Pick({"none", "none", "exact", "pairwise", "sketch", "orth_sketch", "svd"})] : o \in {IF P(75) THEN sh ELSE Other(sh)}} : x \in {1}}
    [] op = "trim" -> {[op |-> op, sh |-> sh, rank |-> Arg(D, 1..9)]}
    [] op \in {"zero", "process", "svd", "ttround", "mpo"} -> {[op |-> op, sh |-> sh, rank |-> IF op \in {"svd", "ttround"} /\ P(20) THEN [k |-> "none", r |-> << >>] ELSE Arg(D, 1..5)]}
    [] op = "sprand" -> {[op |-> op, sh |-> sh, nnz |-> Pick({0, 1, Prod(sh), Prod(sh) + 1, Prod(sh) - 1, -1, 2 * Prod(sh)}), seeded |-> P(50)]}
    [] op = "general" -> {[op |-> op, sh |-> sh, method |-> Pick({"hmt", "streaming", "orthogonal"}), left |-> Pick({"yes", "no"})]}
Init == sh \in {Conf.shapes[i] : i \in 1..Len(Conf.shapes)} /\ hist = << >> /\ done = FALSE
Next == \/ /\ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED <<sh, done>>
           /\ \E i \in One(1..Len(Conf.ops)) : \E cs \in {TLCEval(Mk(Conf.ops[i]))} : \E e \in {CHOOSE e \in cs : TRUE} : hist' = Append(hist, e)
        \/ /\ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", 0, ToJson([sh |-> sh, ev |-> hist])>>) /\ UNCHANGED <<sh, hist>>
Spec == Init /\ [][Next]_vars
Inv == \A i \in 1..Len(hist) : Accept(hist[i]) \in BOOLEAN
=============================================================================
