----------------------------- MODULE GenSession -----------------------------
(* Behaviours of Session as scripts for the implementation: run with         *)
(* -simulate; every behaviour of the configured length is printed as JSON.   *)
(* Arguments are drawn at random, one draw per kind of operation and state,  *)
(* so that all kinds are equally likely whatever their number of arguments.  *)
EXTENDS Session, Json, IOUtils, Randomization

File == JsonDeserialize(IOEnv.POOL_FILE)
PoolsJ == File.pools
Conf == File.conf           \* [ops |-> <<..>>, depth, seed0]
DrmOf(j) == [side |-> j.side, sh |-> j.sh,
             tab |-> IF j.side = "l" THEN LeftTable(j.cores) ELSE RightTable(j.sh, j.cores),
             rank |-> j.rank]
MCPool == FoldLeft(LAMBDA acc, p : acc \o p.pool, << >>, PoolsJ)
MCDrms == TLCEval(FoldLeft(LAMBDA acc, p : acc \o [i \in 1..Len(p.drms) |-> DrmOf(p.drms[i])], << >>, PoolsJ))

VARIABLES pid, st, hist, done
vars == <<pid, st, hist, done>>

Group == PoolsJ[pid]
GroupPool == (Group.pool0 + 1)..(Group.pool0 + Len(Group.pool))
GroupDrm(side, sh) == {i \in (Group.drm0 + 1)..(Group.drm0 + Len(Group.drms)) :
                         DrmVal[i].side = side /\ DrmVal[i].sh = sh}
Coin(x) == RandomElement({TRUE, FALSE})
Pick(X) == RandomElement(X)
LiveSlots == {s \in Slots(st) : Live(st, s)}
XSlots == {s \in LiveSlots : IsX(st, s)}
KSlots(ks) == {s \in LiveSlots : Obj(st, s).k \in ks}
Mates(a) == {s \in XSlots : Obj(st, s).sh = Obj(st, a).sh}
CallFns == {"hmt", "orthogonal", "stream", "ttsvd", "gmres", "gauss", "svdvals", "roundr", "precond", "mpo", "left", "right", "totrain", "skdot", "rsum"}
\* a power of two by which both operands are scaled
Scale(x) == IF Pick(1..3) = 1 THEN Pick({-150, -60, -40, -30, 24, 40, 150}) ELSE 0
Scalars == {-3, -2, -1, 0, 1, 2, 3, 5}
\* a random element of X as a singleton, empty if X is empty (bound variables
\* are evaluated once, which definitions of a draw would not be)
One(X) == IF X = {} THEN {} ELSE {RandomElement(X)}

\* the slots a request names
Named(e) == (IF "a" \in DOMAIN e THEN {e.a} ELSE {}) \union (IF "b" \in DOMAIN e THEN {e.b} ELSE {})
            \union (IF "as" \in DOMAIN e THEN Range(e.as) ELSE {})
\* at most one candidate request of the given kind
Cands(op) ==
  CASE op = "make" -> IF Len(st.slots) < Conf.maxslots THEN {[op |-> op, p |-> Pick(GroupPool)]} ELSE {}
    [] op \in {"alias", "neg", "T"} -> {[op |-> op, a |-> a] : a \in One(LiveSlots)}
    [] op \in {"mul", "rmul", "imul"} ->
         {[op |-> op, a |-> a, c |-> Pick(Scalars), d |-> Pick({1, 2, 4}), ty |-> Pick({"int", "float", "np"}), k |-> IF Pick(1..4) = 1 THEN Pick({-60, -30, 24, 40}) ELSE 0]
            : a \in One(LiveSlots)}
    [] op = "div" -> {[op |-> op, a |-> a, c |-> Pick({1, -1, 2, -2, 4}), ty |-> Pick({"int", "float"}), n |-> Pick({1, 1, 3, 7, 333, 1000003})]
                        : a \in One(LiveSlots)}
    [] op \in {"add", "sub", "iadd", "isub"} ->
         UNION {{[op |-> op, a |-> a, b |-> b] : b \in One(Mates(a))} : a \in One(LiveSlots)}
    [] op = "nest" ->
         UNION {{[op |-> op, a |-> a, b |-> b] : b \in One(Mates(a))} : a \in One(XSlots)}
    [] op = "dot" ->
         UNION {{[op |-> op, a |-> a, b |-> b, k |-> Scale(1)] : b \in One(Mates(a))} : a \in One(XSlots)}
    [] op = "error" ->
         UNION {{[op |-> op, a |-> a, b |-> b, rel |-> Coin(1), rmse |-> Coin(2), fast |-> Coin(3), np |-> Coin(4), k |-> Scale(2)]
                   : b \in One(Mates(a))} : a \in One(XSlots)}
    [] op = "norm" -> {[op |-> op, a |-> a, k |-> Scale(3)] : a \in One(XSlots)}
    [] op \in {"dense", "empty"} -> {[op |-> op, a |-> a] : a \in One(XSlots)}
    [] op = "wsum" ->
         UNION {{[op |-> op, as |-> SubSeq(<<a, b, c>>, 1, n), cs |-> [i \in 1..n |-> Pick(Scalars)],
                  ty |-> Pick({"list", "np", "gen", "tuple"})]
                   : n \in One(1..3), b \in One(Mates(a)), c \in One(Mates(a))} : a \in One(XSlots)}
    [] op = "ttwsum" ->                  \* the same, of tensor trains only
         UNION {{[op |-> "wsum", as |-> SubSeq(<<a, b, c>>, 1, n), cs |-> [i \in 1..n |-> Pick(Scalars)],
                  ty |-> Pick({"list", "np", "gen", "tuple"})]
                   : n \in One({2, 3}), b \in One(Mates(a) \intersect KSlots({"tt"})), c \in One(Mates(a) \intersect KSlots({"tt"}))} : a \in One(KSlots({"tt"}))}
    [] op = "rsum" -> {[op |-> "call", a |-> a, fn |-> "rsum"] : a \in One({s \in KSlots({"sum"}) : Obj(st, s).n >= 2})}
    [] op = "zero" -> {[op |-> op, a |-> a, rk |-> [i \in 1..(Len(Obj(st, a).sh) - 1) |-> Pick(1..3)]] : a \in One(XSlots)}
    [] op = "partial" -> {[op |-> op, a |-> a, dir |-> Pick({"lr", "rl"})] : a \in One(KSlots({"tt"}))}
    [] op = "wsumbad" ->
         UNION {{[op |-> op, as |-> SubSeq(<<a, b>>, 1, n), cs |-> [i \in 1..m |-> Pick(Scalars)],
                  ty |-> Pick({"list", "np", "gen", "tuple"})]
                   : n \in One(1..2), m \in One(0..3), b \in One(Mates(a))} : a \in One(XSlots)}
    [] op = "call" ->
         UNION {{[op |-> op, a |-> a, fn |-> f]
                   : f \in One({g \in CallFns : CallOk(Obj(st, a), g)})} : a \in One(LiveSlots)}
    \* sketches with random matrices that are given
    [] op = "dcall" ->
         UNION {{[op |-> "call", a |-> a, fn |-> Pick({"oskd", "hmtd", "sskd"}), l |-> x, r |-> y] : x \in One(GroupDrm("l", Obj(st, a).sh)),
                                                       y \in One(GroupDrm("r", Obj(st, a).sh))} : a \in One(XSlots)}
    [] op = "sparse" -> {[op |-> op, a |-> a] : a \in One(KSlots({"dense"}))}
    [] op = "split" -> {[op |-> op, a |-> a, n |-> Pick(1..5)] : a \in One(KSlots({"sparse"}))}
    [] op = "ttadd" ->
         UNION {{[op |-> op, a |-> a, b |-> b] : b \in One(Mates(a) \intersect KSlots({"tt"}))} : a \in One(KSlots({"tt"}))}
    [] op \in {"orth", "round"} -> {[op |-> op, a |-> a] : a \in One(KSlots({"tt"}))}
    [] op = "sketch" ->
         UNION {{[op |-> op, a |-> a, l |-> x, r |-> y] : x \in One(GroupDrm("l", Obj(st, a).sh)),
                                                       y \in One(GroupDrm("r", Obj(st, a).sh))} : a \in One(XSlots)}
    [] op = "poke" ->
         {[op |-> op, a |-> a, m |-> Pick(1..Len(Obj(st, a).sh)), c |-> Pick({-2, -1, 0, 2, 3})]
            : a \in One({s \in KSlots({"dense", "sparse", "tt", "cp"}) : Obj(st, s).orig = {st.slots[s]}})}
    [] op = "gather" ->
         UNION {{[op |-> op, a |-> a, ty |-> Pick({"tuple", "array"}),
                  ix |-> [i \in 1..n |-> Unflatten(Obj(st, a).sh, Pick(0..(Numel(Obj(st, a).sh) - 1)))]]
                   : n \in One(0..4)} : a \in One(KSlots({"sparse", "tt", "cp"}))}
    \* idioms: repeat an earlier request on the same objects (which may have been
    \* changed in place since), and change in place what an earlier request made or used
    [] op = "again" -> {hist[i] : i \in One({j \in 1..Len(hist) : hist[j].op \in Observers \union {"dense", "sketch", "split", "orth"}})}
    [] op = "touch" ->
         UNION {{CASE x = "iadd" -> [op |-> x, a |-> a, b |-> b]
                   [] x = "poke" -> [op |-> x, a |-> a, m |-> Pick(1..Len(Obj(st, a).sh)), c |-> Pick({-2, -1, 2, 3})]
                   [] OTHER -> [op |-> x, a |-> a, c |-> Pick({-1, 2, 3}), d |-> 1, ty |-> "float", k |-> 0]
                  : b \in One(Mates(a)), x \in One(IF Obj(st, a).k = "sum" THEN {"iadd"} ELSE {"poke", "poke", "imul"})}
                : a \in One({s \in {Len(st.slots)} \union UNION {Named(hist[i]) : i \in One(1..Len(hist))} : Live(st, s) /\ IsX(st, s)})}
    [] OTHER -> {}

Init == pid \in 1..Len(PoolsJ) /\ st = EmptyState /\ hist = << >> /\ done = FALSE
Perform(e) == Ok(st, e) /\ st' = Do(st, e) /\ hist' = Append(hist, e)
StepOp(op) == \E e \in Cands(op) : Perform(e)
Next == \/ /\ Len(hist) < Conf.depth /\ ~done
           /\ UNCHANGED <<pid, done>>
           /\ IF Len(hist) < 2 THEN StepOp("make")
              ELSE \E i \in One(1..Len(Conf.ops)) : \E op \in {Conf.ops[i]} :
                     \E cs \in {Cands(op)} :
                        IF \E e \in cs : Ok(st, e) THEN Perform(CHOOSE e \in cs : TRUE) ELSE Perform([op |-> "alias", a |-> 1])
        \/ /\ Len(hist) = Conf.depth /\ ~done
           /\ done' = PrintT(<<"SCRIPT", pid, ToJson(hist)>>)
           /\ UNCHANGED <<pid, st, hist>>
Spec == Init /\ [][Next]_vars

\* design properties checked on every generated state
Inv == TypeOK(st)
FrameProp == [][Frame(st, hist'[Len(hist')], st')]_vars
=============================================================================
