----------------------------- MODULE MCSession -----------------------------
(* Exhaustive check of Session within small constants.  Besides the state of *)
(* Session the machine carries, for every streaming sketch, components that   *)
(* are computed the way a program would: the components of each update are    *)
(* added, scaled, transposed.  Invariant: they always are the components      *)
(* that the definition gives for the array that has been sketched.            *)
EXTENDS Session, Json, IOUtils

File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf            \* [ops, depth]
DrmOf(j) == [side |-> j.side, sh |-> j.sh,
             tab |-> IF j.side = "l" THEN LeftTable(j.cores) ELSE RightTable(j.sh, j.cores),
             rank |-> j.rank]
MCPool == FoldLeft(LAMBDA acc, p : acc \o p.pool, << >>, File.pools)
MCDrms == TLCEval(FoldLeft(LAMBDA acc, p : acc \o [i \in 1..Len(p.drms) |-> DrmOf(p.drms[i])], << >>, File.pools))

VARIABLES st, acc, n, last
vars == <<st, acc, n, last>>

Ops == {Conf.ops[i] : i \in 1..Len(Conf.ops)}
S == Slots(st)
Sc == {-1, 2}
Events ==
  UNION {
    CASE op = "make" -> {[op |-> op, p |-> p] : p \in 1..Len(PoolVal)}
      [] op \in {"alias", "neg", "T", "norm", "dense", "empty", "sparse", "orth"} -> {[op |-> op, a |-> a] : a \in S}
      [] op \in {"mul", "imul"} -> {[op |-> op, a |-> a, c |-> c, d |-> 1] : a \in S, c \in Sc}
      [] op = "div" -> {[op |-> op, a |-> a, c |-> 2, n |-> 1] : a \in S}
      [] op \in {"add", "sub", "iadd", "isub", "nest", "ttadd", "dot"} -> {[op |-> op, a |-> a, b |-> b] : a \in S, b \in S}
      [] op = "wsum" -> {[op |-> op, as |-> <<a, b>>, cs |-> <<c, 1>>] : a \in S, b \in S, c \in Sc}
      [] op = "split" -> {[op |-> op, a |-> a, n |-> 2] : a \in S}
      [] op = "sketch" -> {[op |-> op, a |-> a, l |-> x, r |-> y] : a \in S, x \in 1..Len(DrmVal), y \in 1..Len(DrmVal)}
      [] op = "poke" -> {[op |-> op, a |-> a, m |-> 1, c |-> 2] : a \in S}
    : op \in Ops}

\* ---- components computed incrementally ------------------------------------
CAdd(x, y, s) == [psi |-> [m \in 1..Len(x.psi) |-> AddV(x.psi[m], ScaleV(s, y.psi[m]))],
                  om  |-> [m \in 1..Len(x.om) |-> AddV(x.om[m], ScaleV(s, y.om[m]))]]
CScale(x, num, den) == [psi |-> [m \in 1..Len(x.psi) |-> DivV(ScaleV(num, x.psi[m]), den)],
                        om  |-> [m \in 1..Len(x.om) |-> DivV(ScaleV(num, x.om[m]), den)]]
\* the random matrix on the modes in reverse order
RevTab(rsh, tab) ==      \* rsh: the modes of a row, in the order of tab
  LET nsh == Rev(rsh)
  IN  [q \in 1..Prod(rsh) |-> tab[Flatten(rsh, Rev(Unflatten(nsh, q - 1))) + 1]]
AsLeft(dr)  == LET d == Len(dr.sh) IN [m \in 1..(d - 1) |-> RevTab(Drop(dr.sh, d - m), dr.tab[d - m])]
AsRight(dl) == LET d == Len(dl.sh) IN [m \in 1..(d - 1) |-> RevTab(Take(dl.sh, d - m), dl.tab[d - m])]
\* by definition, with the random matrices as seen from the transposed sketch
Direct(o, v) == IF o.tr THEN Comp(o.sh, v, AsLeft(DrmVal[o.r]), AsRight(DrmVal[o.l]))
                ELSE Comp(o.sh, v, DrmVal[o.l].tab, DrmVal[o.r].tab)
TransC(o, c) == SkTranspose(c, o.sh, SkLeftRank(o), SkRightRank(o))
\* components of the object that slot s refers to after the event
NewAcc(e, st2) ==
  [i \in 1..Len(st2.heap) |->
     IF i <= Len(acc) THEN acc[i]
     ELSE LET o == st2.heap[i] IN
       IF o.t # "sk" THEN [psi |-> << >>, om |-> << >>]
       ELSE LET x == Obj(st, e.a)  c == acc[st.slots[e.a]]
            IN CASE e.op = "sketch" -> Direct(o, o.v)
                 [] e.op \in {"mul", "rmul", "imul"} -> CScale(c, e.c, e.d)
                 [] e.op = "div" -> CScale(c, 1, e.c)
                 [] e.op = "neg" -> CScale(c, -1, 1)
                 [] e.op \in {"add", "iadd"} -> CAdd(c, Direct(x, Obj(st, e.b).v), 1)
                 [] e.op \in {"sub", "isub"} -> CAdd(c, Direct(x, Obj(st, e.b).v), -1)
                 [] e.op = "T" -> TransC(x, c)]

Init == st = EmptyState /\ acc = << >> /\ n = 0 /\ last = [op |-> "none"]
Next == /\ n < Conf.depth
        /\ \E e \in Events :
             /\ (n = 0 => e.op = "make")
             /\ Ok(st, e)
             /\ LET st2 == Do(st, e)
                IN  st' = st2 /\ acc' = NewAcc(e, st2) /\ last' = e
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
View == <<st, acc, n>>

Inv == /\ TypeOK(st)
       /\ \A i \in 1..Len(st.heap) : st.heap[i].t = "sk" =>
            /\ acc[i] = Direct(st.heap[i], st.heap[i].v)
            /\ acc[i] = SkComponents(st.heap[i])
FrameProp == [][Frame(st, last', st')]_vars
\* the representation never matters: equal arrays have equal inner products,
\* transposition is an involution
Laws == \A a \in S : Live(st, a) /\ IsX(st, a) =>
          LET o == Obj(st, a) IN
          /\ TransO(TransO(o)).v = o.v /\ TransO(TransO(o)).sh = o.sh
          /\ DotV(o.v, o.v) = DotV(TransO(o).v, TransO(o).v)
=============================================================================
