------------------------------ MODULE Session ------------------------------
(* A user's session with the library: a heap of objects, variables (slots)   *)
(* referring to them, and one action per public operation.  An object is     *)
(* abstracted to the array it denotes (streaming sketches: the array that    *)
(* has been sketched, and the two random matrices).                          *)
(*                                                                           *)
(* An operation is a record e with e.op and arguments; Ok(st, e) says when   *)
(* it is a request the library must serve, Do(st, e) what the state is       *)
(* afterwards.  Operations create new objects; only iadd on a lazy sum and   *)
(* poke (writing into a tensor's own data) change an existing one.           *)
(*                                                                           *)
(* Pool: sequence of representations, as in Tensors.                         *)
(* Drms: sequence of [side, sh, tab, rank], random matrices (see SketchDef). *)
EXTENDS SketchDef

CONSTANTS Pool, Drms

\* what the pool denotes; evaluated once
Described(P) == TLCEval([i \in 1..Len(P) |-> [v |-> Denote(P[i]), sz |-> SizeOf(P[i]),
                           rk |-> RankOf(P[i]), n |-> Count(P[i]), k |-> P[i].k, sh |-> P[i].sh]])
PoolVal == Described(Pool)
DrmVal == TLCEval(Drms)

EmptyState == [heap |-> << >>, slots |-> << >>]
Obj(st, s) == st.heap[st.slots[s]]
Slots(st) == 1..Len(st.slots)
Live(st, s) == Obj(st, s).t # "dead"
IsX(st, s) == Obj(st, s).t = "x"
IsSk(st, s) == Obj(st, s).t = "sk"
Valid(st, s) == s \in Slots(st) /\ Live(st, s)
NewSlot(st, o) == [heap |-> Append(st.heap, o), slots |-> Append(st.slots, Len(st.heap) + 1)]
Rebind(st, s, o) == [heap |-> Append(st.heap, o), slots |-> [st.slots EXCEPT ![s] = Len(st.heap) + 1]]

\* orthogonalized/rounded: ranks unspecified here (see C12), entries up to round-off
DivRk(r) == [r EXCEPT !.rk = << >>, !.sz = -1, !.ex = FALSE]

\* ---- results of the operations on objects (not on the heap) ---------------
FromPool(st, p) ==
  [t |-> "x", k |-> PoolVal[p].k, sh |-> PoolVal[p].sh, v |-> PoolVal[p].v, sz |-> PoolVal[p].sz,
   rk |-> PoolVal[p].rk, n |-> PoolVal[p].n, orig |-> {Len(st.heap) + 1}, refs |-> {},
   l |-> 0, r |-> 0, tr |-> FALSE, ver |-> 0, ex |-> TRUE]
\* exact quotient v * num / den
ScaledV(o, num, den) == [o EXCEPT !.v = DivV(ScaleV(num, o.v), den)]
Merge(x, y) == [orig |-> x.orig \union y.orig, refs |-> x.refs \union y.refs, ex |-> x.ex /\ y.ex]
AddO(x, y, sgn) ==
  LET m == Merge(x, y)
      v == IF sgn = 1 THEN AddV(x.v, y.v) ELSE SubV(x.v, y.v)
  IN  IF x.t = "sk" THEN [x EXCEPT !.v = v, !.orig = m.orig, !.refs = m.refs, !.ex = m.ex]
      ELSE [x EXCEPT !.v = v, !.k = "sum", !.n = x.n + y.n,
                     !.sz = IF x.sz < 0 \/ y.sz < 0 THEN -1 ELSE x.sz + y.sz,
                     !.rk = << >>, !.orig = m.orig, !.refs = m.refs, !.ex = m.ex]
TransO(x) ==
  [x EXCEPT !.sh = Rev(x.sh), !.v = TransposeV(x.sh, x.v), !.rk = IF x.k = "cp" THEN x.rk ELSE Rev(x.rk),
            !.tr = IF x.t = "sk" THEN ~x.tr ELSE FALSE]
DenseO(x) == [x EXCEPT !.k = "dense", !.sz = Numel(x.sh), !.rk = << >>, !.n = 1]
SparseO(x) == [x EXCEPT !.k = "sparse", !.sz = Numel(x.sh) * (Len(x.sh) + 1), !.rk = << >>]
SplitO(x, n) == [x EXCEPT !.k = "sum", !.n = n]
TTSize(sh, rk) == LET r == <<1>> \o rk \o <<1>>
                  IN  Sum(Len(sh), LAMBDA m : r[m] * sh[m] * r[m + 1])
TTAddO(x, y) ==
  LET m == Merge(x, y)
      known == x.rk # << >> /\ y.rk # << >>
      rk == IF known THEN [j \in 1..Len(x.rk) |-> x.rk[j] + y.rk[j]] ELSE << >>
  IN  [x EXCEPT !.v = AddV(x.v, y.v), !.rk = rk, !.sz = IF known THEN TTSize(x.sh, rk) ELSE -1,
                !.orig = m.orig, !.refs = m.refs, !.ex = m.ex]
SketchO(x, l, r) ==
  [x EXCEPT !.t = "sk", !.k = "sk", !.l = l, !.r = r, !.tr = FALSE, !.n = 1, !.rk = << >>, !.sz = -1]

\* weights cs[i] applied to the summands: only the denotation of the summands
\* taken separately determines the result, so it is defined for sums whose
\* summands are recorded in parts
PartsSum(parts, cs, n0) ==
  FoldLeft(LAMBDA acc, i : AddV(acc, ScaleV(cs[i], parts[i])), [q \in 1..n0 |-> 0], Iota(Len(cs)))

\* ---- guards ----------------------------------------------------------------
SameShape(st, e) == Obj(st, e.a).sh = Obj(st, e.b).sh
DrmFits(o, e) == /\ e.l \in 1..Len(DrmVal) /\ e.r \in 1..Len(DrmVal)
                 /\ DrmVal[e.l].side = "l" /\ DrmVal[e.r].side = "r"
                 /\ DrmVal[e.l].sh = o.sh /\ DrmVal[e.r].sh = o.sh
                 /\ LET lr == DrmVal[e.l].rank  rr == DrmVal[e.r].rank
                    IN  (\A m \in 1..Len(lr) : lr[m] > rr[m]) \/ (\A m \in 1..Len(lr) : lr[m] < rr[m])
\* computations whose result is not tracked; they must change nothing and, on
\* unchanged arguments, give the same result every time
\* ranks a tensor train can have
FitRank(sh, r) == \A m \in 1..Len(r) : /\ r[m] <= (IF m = 1 THEN 1 ELSE r[m - 1]) * sh[m]
                                       /\ r[m] <= (IF m = Len(r) THEN 1 ELSE r[m + 1]) * sh[m + 1]
DCalls == {"oskd", "hmtd", "sskd"}
CallOk(o, fn) ==
  CASE fn \in DCalls -> o.t = "x"
    [] fn \in {"hmt", "orthogonal", "stream", "ttsvd", "gmres"} -> o.t = "x"
    [] fn \in {"gauss"}                -> o.t = "x" /\ o.k \in {"sparse", "dense"}
    [] fn \in {"svdvals", "roundr", "precond", "mpo"} -> o.t = "x" /\ o.k = "tt"
    [] fn \in {"left", "right", "totrain", "skdot"} -> o.t = "sk"
    [] fn = "rsum"                     -> o.t = "x" /\ o.k = "sum" /\ o.n >= 1
    [] OTHER -> FALSE
Small(x) == MaxAbs(x.v) < 100000
Ok(st, e) ==
  CASE e.op = "make"   -> e.p \in 1..Len(PoolVal)
    [] e.op = "alias"  -> Valid(st, e.a)
    [] e.op = "rmul"   -> Valid(st, e.a) /\ Small(Obj(st, e.a)) /\ Divisible(ScaleV(e.c, Obj(st, e.a).v), e.d)
    [] e.op = "mul"    -> Valid(st, e.a) /\ Small(Obj(st, e.a)) /\ Divisible(ScaleV(e.c, Obj(st, e.a).v), e.d)
    [] e.op = "imul"   -> Valid(st, e.a) /\ Small(Obj(st, e.a)) /\ Divisible(ScaleV(e.c, Obj(st, e.a).v), e.d)
    [] e.op = "div"    -> Valid(st, e.a) /\ Divisible(Obj(st, e.a).v, e.c)
    [] e.op = "neg"    -> Valid(st, e.a)
    [] e.op \in {"add", "sub", "iadd", "isub"} ->
         /\ Valid(st, e.a) /\ Valid(st, e.b) /\ IsX(st, e.b) /\ SameShape(st, e)
         /\ Small(Obj(st, e.a)) /\ Small(Obj(st, e.b))
         \* a sum cannot be made to contain itself
         /\ ~(e.op = "iadd" /\ Obj(st, e.a).k = "sum" /\ st.slots[e.a] \in Obj(st, e.b).refs)
    [] e.op = "nest"   -> Valid(st, e.a) /\ Valid(st, e.b) /\ IsX(st, e.a) /\ IsX(st, e.b) /\ SameShape(st, e)
    [] e.op = "empty"  -> Valid(st, e.a) /\ IsX(st, e.a)
    [] e.op = "wsum"   -> /\ Len(e.as) = Len(e.cs) /\ Len(e.as) >= 1
                          /\ \A i \in 1..Len(e.as) : Valid(st, e.as[i]) /\ IsX(st, e.as[i]) /\ Small(Obj(st, e.as[i]))
                                                     /\ Obj(st, e.as[i]).sh = Obj(st, e.as[1]).sh
    [] e.op = "T"      -> Valid(st, e.a)
    [] e.op = "dense"  -> Valid(st, e.a) /\ IsX(st, e.a)
    [] e.op = "sparse" -> Valid(st, e.a) /\ Obj(st, e.a).k = "dense"
    [] e.op = "split"  -> Valid(st, e.a) /\ Obj(st, e.a).k = "sparse" /\ e.n >= 1
    [] e.op = "ttadd"  -> /\ Valid(st, e.a) /\ Valid(st, e.b) /\ SameShape(st, e)
                          /\ Obj(st, e.a).k = "tt" /\ Obj(st, e.b).k = "tt"
                          /\ Small(Obj(st, e.a)) /\ Small(Obj(st, e.b))
    [] e.op \in {"orth", "round"} -> Valid(st, e.a) /\ Obj(st, e.a).k = "tt"
    [] e.op = "sketch" -> Valid(st, e.a) /\ IsX(st, e.a) /\ DrmFits(Obj(st, e.a), e)
    [] e.op = "poke"   -> /\ Valid(st, e.a) /\ Obj(st, e.a).k \in {"dense", "sparse", "tt", "cp"}
                          /\ Obj(st, e.a).orig = {st.slots[e.a]} /\ Small(Obj(st, e.a))
                          /\ e.m \in 1..Len(Obj(st, e.a).sh)
    [] e.op \in {"dot", "error"} -> Valid(st, e.a) /\ Valid(st, e.b) /\ IsX(st, e.a) /\ IsX(st, e.b) /\ SameShape(st, e)
    [] e.op = "norm"   -> Valid(st, e.a) /\ IsX(st, e.a)
    [] e.op = "zero"   -> Valid(st, e.a) /\ IsX(st, e.a) /\ Len(e.rk) = Len(Obj(st, e.a).sh) - 1 /\ \A i \in 1..Len(e.rk) : e.rk[i] >= 1
    [] e.op = "partial" -> Valid(st, e.a) /\ Obj(st, e.a).k = "tt"
    [] e.op = "wsumbad" -> Len(e.as) # Len(e.cs) /\ Len(e.as) >= 1 /\ \A i \in 1..Len(e.as) : Valid(st, e.as[i]) /\ IsX(st, e.as[i])
                              /\ Obj(st, e.as[i]).sh = Obj(st, e.as[1]).sh
    [] e.op = "call"   -> /\ Valid(st, e.a) /\ CallOk(Obj(st, e.a), e.fn)
                          /\ e.fn \in DCalls => /\ DrmFits(Obj(st, e.a), e)
                                                /\ e.fn = "hmtd" => FitRank(Obj(st, e.a).sh, DrmVal[e.r].rank)
                                                /\ e.fn = "oskd" => FitRank(Obj(st, e.a).sh, DrmVal[e.l].rank)
                                                /\ e.fn = "oskd" => \A m \in 1..Len(DrmVal[e.l].rank) : DrmVal[e.l].rank[m] < DrmVal[e.r].rank[m]
    [] e.op = "gather" -> /\ Valid(st, e.a) /\ Obj(st, e.a).k \in {"sparse", "tt", "cp"}
                          /\ \A i \in 1..Len(e.ix) : InRange(Obj(st, e.a).sh, e.ix[i])
    [] OTHER -> FALSE
Observers == {"dot", "error", "norm", "gather", "partial", "call", "wsumbad"}
\* requests that must be refused with an exception, and change nothing
Refused == {"wsumbad"}

\* ---- transitions -----------------------------------------------------------
Kill(st, P(_)) == [st EXCEPT !.heap = [o \in 1..Len(st.heap) |->
                     IF st.heap[o].t # "dead" /\ P(o) THEN [st.heap[o] EXCEPT !.t = "dead"] ELSE st.heap[o]]]
\* in-place addition to the lazy sum in slot a; whoever holds it by reference
\* is no longer determined
IAdd(st, e) ==
  LET oid == st.slots[e.a]
      x == st.heap[oid]  y == Obj(st, e.b)
      new == [AddO(x, y, 1) EXCEPT !.ver = x.ver + 1]
      \* other sums holding this one by reference (explicit nesting)
      st1 == Kill(st, LAMBDA o : o # oid /\ oid \in st.heap[o].refs)
  IN  [st1 EXCEPT !.heap = [st1.heap EXCEPT ![oid] = new]]
\* the tensor's own data (one core, all entries) is multiplied by c in place
Poke(st, e) ==
  LET oid == st.slots[e.a]
      new == [st.heap[oid] EXCEPT !.v = ScaleV(e.c, st.heap[oid].v), !.ver = @ + 1]
      st1 == Kill(st, LAMBDA o : o # oid /\ st.heap[o].t = "x"
                                 /\ (st.heap[o].orig \intersect st.heap[oid].orig) # {})
  IN  [st1 EXCEPT !.heap = [st1.heap EXCEPT ![oid] = new]]

Do(st, e) ==
  CASE e.op = "make"   -> NewSlot(st, FromPool(st, e.p))
    [] e.op = "alias"  -> [st EXCEPT !.slots = Append(@, st.slots[e.a])]
    [] e.op \in {"mul", "rmul"} -> NewSlot(st, ScaledV(Obj(st, e.a), e.c, e.d))
    [] e.op = "imul"   -> Rebind(st, e.a, ScaledV(Obj(st, e.a), e.c, e.d))
    \* e.n: multiplied by n first and divided by c * n
    [] e.op = "div"    -> NewSlot(st, [ScaledV(Obj(st, e.a), 1, e.c) EXCEPT !.ex = @ /\ e.n = 1])
    [] e.op = "neg"    -> NewSlot(st, ScaledV(Obj(st, e.a), -1, 1))
    [] e.op = "add"    -> NewSlot(st, AddO(Obj(st, e.a), Obj(st, e.b), 1))
    [] e.op = "sub"    -> NewSlot(st, AddO(Obj(st, e.a), Obj(st, e.b), -1))
    [] e.op = "isub"   -> Rebind(st, e.a, AddO(Obj(st, e.a), Obj(st, e.b), -1))
    [] e.op = "iadd"   -> IF Obj(st, e.a).k = "sum" THEN IAdd(st, e)
                          ELSE Rebind(st, e.a, AddO(Obj(st, e.a), Obj(st, e.b), 1))
    [] e.op = "nest"   ->
         LET x == Obj(st, e.a)  y == Obj(st, e.b)  z == AddO(x, y, 1)
         IN  NewSlot(st, [z EXCEPT !.n = 2, !.refs = @ \union {st.slots[e.a], st.slots[e.b]}])
    [] e.op = "empty"  -> LET x == Obj(st, e.a)
                          IN  NewSlot(st, [x EXCEPT !.k = "sum", !.v = Zeros(x.sh), !.sz = 0, !.rk = << >>,
                                                    !.n = 0, !.orig = {}, !.refs = {}])
    [] e.op = "wsum"   ->
         LET os == [i \in 1..Len(e.as) |-> Obj(st, e.as[i])]
             x == os[1]
         IN  NewSlot(st, [x EXCEPT !.k = "sum", !.n = Len(e.as), !.rk = << >>,
                !.sz = IF \E i \in 1..Len(os) : os[i].sz < 0 THEN -1
                       ELSE Sum(Len(os), LAMBDA i : os[i].sz),
                !.v = PartsSum([i \in 1..Len(os) |-> os[i].v], e.cs, Len(x.v)),
                !.orig = UNION {os[i].orig : i \in 1..Len(os)},
                !.refs = UNION {os[i].refs : i \in 1..Len(os)},
                !.ex = \A i \in 1..Len(os) : os[i].ex])
    [] e.op = "zero"   -> LET x == Obj(st, e.a)
                          IN  NewSlot(st, [x EXCEPT !.k = "tt", !.v = Zeros(x.sh), !.rk = e.rk, !.sz = TTSize(x.sh, e.rk),
                                                    !.n = 1, !.orig = {Len(st.heap) + 1}, !.refs = {}])
    [] e.op = "T"      -> NewSlot(st, TransO(Obj(st, e.a)))
    [] e.op = "dense"  -> NewSlot(st, DenseO(Obj(st, e.a)))
    [] e.op = "sparse" -> NewSlot(st, SparseO(Obj(st, e.a)))
    [] e.op = "split"  -> NewSlot(st, SplitO(Obj(st, e.a), e.n))
    [] e.op = "ttadd"  -> NewSlot(st, TTAddO(Obj(st, e.a), Obj(st, e.b)))
    [] e.op \in {"orth", "round"} -> NewSlot(st, DivRk(Obj(st, e.a)))
    [] e.op = "sketch" -> NewSlot(st, SketchO(Obj(st, e.a), e.l, e.r))
    [] e.op = "poke"   -> Poke(st, e)
    [] OTHER -> st

\* ---- what can be observed of an object --------------------------------------
SkComponents(o) ==
  LET sh0 == IF o.tr THEN Rev(o.sh) ELSE o.sh
      v0  == IF o.tr THEN TransposeV(o.sh, o.v) ELSE o.v
      c   == Comp(sh0, v0, DrmVal[o.l].tab, DrmVal[o.r].tab)
  IN  IF o.tr THEN SkTranspose(c, sh0, DrmVal[o.l].rank, DrmVal[o.r].rank) ELSE c
SkLeftRank(o)  == IF o.tr THEN Rev(DrmVal[o.r].rank) ELSE DrmVal[o.l].rank
SkRightRank(o) == IF o.tr THEN Rev(DrmVal[o.l].rank) ELSE DrmVal[o.r].rank

\* ---- design-level properties of the machine -----------------------------------
TypeOK(st) ==
  /\ \A s \in Slots(st) : st.slots[s] \in 1..Len(st.heap)
  /\ \A o \in 1..Len(st.heap) : st.heap[o].t \in {"x", "sk", "dead"}
                                /\ Len(st.heap[o].v) = Numel(st.heap[o].sh)
\* frame: an operation changes at most the slot it names (and its aliases)
Frame(st, e, st2) ==
  \A s \in Slots(st) : Live(st2, s) /\ Live(st, s) =>
     \/ Obj(st2, s) = Obj(st, s)
     \/ e.op \in {"iadd", "isub", "imul", "poke"} /\ (s = e.a \/ st.slots[s] = st.slots[e.a])
=============================================================================
