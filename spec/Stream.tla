------------------------------- MODULE Stream -------------------------------
(* Streaming sketches with random matrices that can be grown or partitioned. *)
(* A group (a random matrix of full rank on each side) is given by tables    *)
(* L[m], R[m] as in SketchDef, at full ranks fl, fr.  A sketch is            *)
(*   [k, sh, v, lr, rr, tr]                                                  *)
(* the array v that has been sketched, the current ranks, and whether it is  *)
(* a transposed one (then sh, v, lr, rr describe the transposed sketch).     *)
(* Whatever the history, its components are the leading lr x rr blocks of    *)
(* the components at full rank of the array.                                 *)
(*   k = "s": updatable sketch; k = "c": bare components                      *)
EXTENDS SketchDef

\* group g: [sh, fl, fr, grow, tens] with tens[i] = [sh, v] the tensors at hand
Less(x, y) == \A m \in 1..Len(x) : x[m] < y[m]
Leq(x, y) == Len(x) = Len(y) /\ \A m \in 1..Len(x) : x[m] <= y[m]
Ordered(x, y) == Less(x, y) \/ Less(y, x)
Full(g, o) == IF o.tr THEN [l |-> Rev(g.fr), r |-> Rev(g.fl)] ELSE [l |-> g.fl, r |-> g.fr]
SmallV(v) == MaxAbs(v) < 20000
RankOk(g, tr, lr, rr) ==
  LET f == Full(g, [tr |-> tr])
  IN  /\ Leq(lr, f.l) /\ Leq(rr, f.r) /\ Ordered(lr, rr)
      /\ \A m \in 1..Len(lr) : lr[m] >= 1 /\ rr[m] >= 1
      /\ g.grow \/ (lr = f.l /\ rr = f.r)
\* cuts of a rank range: increasing vectors from 0 to the rank
Cuts(cs, rank) == /\ Len(cs) >= 2 /\ cs[1] = [m \in 1..Len(rank) |-> 0] /\ cs[Len(cs)] = rank
                  /\ \A i \in 1..(Len(cs) - 1) : Leq(cs[i], cs[i + 1])

Valid(s, a) == a \in 1..Len(s)
Ok(g, s, e) ==
  CASE e.op = "new"   -> e.p \in 1..Len(g.tens) /\ g.tens[e.p].sh = g.sh /\ RankOk(g, FALSE, e.lr, e.rr)
    [] e.op = "block" -> /\ e.p \in 1..Len(g.tens) /\ g.tens[e.p].sh = g.sh
                         /\ Cuts(e.lc, g.fl) /\ Cuts(e.rc, g.fr)
    [] e.op = "reblock" -> Valid(s, e.a) /\ ~s[e.a].tr /\ Cuts(e.lc, g.fl) /\ Cuts(e.rc, g.fr)
    [] e.op = "upd"   -> /\ Valid(s, e.a) /\ s[e.a].k = "s" /\ e.p \in 1..Len(g.tens) /\ SmallV(s[e.a].v)
                         /\ g.tens[e.p].sh = s[e.a].sh /\ e.c \in {1, -1}
    [] e.op = "scale" -> Valid(s, e.a) /\ SmallV(s[e.a].v)
    [] e.op = "div"   -> Valid(s, e.a) /\ Divisible(s[e.a].v, e.c)
    [] e.op = "T"     -> Valid(s, e.a)
    [] e.op = "grow"  -> /\ Valid(s, e.a) /\ s[e.a].k = "s" /\ g.grow
                         /\ RankOk(g, s[e.a].tr, e.lr, e.rr) /\ Leq(s[e.a].lr, e.lr) /\ Leq(s[e.a].rr, e.rr)
    [] e.op = "cadd"  -> /\ Valid(s, e.a) /\ Valid(s, e.b) /\ s[e.a].k = "c" /\ s[e.b].k = "c"
                         /\ SmallV(s[e.a].v) /\ SmallV(s[e.b].v) /\ e.c \in {1, -1}
                         /\ [s[e.a] EXCEPT !.v = 0] = [s[e.b] EXCEPT !.v = 0]
    \* assembly into a train; inner products, errors and norms of sketches refer to a tensor
    [] e.op = "asm"   -> Valid(s, e.a) /\ e.dir \in {"auto", "left", "right"} /\ Abs(e.k) <= 200 /\ e.train \in BOOLEAN /\ e.p \in 1..Len(g.tens) /\ g.tens[e.p].sh = s[e.a].sh
    \* the data of a tensor multiplied in place; sketches made before do not change
    [] e.op = "poke"  -> e.p \in 1..Len(g.tens) /\ e.c \in {-1, 2, 3} /\ SmallV(ScaleV(4, g.tens[e.p].v))
    [] e.op = "slice" -> LET f == IF e.side = "l" THEN g.fl ELSE g.fr
                             in(lo, hi) == Leq([m \in 1..Len(f) |-> 0], lo) /\ Leq(lo, hi) /\ Leq(hi, f)
         \* via: slices taken before; the bounds always count from the whole matrix
         IN  in(e.lo, e.hi) /\ \A i \in 1..Len(e.via) : in(e.via[i][1], e.via[i][2])
    [] OTHER -> FALSE

TransSl(o) == [o EXCEPT !.sh = Rev(o.sh), !.v = TransposeV(o.sh, o.v), !.lr = Rev(o.rr), !.rr = Rev(o.lr), !.tr = ~o.tr]
Do(g, s, e) ==
  CASE e.op = "new"   -> Append(s, [k |-> "s", sh |-> g.sh, v |-> g.tens[e.p].v, lr |-> e.lr, rr |-> e.rr, tr |-> FALSE])
    [] e.op = "block" -> Append(s, [k |-> "c", sh |-> g.sh, v |-> g.tens[e.p].v, lr |-> g.fl, rr |-> g.fr, tr |-> FALSE])
    [] e.op = "reblock" -> Append(s, [k |-> "c", sh |-> g.sh, v |-> s[e.a].v, lr |-> g.fl, rr |-> g.fr, tr |-> FALSE])
    [] e.op = "upd"   -> Append(s, [s[e.a] EXCEPT !.v = AddV(@, ScaleV(e.c, g.tens[e.p].v))])
    [] e.op = "scale" -> Append(s, [s[e.a] EXCEPT !.v = ScaleV(e.c, @)])
    [] e.op = "div"   -> Append(s, [s[e.a] EXCEPT !.v = DivV(@, e.c)])
    [] e.op = "T"     -> Append(s, TransSl(s[e.a]))
    [] e.op = "grow"  -> Append(s, [s[e.a] EXCEPT !.lr = e.lr, !.rr = e.rr])
    [] e.op = "cadd"  -> Append(s, [s[e.a] EXCEPT !.v = AddV(@, ScaleV(e.c, s[e.b].v))])
    [] OTHER -> s

\* factors of the tensors after e, and the group with tensors so scaled
Factors(tf, e) == IF e.op = "poke" THEN [tf EXCEPT ![e.p] = @ * e.c] ELSE tf
Scaled(G, tf) == [G EXCEPT !.tens = [j \in 1..Len(@) |-> IF tf[j] = 1 THEN @[j] ELSE [@[j] EXCEPT !.v = ScaleV(tf[j], @)]]]

\* side whose ranks the assembled train has
AsmSide(o, dir) == IF dir = "auto" THEN IF Less(o.rr, o.lr) THEN "left" ELSE "right" ELSE dir
AsmRank(o, dir) == IF AsmSide(o, dir) = "left" THEN o.rr ELSE o.lr

\* leading block of the components at full rank
Block3(a, b, c, fb, fc, x) ==      \* leading a x b x c of ? x fb x fc
  [q \in 1..(a * b * c) |-> x[((q - 1) \div (b * c)) * fb * fc + (((q - 1) \div c) % b) * fc + ((q - 1) % c) + 1]]
Leading(comp, sh, fl, fr, lr, rr) ==
  LET d == Len(sh)
      pl(r, m) == IF m = 1 THEN 1 ELSE r[m - 1]
      pr(r, m) == IF m = d THEN 1 ELSE r[m]
  IN  [psi |-> [m \in 1..d |-> Block3(pl(lr, m), sh[m], pr(rr, m), sh[m], pr(fr, m), comp.psi[m])],
       om  |-> [m \in 1..(d - 1) |-> Block3(lr[m], 1, rr[m], 1, fr[m], comp.om[m])]]
\* the components of sketch o; MM and one as in SketchDef, V(x) an entry as number
SlotComp(MM(_, _), one, Num(_), g, tab, o) ==
  LET base == IF o.tr THEN TransSl(o) ELSE o
      fullc == Components(MM, base.sh, [q \in 1..Len(base.v) |-> Num(base.v[q])], tab.L, tab.R, one)
      c == Leading(fullc, base.sh, g.fl, g.fr, base.lr, base.rr)
  IN  IF o.tr THEN SkTranspose(c, base.sh, base.lr, base.rr) ELSE c
=============================================================================
