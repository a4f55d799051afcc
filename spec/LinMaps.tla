------------------------------- MODULE LinMaps -------------------------------
(* Linear maps in TT format (C16): MPOs, sums of maps and mode               *)
(* preconditioners, applied to trains and lazy sums of trains.               *)
(* Objects: tensors [ty, sh, v, n] (ty "tt" or "sum", n summands) and maps    *)
(* [ty, ins, outs, M, n]: M[p][q] with p the input, q the output multi-index; *)
(* a preconditioner is [ty |-> "pc", sh, mode, A, B, c] with A B = c 1.       *)
EXTENDS Tensors

Bound == 200000
Small(v) == MaxAbs(v) < Bound
ApplyM(M, v) == TLCEval([q \in 1..Len(M[1]) |-> Sum(Len(v), LAMBDA p : v[p] * M[p][q])])
EyeM(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
AddM(A, B) == TLCEval([i \in 1..Len(A) |-> AddV(A[i], B[i])])
ScaleM(c, A) == TLCEval([i \in 1..Len(A) |-> ScaleV(c, A[i])])
SmallM(A) == \A i \in 1..Len(A) : Small(A[i])
\* the matrix of multiplying mode m (from 1) by the transpose of A, as used by ModeMul
ModeM(sh, m, A) ==
  TLCEval([p \in 1..Numel(sh) |-> [q \in 1..Numel(sh) |->
     IF \A j \in 1..Len(sh) : j = m \/ Digit(sh, p - 1, j) = Digit(sh, q - 1, j)
     THEN A[Digit(sh, q - 1, m) + 1][Digit(sh, p - 1, m) + 1] ELSE 0]])
Forward(o, v) == ModeMul(o.sh, v, o.mode, Transp(o.A))
BackTimesC(o, v) == ModeMul(o.sh, v, o.mode, Transp(o.B))
\* the map a map object denotes (a preconditioner is called backwards)
MapM(o) == IF o.ty = "pc" THEN ScaleM(o.c, ModeM(o.sh, o.mode, o.B)) ELSE o.M      \* c = 1 or -1
MapIns(o) == IF o.ty = "pc" THEN o.sh ELSE o.ins
MapOuts(o) == IF o.ty = "pc" THEN o.sh ELSE o.outs
Zip2(s, t) == TLCEval([k \in 1..(2 * Len(s)) |-> IF k % 2 = 1 THEN s[(k + 1) \div 2] ELSE t[k \div 2]])
\* the map as an array over (in1, out1, in2, out2, ..)
MapArray(o) ==
  LET ish == Zip2(o.ins, o.outs)  d == Len(o.ins)
  IN  TLCEval([k \in 1..Numel(ish) |->
        LET ix == Unflatten(ish, k - 1)
        IN  o.M[Flatten(o.ins, [m \in 1..d |-> ix[2 * m - 1]]) + 1][Flatten(o.outs, [m \in 1..d |-> ix[2 * m]]) + 1]])
IsT(o) == o.ty \in {"tt", "tsum"}
IsMap(o) == ~IsT(o)
Mpo(c) == [ty |-> "mpo", ins |-> MpoIn(c), outs |-> MpoOut(c), M |-> MpoMatrix(c), n |-> 1]
Pc(p) == [ty |-> "pc", sh |-> p.sh, mode |-> p.mode, A |-> p.A, B |-> p.B, c |-> p.c]

\* g: the pool [tts, mpos, pcs]; s: sequence of objects.  An event produces an object or observes one
Ok(s, i) == i \in 1..Len(s)
Legal(g, s, e) ==
  CASE e.op = "tt"   -> e.p \in 1..Len(g.tts)
    [] e.op = "mpo"  -> e.p \in 1..Len(g.mpos)
    [] e.op = "pc"   -> e.p \in 1..Len(g.pcs)
    [] e.op = "eye"  -> Len(e.sh) >= 1 /\ \A m \in 1..Len(e.sh) : e.sh[m] >= 1
    [] e.op = "T"    -> Ok(s, e.i) /\ s[e.i].ty = "mpo"
    [] e.op = "scale" -> Ok(s, e.i) /\ s[e.i].ty \in {"mpo", "tt", "tsum"} /\ e.how \in {"mul", "rmul", "neg", "div"}
    [] e.op = "msum" -> Len(e.is) >= 1 /\ \A k \in 1..Len(e.is) : Ok(s, e.is[k]) /\ s[e.is[k]].ty \in {"mpo", "pc"}
                          /\ MapIns(s[e.is[k]]) = MapIns(s[e.is[1]]) /\ MapOuts(s[e.is[k]]) = MapOuts(s[e.is[1]])
                          /\ (s[e.is[k]].ty = "pc" => s[e.is[k]].c \in {1, -1})
    [] e.op = "tsum" -> Len(e.is) >= 1 /\ \A k \in 1..Len(e.is) : Ok(s, e.is[k]) /\ s[e.is[k]].ty = "tt" /\ s[e.is[k]].sh = s[e.is[1]].sh
    [] e.op = "app"  -> /\ Ok(s, e.i) /\ Ok(s, e.j) /\ IsMap(s[e.i]) /\ IsT(s[e.j]) /\ MapIns(s[e.i]) = s[e.j].sh
                        /\ (s[e.i].ty # "msum" => s[e.j].ty = "tt")
                        /\ (s[e.i].ty = "pc" => Divisible(BackTimesC(s[e.i], s[e.j].v), s[e.i].c))
    [] e.op \in {"fwd", "bwd"} -> /\ Ok(s, e.i) /\ Ok(s, e.j) /\ s[e.i].ty = "pc" /\ s[e.j].ty = "tt" /\ s[e.i].sh = s[e.j].sh
                                  /\ (e.op = "bwd" => Divisible(BackTimesC(s[e.i], s[e.j].v), s[e.i].c))
    [] e.op = "add"  -> Ok(s, e.i) /\ Ok(s, e.j) /\ s[e.i].ty = "tt" /\ s[e.j].ty = "tt" /\ s[e.i].sh = s[e.j].sh
    [] OTHER -> FALSE
Make(g, s, e) ==
  CASE e.op = "tt"   -> [ty |-> "tt", sh |-> g.tts[e.p].sh, v |-> g.tts[e.p].v, n |-> 1]
    [] e.op = "mpo"  -> g.mpos[e.p]
    [] e.op = "pc"   -> g.pcs[e.p]
    [] e.op = "eye"  -> [ty |-> "mpo", ins |-> e.sh, outs |-> e.sh, M |-> EyeM(Numel(e.sh)), n |-> 1]
    [] e.op = "T"    -> [s[e.i] EXCEPT !.ins = s[e.i].outs, !.outs = s[e.i].ins, !.M = Transp(s[e.i].M)]
    [] e.op = "scale" -> LET o == s[e.i]
                             f(x) == IF e.how = "div" THEN DivV(x, e.c) ELSE ScaleV(IF e.how = "neg" THEN -1 ELSE e.c, x)
                         IN  IF IsT(o) THEN [o EXCEPT !.v = f(@)] ELSE [o EXCEPT !.M = TLCEval([p \in 1..Len(@) |-> f(@[p])])]
    [] e.op = "msum" -> [ty |-> "msum", ins |-> MapIns(s[e.is[1]]), outs |-> MapOuts(s[e.is[1]]), n |-> Len(e.is),
                         M |-> FoldLeft(LAMBDA acc, k : AddM(acc, MapM(s[e.is[k]])), MapM(s[e.is[1]]), Drop(Iota(Len(e.is)), 1))]
    [] e.op = "tsum" -> [ty |-> "tsum", sh |-> s[e.is[1]].sh, n |-> Len(e.is), v |-> FoldLeft(LAMBDA acc, k : AddV(acc, s[e.is[k]].v), s[e.is[1]].v, Drop(Iota(Len(e.is)), 1))]
    [] e.op \in {"app", "fwd", "bwd"} ->
         LET m == s[e.i]  t == s[e.j] IN
         [ty |-> IF m.ty = "msum" THEN "tsum" ELSE "tt", sh |-> MapOuts(m), n |-> (IF m.ty = "msum" THEN m.n ELSE 1) * t.n,
          v |-> IF e.op = "fwd" THEN Forward(m, t.v)
                ELSE IF m.ty = "pc" THEN DivV(BackTimesC(m, t.v), m.c) ELSE ApplyM(m.M, t.v)]
    [] e.op = "add"  -> [s[e.i] EXCEPT !.v = AddV(@, s[e.j].v)]
\* division is exact, and numbers stay small
Exactly(s, e) == e.op = "scale" /\ e.how = "div" =>
   LET o == s[e.i] IN e.c # 0 /\ IF IsT(o) THEN Divisible(o.v, e.c) ELSE \A p \in 1..Len(o.M) : Divisible(o.M[p], e.c)
Fits(o) == IF IsT(o) THEN Small(o.v) ELSE o.ty = "pc" \/ SmallM(o.M)
=============================================================================
