------------------------------ MODULE GenMemo ------------------------------
EXTENDS Memo, Json, IOUtils, Randomization
File == JsonDeserialize(IOEnv.POOL_FILE)
Conf == File.conf            \* [shapes, seeds, tens (shape and kind of each), workers, depth]
VARIABLES hist, objs, done
vars == <<hist, objs, done>>
Pick(X) == RandomElement(X)
P(n) == Pick(1..100) <= n
Of(s) == s[Pick(1..Len(s))]
Ranks(n, hi) == [i \in 1..n |-> Pick(1..hi)]
Up(x) == [i \in 1..Len(x) |-> x[i] + Pick({1, 1, 2})]
More(x) == [i \in 1..Len(x) |-> x[i] + Pick({0, 1, 2, 7})]
Key0(kind, sh, seed) == [kind |-> kind, sh |-> sh, r |-> << >>, r2 |-> << >>, seed |-> seed, opt |-> "", ten |-> 0, giv |-> ""]
Big2(sh) == IF Len(sh) >= 2 THEN sh ELSE sh \o <<3>>
NewKey(x) ==
  LET kind == Pick(Kinds)
      sh0 == IF kind = "drm-ss" /\ P(60) THEN Conf.shapes[Len(Conf.shapes) - Pick(0..1)] ELSE Of(Conf.shapes)
      sh == IF kind \in {"normal", "sparse"} THEN sh0 ELSE Big2(sh0)
      d == Len(sh)
      k0 == Key0(kind, sh, Of(Conf.seeds))
      t == Pick(1..Len(Conf.tens))
      lo == Ranks(d - 1, 3)
      tl == Ranks(Len(Conf.tens[t].sh) - 1, 2)
      tu == Up(tl)
      flip == P(50)
      giv == IF P(35) THEN Pick(IF Admissible(Conf.tens[t].sh, tl) THEN {"l0", "r0", "l1", "r1"} ELSE {"r0", "r1"}) ELSE ""
  IN  CASE kind \in {"normal", "decay"} -> k0
        [] kind = "tt" -> [k0 EXCEPT !.r = lo, !.opt = Pick({"", "orth", "trim", "preserve"})]
        [] kind = "cp" -> [k0 EXCEPT !.r = <<Pick(1..3)>>]
        [] kind = "tucker" -> [k0 EXCEPT !.r = [i \in 1..d |-> Pick(1..(sh[i] + 1))]]
        [] kind = "sparse" -> [k0 EXCEPT !.r = <<Pick(0..Prod(sh))>>]
        [] kind \in {"drm-tt", "drm-dg", "drm-sg"} -> [k0 EXCEPT !.r = lo, !.opt = Pick({"l", "r"})]
        [] kind = "drm-ss" -> [k0 EXCEPT !.r = Up(lo), !.r2 = lo, !.opt = Pick({"l", "r"})]
        [] kind = "hmt" -> [k0 EXCEPT !.sh = Conf.tens[t].sh, !.ten = t, !.r = tl, !.opt = Of(Conf.tens[t].drms)]
        [] kind = "orth" -> [k0 EXCEPT !.sh = Conf.tens[t].sh, !.ten = t, !.r = tl, !.r2 = tu, !.opt = Of(Conf.tens[t].drms), !.giv = giv]
        [] OTHER -> [k0 EXCEPT !.sh = Conf.tens[t].sh, !.ten = t, !.r = IF flip THEN tl ELSE tu, !.r2 = IF flip THEN tu ELSE tl, !.opt = Of(Conf.tens[t].drms), !.giv = giv]
\* the seeds come in pairs of related ones
Partner(s) == LET i == CHOOSE i \in 1..Len(Conf.seeds) : Conf.seeds[i] = s IN Conf.seeds[IF i % 2 = 1 THEN i + 1 ELSE i - 1]
Asked == UNION {IF hist[i].op = "call" THEN {hist[i].ks[j] : j \in 1..Len(hist[i].ks)} ELSE {} : i \in 1..Len(hist)}
Ask(x) == IF Asked = {} \/ P(30) THEN NewKey(x) ELSE LET k == Pick(Asked) IN IF P(75) THEN k ELSE [k EXCEPT !.seed = IF P(50) THEN Partner(k.seed) ELSE Of(Conf.seeds)]
Draw(n) ==
  LET w == Pick(1..Conf.workers)
      c == Pick(1..100)
  IN  IF c <= 58 \/ (c > 75 /\ Len(objs) = 0 /\ c <= 90)
      THEN [op |-> "call", w |-> w, ks |-> [i \in 1..(IF P(20) THEN 4 ELSE 1) |-> Ask(i)], form |-> Pick(0..3)]
      ELSE IF c <= 68 THEN [op |-> "perturb", w |-> w, what |-> Pick({"seed", "draw", "none", "python", "threads"}), x |-> Pick(0..5)]
      ELSE IF c <= 75 THEN
        LET sh == Big2(Of(Conf.shapes))  lo == Ranks(Len(sh) - 1, 3)  kind == Pick(Drms)
        IN  [op |-> "new", w |-> w, kind |-> kind, sh |-> sh, r |-> IF kind = "drm-ss" THEN Up(lo) ELSE lo, r2 |-> IF kind = "drm-ss" THEN lo ELSE << >>, opt |-> Pick({"l", "r"})]
      ELSE IF c <= 90 THEN
        LET o == Pick(1..Len(objs))  r == objs[o].r
            lo == [i \in 1..Len(r) |-> Pick(0..(r[i] - 1))]  hi == [i \in 1..Len(r) |-> Pick((lo[i] + 1)..r[i])]
            how == Pick({"whole", "whole", "slice", "T"} \cup (IF objs[o].kind \in {"drm-dg", "drm-sg"} THEN {"grow"} ELSE {}))
        IN  [op |-> "use", o |-> o, how |-> how, lo |-> IF how = "slice" THEN lo ELSE << >>, hi |-> IF how = "slice" THEN hi ELSE IF how = "grow" THEN More(r) ELSE << >>]
      ELSE [op |-> "unseeded", w |-> w, k |-> [Ask(1) EXCEPT !.seed = NoSeed]]
Init == hist = << >> /\ objs = << >> /\ done = FALSE
Next == \/ Len(hist) < Conf.depth /\ ~done /\ UNCHANGED done
           /\ \E e \in {TLCEval(Draw(0))} : hist' = Append(hist, e) /\ objs' = IF e.op = "new" THEN Append(objs, e) ELSE objs
        \/ Len(hist) = Conf.depth /\ ~done /\ done' = PrintT(<<"SCRIPT", 1, ToJson([ev |-> hist])>>) /\ UNCHANGED <<hist, objs>>
Spec == Init /\ [][Next]_vars
Inv == \A k \in Asked : LegalKey(k)
=============================================================================
