-------------------------------- MODULE Memo --------------------------------
(* Random results are a function of their key.  A key is what is asked for    *)
(* (kind, shape, ranks, options, the tensor that is sketched) and the seed.   *)
(* Several processes and threads ask, in any order, between actions that      *)
(* change the state of numpy's global generator, and with the arguments in    *)
(* any representation.  The machine keeps the table of all answers, so that   *)
(* the same key has to get the same answer for ever.  Objects made without    *)
(* seed have an answer of their own, the same whenever and wherever it is     *)
(* asked for.  Numbers are integers, in millionths.                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Rev(s) == Reverse(s)
\* ---- keys -----------------------------------------------------------------
Drms == {"drm-tt", "drm-dg", "drm-sg", "drm-ss"}
Sketches == {"stream", "orth", "hmt"}
Kinds == {"normal", "tt", "cp", "tucker", "sparse", "decay"} \cup Drms \cup Sketches
NoSeed == "none"
Seeded(k) == k.seed # NoSeed
\* results of continuous distributions: two of them never agree
RowModes(k, m) == IF k.opt = "l" THEN SubSeq(k.sh, 1, m) ELSE SubSeq(k.sh, m + 1, Len(k.sh))
SignBits(k) == FoldLeft(LAMBDA acc, m : acc + Prod(RowModes(k, m)) * k.r2[m], 0, [m \in 1..Len(k.r) |-> m])
Continuous(k) == IF k.kind = "drm-ss" THEN SignBits(k) >= 45 ELSE k.kind # "drm-ss" /\ k.opt # "ss" /\ Prod(k.sh) >= 4 /\ (k.kind = "sparse" => k.r[1] > 0)
AllLess(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] < y[i]
\* ranks that need not be trimmed
Admissible(sh, r) == \A i \in 1..Len(r) : r[i] <= (IF i = 1 THEN 1 ELSE r[i - 1]) * sh[i] /\ r[i] <= sh[i + 1] * (IF i = Len(r) THEN 1 ELSE r[i + 1])
LegalKey(k) ==
  /\ k.kind \in Kinds
  /\ k.giv \in {"", "l0", "r0", "l1", "r1"} /\ (k.giv # "" => k.kind \in {"stream", "orth"})       \* the matrix of one side is given (one of two), the other is not
  /\ k.kind \in {"stream"} => AllLess(k.r, k.r2) \/ AllLess(k.r2, k.r)
  /\ k.kind \in {"orth"} => AllLess(k.r, k.r2)
  /\ k.kind = "orth" /\ k.giv \in {"l0", "l1"} => Admissible(k.sh, k.r)
  /\ k.kind = "sparse" => k.r[1] <= Prod(k.sh)
  /\ k.kind = "drm-ss" => Len(k.r2) = Len(k.r) /\ \A i \in 1..Len(k.r) : k.r2[i] <= k.r[i]
  /\ k.kind \in Drms \cup Sketches => Len(k.r) = Len(k.sh) - 1
\* ---- answers: sequences of rows of numbers -------------------------------------
Close(a, b) == Abs(a - b) <= 3 + Abs(a) \div 200000
SameRow(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close(x[i], y[i])
SameAns(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameRow(x[i], y[i])
Consistent(T, k, v) == \A t \in T : t.k = k => SameAns(t.v, v)
\* another seed, all else equal
Fresh(T, k, v) == \A t \in T : (Continuous(k) /\ t.k # k /\ [t.k EXCEPT !.seed = k.seed] = k) => ~SameAns(t.v, v)
\* two matrices made for the two sides of one sketch have (nearly) no number in common
Nums(v) == UNION {{v[i][j] : j \in 1..Len(v[i])} : i \in 1..Len(v)}
Apart(x, y) == Cardinality(Nums(x) \cap Nums(y)) <= 2
\* ---- slices of a matrix given by its columns for each mode -----------------------
\* v[m]: the rows of mode m one after the other, each of r[m] numbers
ColRange(row, r, a, b) == [q \in 1..((Len(row) \div r) * (b - a)) |-> row[((q - 1) \div (b - a)) * r + a + ((q - 1) % (b - a)) + 1]]
SliceOf(v, r, lo, hi) == [m \in 1..Len(v) |-> IF hi[m] = lo[m] THEN << >> ELSE ColRange(v[m], r[m], lo[m], hi[m])]
=============================================================================
