-------------------------------- MODULE Fill --------------------------------
(* The parallel normal generator.  A call for n entries splits the array into *)
(* w segments; every segment is a task that a thread of a pool executes:      *)
(* threads start tasks in any order, any number of them at once, and a thread *)
(* may stop for any time between two entries.  A stream yields its numbers in *)
(* order; entry p of the array is to be number p mod step of stream           *)
(* p div step, so that it depends on the position only.  The caller waits for *)
(* all tasks.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
StepOf(n, w) == (n + w - 1) \div w
First(n, w, i) == Min2((i - 1) * StepOf(n, w), n)
Last(n, w, i) == Min2(i * StepOf(n, w), n)
Segment(n, w, i) == {p \in 0..(n - 1) : First(n, w, i) <= p /\ p < Last(n, w, i)}
\* the number that belongs at position p: stream and index in the stream
Value(n, w, p) == <<p \div StepOf(n, w) + 1, p % StepOf(n, w)>>
Blank == <<0, 0>>
\* ---- one call -----------------------------------------------------------------
\* task: "new" -> "queued" -> "run" -> "done";  drawn: numbers taken from the stream
Fresh(n, w) == [n |-> n, w |-> w, main |-> "submit", task |-> [i \in 1..w |-> "new"], drawn |-> [i \in 1..w |-> 0],
                out |-> [p \in 0..(n - 1) |-> Blank], writes |-> [p \in 0..(n - 1) |-> 0]]
CanSubmit(c, i) == c.main = "submit" /\ c.task[i] = "new" /\ \A j \in 1..(i - 1) : c.task[j] # "new"
Submit(c, i) == [c EXCEPT !.task[i] = "queued", !.main = IF i = c.w THEN "wait" ELSE @]
CanStart(c, i) == c.task[i] = "queued"
Start(c, i) == [c EXCEPT !.task[i] = "run"]
CanWrite(c, i) == c.task[i] = "run" /\ First(c.n, c.w, i) + c.drawn[i] < Last(c.n, c.w, i)
WriteEntry(c, i) == LET p == First(c.n, c.w, i) + c.drawn[i]
               IN  [c EXCEPT !.out[p] = <<i, c.drawn[i]>>, !.writes[p] = @ + 1, !.drawn[i] = @ + 1]
CanEnd(c, i) == c.task[i] = "run" /\ First(c.n, c.w, i) + c.drawn[i] >= Last(c.n, c.w, i)
End(c, i) == [c EXCEPT !.task[i] = "done"]
CanReturn(c) == c.main = "wait" /\ \A i \in 1..c.w : c.task[i] = "done"
Return(c) == [c EXCEPT !.main = "returned"]
\* ---- what holds of it ---------------------------------------------------------
Once(c) == \A p \in DOMAIN c.writes : c.writes[p] <= 1
Complete(c) == c.main = "returned" => \A p \in DOMAIN c.out : c.writes[p] = 1 /\ c.out[p] = Value(c.n, c.w, p)
Sound(c) == \A p \in DOMAIN c.out : c.out[p] \in {Blank, Value(c.n, c.w, p)}
Partition(n, w) == /\ UNION {Segment(n, w, i) : i \in 1..w} = 0..(n - 1)
                   /\ \A i, j \in 1..w : i # j => Segment(n, w, i) \cap Segment(n, w, j) = {}
Distinct(n, w) == \A p, q \in 0..(n - 1) : p # q => Value(n, w, p) # Value(n, w, q)
=============================================================================
