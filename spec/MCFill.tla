------------------------------- MODULE MCFill -------------------------------
(* Exhaustive check of Fill: every interleaving of small calls, and that a   *)
(* call always returns when threads keep running.                            *)
EXTENDS Fill
CONSTANTS MaxN, MaxW
VARIABLE c
Init == \E n \in 0..MaxN, w \in 1..MaxW : c = Fresh(n, w)
Next == \/ \E i \in 1..c.w : \/ CanSubmit(c, i) /\ c' = Submit(c, i)
                             \/ CanStart(c, i) /\ c' = Start(c, i)
                             \/ CanWrite(c, i) /\ c' = WriteEntry(c, i)
                             \/ CanEnd(c, i) /\ c' = End(c, i)
        \/ CanReturn(c) /\ c' = Return(c)
Spec == Init /\ [][Next]_c /\ WF_c(Next)
Inv == Once(c) /\ Complete(c) /\ Sound(c) /\ Partition(c.n, c.w) /\ Distinct(c.n, c.w)
Returns == <>(c.main = "returned")
=============================================================================
