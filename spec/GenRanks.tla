------------------------------ MODULE GenRanks ------------------------------
(* All small shapes and ranks, as scripts: exhaustive. *)
EXTENDS Ranks, Json
CONSTANTS MaxD, MaxN, MaxR
VARIABLES sh, r, done
Init == \E d \in 2..MaxD : sh \in [1..d -> 1..MaxN] /\ r \in [1..(d - 1) -> 1..MaxR] /\ done = FALSE
Next == ~done /\ done' = PrintT(<<"SCRIPT", 0, ToJson([sh |-> sh, r |-> r])>>) /\ UNCHANGED <<sh, r>>
Spec == Init /\ [][Next]_<<sh, r, done>>
=============================================================================
