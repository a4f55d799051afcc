------------------------------ MODULE TraceLin ------------------------------
(* Checks recorded uses of linear maps against LinMaps.  With File.own only    *)
(* whether operands stay as they are is judged (C03), not the values (C16).    *)
EXTENDS LinMaps, Json, IOUtils
CONSTANT GroupsIn
File == JsonDeserialize(IOEnv.TRACE_FILE)
Prep(GS) == TLCEval([i \in 1..Len(GS) |-> LET G == GS[i] IN
   [tts |-> [j \in 1..Len(G.tts) |-> [sh |-> G.tts[j].sh, v |-> Denote(G.tts[j])]],
    mpos |-> [j \in 1..Len(G.mpos) |-> Mpo(G.mpos[j])], pcs |-> [j \in 1..Len(G.pcs) |-> Pc(G.pcs[j])]]])
MCGroups == Prep(File.groups)
Groups == TLCEval(GroupsIn)
Traces == File.traces
VARIABLES tid, l, s, bad
vars == <<tid, l, s, bad>>
Tr == Traces[tid]
Ev == Tr.ev[l]
g == Groups[Tr.g]
New == Make(g, s, Ev)
Clause ==
  IF ~Legal(g, s, Ev) \/ ~Exactly(s, Ev) THEN "illegal-event"
  ELSE IF Ev.exc # "" THEN (IF File.own THEN "ok" ELSE "raised")
  ELSE IF Ev.changed # << >> THEN "modified"
  ELSE IF Ev.shares # << >> THEN "replacing a core of the result changes an operand"
  ELSE IF File.own THEN "ok"
  ELSE LET o == Ev.obs IN
    CASE New.ty \in {"tt", "tsum"} ->
           IF o.sh # New.sh THEN "shape" ELSE IF o.v # New.v THEN "array"
           ELSE IF o.cls # (IF New.ty = "tt" THEN "TensorTrain" ELSE "TensorSum") THEN "type"
           ELSE IF New.ty = "tsum" /\ o.n # New.n THEN "number of summands" ELSE "ok"
      [] New.ty = "mpo" ->
           IF o.ins # New.ins \/ o.outs # New.outs THEN "shape"
           ELSE IF o.ash # Zip2(New.ins, New.outs) \/ o.v # MapArray(New) THEN "array"
           ELSE IF o.ttsh # [m \in 1..Len(New.ins) |-> New.ins[m] * New.outs[m]] \/ o.ttcls # "TensorTrain" \/ o.ttv # MapArray(New) THEN "as a train"
           ELSE IF o.size # o.stored THEN "size" ELSE "ok"
      [] OTHER -> IF o.ins # MapIns(New) \/ o.outs # MapOuts(New) THEN "shape" ELSE "ok"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = << >> /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Tr.ev)
        /\ LET c == Clause IN bad' = c /\ (IF c = "ok" THEN s' = Append(s, New) ELSE PrintT(<<"REJECT", tid, l, c>>) /\ s' = s)
        /\ l' = l + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Inv == bad \in STRING
=============================================================================
