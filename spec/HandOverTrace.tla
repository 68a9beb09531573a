---------------------------- MODULE HandOverTrace ----------------------------
(* Recorded runs of the background thread.  A job j is handed over, begins and    *)
(* ends once, in this order; whoever waited sees the effect of every job handed   *)
(* over before (the box collects the numbers of the jobs that were run as digits) *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES tr, l, handed, begun, ended, box
vars == <<tr, l, handed, begun, ended, box>>
Traces == JsonDeserialize(IOEnv.TRACES)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ handed = 0 /\ begun = 0 /\ ended = 0 /\ box = 0
Ok(e) == CASE e.op = "hand" -> e.k = handed + 1 /\ ended = handed      \* the one who hands over has waited for the last job
           [] e.op = "begin" -> e.k = begun + 1 /\ e.k = handed /\ begun = ended
           [] e.op = "end" -> e.k = begun /\ ended = begun - 1
           [] e.op = "ret" -> ended = handed /\ begun = ended /\ e.k = box
           [] e.op = "destroy" -> TRUE
           [] e.op = "over" -> ended = handed /\ begun = ended /\ e.k = box
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET e == Traces[tr].events[l]
              IN IF Ok(e)
                 THEN /\ l' = l + 1
                      /\ handed' = IF e.op = "hand" THEN e.k ELSE handed
                      /\ begun' = IF e.op = "begin" THEN e.k ELSE begun
                      /\ ended' = IF e.op = "end" THEN e.k ELSE ended
                      /\ box' = IF e.op = "end" THEN 10 * box + e.k ELSE box
                 ELSE PrintT(<<"REJECT", tr, l, {e.op}>>) /\ l' = -1 /\ UNCHANGED <<handed, begun, ended, box>>
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED <<tr, handed, begun, ended, box>>
Spec == Init /\ [][Next]_vars
=============================================================================
