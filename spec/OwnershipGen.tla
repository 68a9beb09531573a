----------------------------- MODULE OwnershipGen -----------------------------
(* Call sequences on NM exchange objects and NV vectors that the contract of     *)
(* DCCMap allows; written out (one JSON line per behaviour) to be replayed.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NM, NV, Depth
VARIABLES ph, on, st, hist
vars == <<ph, on, st, hist>>
Init == /\ ph = [m \in 1..NM |-> "idle"] /\ on = [m \in 1..NM |-> 0]
        /\ st = [v \in 1..NV |-> 0] /\ hist = <<>>
Busy(v) == \E m \in 1..NM : on[m] = v
Log(op, m, v, x) == hist' = Append(hist, [op |-> op, m |-> m, v |-> v, x |-> x])
\* set a vector anew (distributed or consistent cumulated), or add to a part of it
Set(v, s, x) == ~Busy(v) /\ st' = [st EXCEPT ![v] = s] /\ Log(IF s = 0 THEN "setd" ELSE "setc", 0, v, x) /\ UNCHANGED <<ph, on>>
Poke(v, x) == st[v] = 0 /\ (\A m \in 1..NM : on[m] = v => ph[m] \in {"d", "dw"}) /\ Log("poke", 0, v, x) /\ UNCHANGED <<ph, on, st>>
StartD(m, v) == ph[m] = "idle" /\ ~Busy(v) /\ ph' = [ph EXCEPT ![m] = IF st[v] = 0 THEN "d" ELSE "dc"] /\ on' = [on EXCEPT ![m] = v]
                /\ st' = [st EXCEPT ![v] = 0] /\ Log("StartDIS2CO", m, v, 0)
WaitD(m) == ph[m] = "d" /\ ph' = [ph EXCEPT ![m] = "dw"] /\ Log("WaitD2C", m, on[m], 0) /\ UNCHANGED <<on, st>>
ApplyD(m) == ph[m] \in {"d", "dw", "dc"} /\ ph' = [ph EXCEPT ![m] = "da"] /\ Log("ApplyDIS2CO", m, on[m], 0) /\ UNCHANGED <<on, st>>
FinishD(m) == ph[m] = "da" /\ ph' = [ph EXCEPT ![m] = "idle"] /\ on' = [on EXCEPT ![m] = 0] /\ Log("FinishDIS2CO", m, on[m], 0) /\ UNCHANGED st
StartC(m, v) == ph[m] = "idle" /\ ~Busy(v) /\ ph' = [ph EXCEPT ![m] = IF st[v] = 0 THEN "c" ELSE "cc"] /\ on' = [on EXCEPT ![m] = v] /\ Log("StartCO2CU", m, v, 0) /\ UNCHANGED st
ApplyC(m) == ph[m] \in {"c", "cc"} /\ ph' = [ph EXCEPT ![m] = "ca"] /\ st' = [st EXCEPT ![on[m]] = 1] /\ Log("ApplyCO2CU", m, on[m], 0) /\ UNCHANGED on
FinishC(m) == ph[m] = "ca" /\ ph' = [ph EXCEPT ![m] = "idle"] /\ on' = [on EXCEPT ![m] = 0] /\ Log("FinishCO2CU", m, on[m], 0) /\ UNCHANGED st
More == Len(hist) < Depth
Next == \/ /\ More
           /\ \/ \E v \in 1..NV : \E x \in 1..3 : Poke(v, x) \/ \E s \in {0, 1} : x = 1 /\ Set(v, s, Len(hist))
              \/ \E m \in 1..NM : \E v \in 1..NV : StartD(m, v) \/ StartC(m, v)
              \/ \E m \in 1..NM : WaitD(m)
        \/ \E m \in 1..NM : ApplyD(m) \/ FinishD(m) \/ ApplyC(m) \/ FinishC(m)
        \/ /\ ~More /\ (\A m \in 1..NM : ph[m] = "idle") /\ hist # <<>>
           /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ hist' = <<>> /\ UNCHANGED <<ph, on, st>>
Spec == Init /\ [][Next]_vars
=============================================================================
