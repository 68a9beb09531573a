------------------------------ MODULE ModesTrace ------------------------------
(* The same sequence of smoothing steps with communication in the foreground, in  *)
(* the background, overlapping and not, with messages delayed differently: all    *)
(* runs give the same values, and all ranks have the same value at shared nodes.  *)
EXTENDS Integers, Sequences, FiniteSets, Reals, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ranks(t) == 1..Len(t.own)
NN(t) == t.n * t.bs
RECURSIVE SumVec(_, _, _)
SumVec(t, vals, k) == IF k = 0 THEN VZero(NN(t)) ELSE VLin(1, SumVec(t, vals, k - 1), 1, Scatter(NN(t), vals[k], t.own[k], t.bs))
RECURSIVE PutVec(_, _, _)
PutVec(t, vals, k) == IF k = 0 THEN VZero(NN(t)) ELSE Put(PutVec(t, vals, k - 1), vals[k], t.own[k], t.bs)
SameStat(s) == \A i \in 1..Len(s) : s[i] = s[1] /\ s[i] \in {0, 1}
Val(t, vals, st) == IF st[1] = 1 THEN PutVec(t, vals, Len(t.own)) ELSE SumVec(t, vals, Len(t.own))
Agree(t, vals, st) == st[1] = 1 => LET g == PutVec(t, vals, Len(t.own)) IN \A r \in Ranks(t) : VSame(Gather(g, t.own[r], t.bs), vals[r])
Bad(t, v, e) ==       \* event e (a step) of run v against the same step of the first run
  LET f == t.runs[1].ev[e]  g == t.runs[v].ev[e]
      close(a, b) == VClose(a, b, "1e-10", VLin(1, MaxAbs(a), 1, MaxAbs(Val(t, f.b1, f.b1st))))
  IN {c \in {"Status", "Same", "SameRes", "SameRhs", "Agree"} :
       ~CASE c = "Status" -> SameStat(g.x1st) /\ SameStat(g.b1st) /\ SameStat(g.r1st)
          [] c = "Same" -> close(Val(t, f.x1, f.x1st), Val(t, g.x1, g.x1st))
          [] c = "SameRes" -> f.ur = 1 => close(Val(t, f.r1, f.r1st), Val(t, g.r1, g.r1st))
          [] c = "SameRhs" -> close(Val(t, f.b1, f.b1st), Val(t, g.b1, g.b1st))
          [] c = "Agree" -> Agree(t, g.x1, g.x1st) /\ (g.ur = 1 => Agree(t, g.r1, g.r1st))}
\* event l of the trace is step ((l - 1) % steps) + 1 of run ((l - 1) \div steps) + 1, the last one the end
Steps(t) == Len(t.runs[1].ev)
Last(t) == Len(t.runs) * Steps(t) + 1
Clauses(t, k) == IF k = Last(t) THEN (IF \A v \in 1..Len(t.runs) : \A r \in Ranks(t) : t.runs[v].ranks[r].open = 0 /\ t.runs[v].ranks[r].stray = 0 THEN {} ELSE {"Quiet"})
                 ELSE Bad(t, ((k - 1) \div Steps(t)) + 1, ((k - 1) % Steps(t)) + 1)
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Last(Traces[tr])
           /\ LET bad == Clauses(Traces[tr], l)
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Last(Traces[tr]) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
