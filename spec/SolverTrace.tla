---------------------------- MODULE SolverTrace ----------------------------
(* Recorded uses of one solver object that follows a script: residual number k   *)
(* is script[k + 1] whatever happens, so what the solver does and reports is     *)
(* determined by Solver.                                                         *)
EXTENDS Solver, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
Call(e) ==
  LET n == Steps(e.script, e.max, e.tol)
      c == Converged(e.script, e.max, e.tol)
      x == e.b - e.script[n + 1]
  IN {cl \in {"Steps", "Converged", "Needed", "Errors", "Residual", "Iterate", "Iterates", "Start", "Rhs"} :
       ~CASE cl = "Steps" -> e.steps = n
          [] cl = "Converged" -> e.conv = (IF c THEN 1 ELSE 0)
          [] cl = "Needed" -> c => e.needed = n
          [] cl = "Errors" -> e.save = 1 => e.errors = SubSeq(e.script, 1, n + 1)
          [] cl = "Residual" -> e.hasres = 1 => e.res = e.script[n + 1]
          [] cl = "Iterate" -> e.x = (IF e.flag = "madd" THEN e.x0 + e.fac * x ELSE x)
          [] cl = "Iterates" -> e.xs = [k \in 1..Len(e.xs) |-> e.b - e.script[k]]
          [] cl = "Start" -> Len(e.xs) > 0 /\ e.rs[1] = e.script[1]
          [] cl = "Rhs" -> e.b1 = e.b}
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Call(Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
