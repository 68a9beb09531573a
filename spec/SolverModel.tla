---------------------------- MODULE SolverModel ----------------------------
(* The solver as a machine that does one step after the other and decides after  *)
(* each whether to go on; used again and again with other settings.  What it has *)
(* to do in total is defined in Solver; the sequences of calls are written out   *)
(* and replayed in the real solver.                                              *)
EXTENDS Solver, TLC, Json
CONSTANTS Calls, MaxSteps, Norms, Tols
VARIABLES max, tol, save, flag, es, run, conv, hist
vars == <<max, tol, save, flag, es, run, conv, hist>>
\* start with nothing known, zero start vector, known residual, initialisation, or as an operator
Flags == {"none", "zero", "res", "init", "zeroinit", "short", "mult", "madd"}
Init == max = 0 /\ tol = 0 /\ save = 0 /\ flag = "none" /\ es = <<>> /\ run = "idle" /\ conv = FALSE /\ hist = <<>>
Call(m, t, s, f, e) == run = "idle" /\ Len(hist) < Calls /\ run' = "run" /\ max' = m /\ tol' = t /\ save' = s /\ flag' = f /\ es' = <<e>> /\ conv' = FALSE /\ UNCHANGED hist
Step(e) == /\ run = "run" /\ Len(es) - 1 < max /\ ~conv
           /\ es' = Append(es, e) /\ conv' = (tol > 0 /\ 4 * e < tol * es[1])
           /\ UNCHANGED <<max, tol, save, flag, run, hist>>
Stop == /\ run = "run" /\ (conv \/ Len(es) - 1 = max) /\ run' = "idle"
        /\ hist' = Append(hist, [max |-> max, tol |-> tol, save |-> save, flag |-> flag, es |-> es])
        /\ UNCHANGED <<max, tol, save, flag, es, conv>>
Write == run = "idle" /\ Len(hist) = Calls /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ run' = "end" /\ UNCHANGED <<max, tol, save, flag, es, conv, hist>>
Next == \/ \E m \in 0..MaxSteps : \E t \in Tols : \E e \in Norms : \E s \in {0, 1} : \E f \in Flags : Call(m, t, s, f, e)
        \/ \E e \in Norms : Step(e)
        \/ Stop \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars((\E e \in Norms : Step(e)) \/ Stop \/ Write)
Pad == es \o [k \in 1..(MaxSteps + 1) |-> 1000]
Right == run = "idle" /\ es # <<>> => Len(es) - 1 = Steps(Pad, max, tol) /\ conv = Converged(Pad, max, tol)
Bound == es # <<>> => Len(es) - 1 <= max
Zero == run = "idle" /\ es # <<>> /\ tol = 0 => Len(es) - 1 = max /\ ~conv
Ends == [](run = "run" => <>(run # "run"))
=============================================================================
