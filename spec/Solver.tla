------------------------------- MODULE Solver -------------------------------
(* A stationary solver, seen through the sequence of its residual norms:         *)
(* es[1] before the first step, es[k + 1] after step k.  Norms are integers and  *)
(* the tolerance is tol / 4.                                                     *)
EXTENDS Integers, Sequences
Below(es, k, tol) == tol > 0 /\ 4 * es[k + 1] < tol * es[1]
\* n steps were done: no more than allowed, and it stopped at the first step below the tolerance
Steps(es, max, tol) == IF \E k \in 1..max : Below(es, k, tol) THEN CHOOSE k \in 1..max : Below(es, k, tol) /\ \A j \in 1..(k - 1) : ~Below(es, j, tol) ELSE max
Converged(es, max, tol) == \E k \in 1..max : Below(es, k, tol)
=============================================================================
