------------------------------ MODULE Operator ------------------------------
(* A preconditioner is one fixed operator: what it returns depends on nothing    *)
(* but the right-hand side.  col[i] is what it returned for unit vector i the    *)
(* first time (the empty sequence if that vector was not given yet); from the    *)
(* columns on, every application is determined.                                  *)
EXTENDS Reals
CONSTANTS Tol, SymTol
Known(col) == \A i \in DOMAIN col : col[i] # <<>>
\* the operator applied to x;  n unknowns
Image(n, col, x) == Comb(n, col, x)
\* what an application leaves in the vector that held y0
Result(n, col, op, fac, x, y0) ==
  IF op \in {"mult", "trans", "expr"} THEN Image(n, col, x) ELSE VLin(1, y0, fac, Image(n, col, x))
Scale(n, col) == MaxAbs(FromCols(n, col))
Symmetric(n, col) == VClose(VLin("1e10", FromCols(n, col), 0, FromCols(n, col)), VLin("1e10", Transp(n, FromCols(n, col)), 0, FromCols(n, col)), SymTol, VLin("1e10", Scale(n, col), 0, 0))
\* only the free unknowns (from 0) receive values, and only their right-hand sides matter
Fixed(n, free) == {i \in 0..(n - 1) : \A k \in DOMAIN free : free[k] # i}
ZeroThere(n, col, free) == \A i \in Fixed(n, free) : /\ \A j \in 1..n : VSame(VAt(col[j], i), 0)
                                                      /\ VSame(col[i + 1], VZero(n))
\* the operator on the free unknowns, its diagonal scaled to one, has no eigenvalue near or below zero
Positive(n, col, free) == Len(free) = 0 \/ Less("1e-10", MinEig(Len(free), DiagScaled(Len(free), SubMat(FromCols(n, col), n, free, 1))))
\* an iteration with the preconditioner adds no energy to any error: A - A B A has no negative eigenvalue (free unknowns)
Contracts(n, col, acol, free) ==
  LET m == Len(free)
      A == SubMat(FromCols(n, acol), n, free, 1)
      B == SubMat(FromCols(n, col), n, free, 1)
      M == VLin(1, A, "-1", MatMat(A, m, MatMat(B, m, A, m), m))
  IN m = 0 \/ Less(VLin("-1e-8", MaxAbs(A), 0, 0), MinEig(m, M))
=============================================================================
