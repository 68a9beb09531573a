----------------------------- MODULE SmoothTrace -----------------------------
(* Smoothers.  A smoother of the matrix A is one linear operator Sf (forward)     *)
(* and one operator Sb (backward) on residuals; a smoothing step is               *)
(*     x' = x + S (b - A x)                                                       *)
(* whatever the flags say, and everything else (flags, residual updates, several  *)
(* steps, symmetrised steps, statuses of distributed vectors) follows from it.    *)
(* A trace holds the operators as observed (columns on global unit vectors) and   *)
(* a sequence of calls.  Unknowns come in nodes of bs numbers; own[r] are the     *)
(* nodes (from 0) rank r - 1 holds in its local order, in one process all nodes.  *)
EXTENDS Integers, Sequences, FiniteSets, Reals, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
ToSet(s) == {s[i] : i \in 1..Len(s)}
T9 == "1e-9"
NN(t) == t.n * t.bs
Ranks(t) == 1..Len(t.own)
RECURSIVE SumVec(_, _, _, _)
\* sum of the local parts / values put on top of each other
SumVec(t, vals, own, k) == IF k = 0 THEN VZero(NN(t)) ELSE VLin(1, SumVec(t, vals, own, k - 1), 1, Scatter(NN(t), vals[k], own[k], t.bs))
RECURSIVE PutVec(_, _, _, _)
PutVec(t, vals, own, k) == IF k = 0 THEN VZero(NN(t)) ELSE Put(PutVec(t, vals, own, k - 1), vals[k], own[k], t.bs)
SameStat(s) == \A i \in 1..Len(s) : s[i] = s[1] /\ s[i] \in {0, 1}
Val(t, vals, st) == IF st[1] = 1 THEN PutVec(t, vals, t.own, Len(t.own)) ELSE SumVec(t, vals, t.own, Len(t.own))
Agree(t, vals, st) == st[1] = 1 => LET g == PutVec(t, vals, t.own, Len(t.own)) IN \A r \in Ranks(t) : VSame(Gather(g, t.own[r], t.bs), vals[r])
RECURSIVE SumMat(_, _)
SumMat(t, k) == IF k = 0 THEN VZero(NN(t) * NN(t)) ELSE VLin(1, SumMat(t, k - 1), 1, MatAsm(NN(t), t.A[k], t.own[k], t.bs))
Mat(t) == SumMat(t, Len(t.own))

\* operators from the columns the ranks recorded
ColsOf(t, S) == [u \in 1..Len(S[1]) |-> PutVec(t, [r \in Ranks(t) |-> S[r][u]], t.own, Len(t.own))]
Op(t, S) == FromCols(NN(t), ColsOf(t, S))
ColsAgree(t, S) == \A u \in 1..Len(S[1]) : Agree(t, [r \in Ranks(t) |-> S[r][u]], <<1>>)
Ent(n, M, i, j) == VAt(M, i * n + j)
Zero(x) == VSame(x, "0")

\* ------------------------------------------------------------------ one step, many steps
Step(A, S, x, b) == VLin(1, x, 1, MatVec2(S, VLin(1, b, -1, MatVec2(A, x))))
RECURSIVE Steps(_, _, _, _, _, _)
Steps(A, Sf, Sb, x, b, w) == IF w = <<>> THEN x ELSE Steps(A, Sf, Sb, Step(A, IF Head(w) = "F" THEN Sf ELSE Sb, x, b), b, Tail(w))
RECURSIVE Rep(_, _)
Rep(w, k) == IF k = 0 THEN <<>> ELSE w \o Rep(w, k - 1)
\* the steps a call of the wrapper tgt stands for
Fwd(p) == IF p.n = 0 THEN <<"F">> ELSE IF p.symm = 1 THEN Rep(<<"F", "B">>, p.n) ELSE Rep(<<"F">>, p.n)
Bwd(p) == IF p.n = 0 THEN <<"B">> ELSE IF p.symm = 1 THEN Rep(<<"F", "B">>, p.n) ELSE Rep(<<"B">>, p.n)
Word(p, op, k) == CASE op = 0 -> Fwd(p) [] op = 1 -> Bwd(p) [] op = 2 -> Fwd(p) \o Bwd(p)
                    [] op = 3 -> Rep(Fwd(p), k) [] op = 4 -> Rep(Bwd(p), k) [] op = 5 -> Rep(Fwd(p) \o Bwd(p), k)
Energy(A, b, x) == VLin("0.5", Dot(x, MatVec2(A, x)), -1, Dot(b, x))
ResAt(t, x, y) == IF t.resfree = 1 THEN Pick(t.free, t.bs, x, y) ELSE x
SmoothClauses(t, e) ==
  IF ~(SameStat(e.x0st) /\ SameStat(e.b0st) /\ SameStat(e.r0st) /\ SameStat(e.x1st) /\ SameStat(e.b1st) /\ (e.ur = 1 => SameStat(e.r1st))) THEN {"Status"}
  ELSE
  LET A == Mat(t)  Sf == Op(t, t.Sf)  Sb == Op(t, t.Sb)
      x0 == Val(t, e.x0, e.x0st)  b == Val(t, e.b0, e.b0st)  x1 == Val(t, e.x1, e.x1st)  b1 == Val(t, e.b1, e.b1st)
      r0 == VLin(1, b, -1, MatVec2(A, x0))  r1 == VLin(1, b, -1, MatVec2(A, x1))
      want == Steps(A, Sf, Sb, x0, b, Word(t.proxies[e.tgt + 2], e.sop, e.k))
      scale == VLin(1, MaxAbs(want), 1, MaxAbs(b))
  IN {c \in {"Premise", "Iterate", "Fixed", "Residual", "RhsChanged", "Agree", "Energy"} :
       ~CASE c = "Premise" -> /\ (e.xz = 1 => VSame(x0, VZero(NN(t)))) /\ (e.ru = 1 => VClose(Val(t, e.r0, e.r0st), r0, "1e-12", MaxAbs(b)))
          [] c = "Iterate" -> VClose(x1, want, T9, scale)
          [] c = "Fixed" -> VSame(Pick(t.free, t.bs, VZero(NN(t)), x1), Pick(t.free, t.bs, VZero(NN(t)), x0))
          [] c = "Residual" -> e.ur = 1 => LET r == Val(t, e.r1, e.r1st) IN VClose(ResAt(t, r, VZero(NN(t))), ResAt(t, r1, VZero(NN(t))), T9, scale)
          [] c = "RhsChanged" -> VClose(b1, b, "1e-12", 0)
          [] c = "Agree" -> Agree(t, e.x1, e.x1st) /\ Agree(t, e.b1, e.b1st) /\ (e.ur = 1 => Agree(t, e.r1, e.r1st))
          [] c = "Energy" -> t.energy = 1 => ~Less(VLin(1, Energy(A, b, x0), T9, VLin(1, MaxAbs(b), 1, Dot(x0, x0))), Energy(A, b, x1))}

\* ------------------------------------------------------------------ the operators
\* Gauss-Seidel over the blocks of order: what a start at zero with right-hand side b gives
BlockSolve(t, D, r) == IF t.pinv = 1 THEN PSolve(D, r) ELSE Solve(D, r)
RECURSIVE Sweep(_, _, _, _, _)
Sweep(t, A, order, x, b) ==
  IF order = <<>> THEN x
  ELSE LET ids == Head(order)
           r == VLin(1, b, -1, MatVec2(A, x))
           d == BlockSolve(t, SubMat(A, NN(t), ids, t.bs), Gather(r, ids, t.bs))
       IN Sweep(t, A, Tail(order), VLin(1, x, t.omega, Scatter(NN(t), d, ids, t.bs)), b)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SweepOp(t, A, order) == FromCols(NN(t), [u \in 1..NN(t) |-> Sweep(t, A, order, VZero(NN(t)), VUnit(NN(t), u - 1))])
\* all blocks at the same time
JacOp(t, A, order) == FromCols(NN(t), [u \in 1..NN(t) |->
   LET RECURSIVE J(_, _)
       J(o, x) == IF o = <<>> THEN x ELSE J(Tail(o), VLin(1, x, t.omega, Scatter(NN(t), BlockSolve(t, SubMat(A, NN(t), Head(o), t.bs), Gather(VUnit(NN(t), u - 1), Head(o), t.bs)), Head(o), t.bs)))
   IN J(order, VZero(NN(t)))])
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
SweepOK(t, A, Sf, Sb) ==
  CASE t.sweep = "order" -> VClose(Sf, SweepOp(t, A, t.order), T9, 0) /\ VClose(Sb, SweepOp(t, A, Rev(t.order)), T9, 0)
    [] t.sweep = "jac" -> VClose(Sf, JacOp(t, A, t.order), T9, 0) /\ VClose(Sb, JacOp(t, A, t.order), T9, 0)
    [] t.sweep = "perm" -> \E p \in Perms(Len(t.order)) : LET o == [i \in 1..Len(t.order) |-> t.order[p[i]]] IN VClose(Sf, SweepOp(t, A, o), T9, 0) /\ VClose(Sb, SweepOp(t, A, Rev(o)), T9, 0)
    [] OTHER -> TRUE

FixedRows(t, S) == LET n == NN(t) IN VSame(Pick([i \in 1..(n * n) |-> t.free[(((i - 1) \div n) \div t.bs) + 1]], 1, VZero(n * n), S), VZero(n * n))
FixedCols(t, S) == LET n == NN(t) IN VSame(Pick([i \in 1..(n * n) |-> t.free[(((i - 1) % n) \div t.bs) + 1]], 1, VZero(n * n), S), VZero(n * n))

\* distributed: who owns a node
Master(t, u) == CHOOSE r \in Ranks(t) : \E i \in 1..Len(t.own[r]) : t.own[r][i] = u /\ t.master[r][i] = 1
OwnerMap(t) == [u \in 0..(t.n - 1) |-> Master(t, u)]
OwnerBlocks(t, S) == LET o == OwnerMap(t)  n == NN(t) IN
   VSame(Pick([i \in 1..(n * n) |-> IF o[((i - 1) \div n) \div t.bs] = o[((i - 1) % n) \div t.bs] THEN 1 ELSE 0], 1, VZero(n * n), S), VZero(n * n))
\* the nodes a rank owns and relaxes, ascending
RECURSIVE Asc(_)
Asc(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Asc(s \ {m})
Relaxed(t, r) == LET o == OwnerMap(t) IN Asc({u \in 0..(t.n - 1) : o[u] = r /\ t.free[u + 1] = 1})
\* block (i, j) of an m x m matrix of blocks
Blk(m, bs, M, i, j) == Gather(M, [k \in 1..(bs * bs) |-> ((i - 1) * bs + (k - 1) \div bs) * m * bs + (j - 1) * bs + ((k - 1) % bs)], 1)
InOneGroup(t, u, v) == \E k \in 1..Len(t.group) : u \in ToSet(t.group[k]) /\ v \in ToSet(t.group[k])
\* the inverse of the operator on the nodes of one rank: the owner's diagonal block matrix, where of two
\* coupled groups only one sees the other, with a diagonal that may be enlarged
LocalSweep(t, A, S) ==
  \A r \in Ranks(t) :
    LET ids == Relaxed(t, r)  m == Len(ids)  k == m * t.bs
        T == Inv(k, SubMat(S, NN(t), ids, t.bs))  M == SubMat(A, NN(t), ids, t.bs)
        z == VZero(t.bs * t.bs)
        close(x, y) == VClose(x, y, "1e-8", MaxAbs(A))
    IN m > 0 =>
       \A i \in 1..m :
         /\ LET d == Blk(m, t.bs, T, i, i)  d0 == Blk(m, t.bs, M, i, i)
            IN /\ close(d, Transp(t.bs, d))
               /\ (t.bs = 1 => ~Less(d, VLin("0.99999999", d0, 0, d0)))
               /\ (t.single = 1 => close(d, d0))
         /\ \A j \in 1..(i - 1) :
              LET tij == Blk(m, t.bs, T, i, j)  tji == Blk(m, t.bs, T, j, i)  mij == Blk(m, t.bs, M, i, j)  mji == Blk(m, t.bs, M, j, i)
              IN IF InOneGroup(t, ids[i], ids[j]) THEN close(tij, mij) /\ close(tji, mji)
                 ELSE (close(tij, mij) /\ close(tji, z)) \/ (close(tji, mji) /\ close(tij, z))
\* several local steps: I - Sk M = (I - S M)^k  with the owner-to-owner part M
OwnerPart(t, A) == LET o == OwnerMap(t)  n == NN(t) IN
   Pick([i \in 1..(n * n) |-> IF o[((i - 1) \div n) \div t.bs] = o[((i - 1) % n) \div t.bs] THEN 1 ELSE 0], 1, A, VZero(n * n))
Ident(n) == FromCols(n, [u \in 1..n |-> VUnit(n, u - 1)])
RECURSIVE Power(_, _, _)
Power(n, E, k) == IF k = 0 THEN Ident(n) ELSE MatMat(E, n, Power(n, E, k - 1), n)
LocalSteps(t, A, S, S1) == LET n == NN(t)  M == OwnerPart(t, A)
                               Err(X) == VLin(1, Ident(n), -1, MatMat(X, n, M, n))
                           IN VClose(Err(S), Power(n, Err(S1), t.nloc), T9, 0)
\* auxiliary space: relax in the range space and in the potential space, one after the other
PotCols(t, S) == [u \in 1..Len(S[1]) |-> LET RECURSIVE P(_)
                                            P(k) == IF k = 0 THEN VZero(t.n2) ELSE Put(P(k - 1), S[k][u], t.own2[k], 1)
                                        IN P(Len(t.own2))]
PotOp(t, S) == LET n == NN(t)  C == FromCols(t.n2, PotCols(t, S)) IN MatMat(MatMat(t.D, n, C, t.n2), n, Transp(n, t.D), n)
Both(t, A, S1, S2) == LET n == NN(t) IN VLin(1, VLin(1, S1, 1, S2), -1, MatMat(MatMat(S2, n, A, n), n, S1, n))   \* first S1, then S2
HptOK(t, A, Sf, Sb) ==
  LET R == Op(t, t.Rf)  RB == Op(t, t.Rb)  P == PotOp(t, t.Pf)  PB == PotOp(t, t.Pb)
  IN IF t.potfirst = 1 THEN VClose(Sf, Both(t, A, P, R), T9, 0) /\ VClose(Sb, Both(t, A, RB, PB), T9, 0)
     ELSE VClose(Sf, Both(t, A, R, P), T9, 0) /\ VClose(Sb, Both(t, A, PB, RB), T9, 0)

OperatorClauses(t) ==
  LET A == Mat(t)  Sf == Op(t, t.Sf)  Sb == Op(t, t.Sb)
  IN {c \in {"ColsAgree", "Transpose", "FixedRows", "FixedCols", "OwnerBlocks", "Sweep", "LocalSweep", "LocalSteps", "Auxiliary"} :
       ~CASE c = "ColsAgree" -> ColsAgree(t, t.Sf) /\ ColsAgree(t, t.Sb)
          [] c = "Transpose" -> VClose(Sb, Transp(NN(t), Sf), T9, 0)
          [] c = "FixedRows" -> FixedRows(t, Sf) /\ FixedRows(t, Sb)
          [] c = "FixedCols" -> t.kind # "hpt" => (FixedCols(t, Sf) /\ FixedCols(t, Sb))
          [] c = "OwnerBlocks" -> (Len(t.master) > 0 /\ t.kind # "hpt") => (OwnerBlocks(t, Sf) /\ OwnerBlocks(t, Sb))
          [] c = "Sweep" -> SweepOK(t, A, Sf, Sb)
          [] c = "LocalSweep" -> t.local = 1 => LocalSweep(t, A, Sf)
          [] c = "LocalSteps" -> t.nloc > 1 => (LocalSteps(t, A, Sf, Op(t, t.Sf1)) /\ LocalSteps(t, A, Sb, Op(t, t.Sb1)))
          [] c = "Auxiliary" -> t.kind = "hpt" => HptOK(t, A, Sf, Sb)}
\* a property names the clauses it consists of
Wanted == IF IOEnv.PROPERTY = "C06" THEN {"ColsAgree", "Transpose", "FixedRows", "FixedCols", "OwnerBlocks", "Sweep", "LocalSweep", "LocalSteps", "Auxiliary", "Status", "Premise", "Iterate", "Fixed", "Agree", "Energy", "Quiet"}
          ELSE IF IOEnv.PROPERTY = "C07" THEN {"ColsAgree", "Status", "Premise", "Iterate", "Residual", "Agree", "Quiet"}
          ELSE IF IOEnv.PROPERTY = "C17" THEN {"ColsAgree", "FixedRows", "FixedCols", "OwnerBlocks", "Sweep", "LocalSweep", "LocalSteps", "Status", "Premise", "Iterate", "Quiet"}
          ELSE {"ColsAgree", "Status", "Premise", "Iterate", "Residual", "RhsChanged", "Agree", "Quiet"}
Clauses(t, e) == Wanted \cap CASE e.op = "operator" -> OperatorClauses(t) [] e.op = "smooth" -> SmoothClauses(t, e)
                   [] e.op = "end" -> IF \A r \in Ranks(t) : e.ranks[r].open = 0 /\ e.ranks[r].stray = 0 THEN {} ELSE {"Quiet"}
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr], Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
