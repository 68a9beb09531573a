------------------------------ MODULE MapTrace ------------------------------
(* Transfers between levels.  The unknowns of level l are numbers 0 .. n-1 of   *)
(* nodes of bs numbers; rank r - 1 holds the nodes own[r] (in this order).      *)
(* Step s between level s and s + 1 is a global matrix P[s] (a redistribution:  *)
(* the unit matrix, with other holders).  A vector has a value: the common      *)
(* values of its holders (status 1) or the sum of their parts (status 0).       *)
(* Everything observed is explained by these values:                            *)
(*   fine to coarse    c' = P^T f      adding    c' = c + fac P^T f             *)
(*   coarse to fine    f' = P c        adding    f' = f + fac P c               *)
(* with P = P[a] ... P[b-1], by whatever way the transfer is done, and the      *)
(* matrices of the levels are P^T A P.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Reals, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ranks(t) == 1..Len(t.levels[1].own)
NN(L) == L.n * L.bs
RECURSIVE SumVec(_, _, _), PutVec(_, _, _)
SumVec(L, vals, k) == IF k = 0 THEN VZero(NN(L)) ELSE VLin(1, SumVec(L, vals, k - 1), 1, Scatter(NN(L), vals[k], L.own[k], L.bs))
PutVec(L, vals, k) == IF k = 0 THEN VZero(NN(L)) ELSE Put(PutVec(L, vals, k - 1), vals[k], L.own[k], L.bs)
Act(t, L) == {r \in Ranks(t) : L.act[r] = 1}
Stat(t, L, st) == st[CHOOSE r \in Act(t, L) : TRUE]
SameStat(t, L, st) == \A r \in Ranks(t) : IF L.act[r] = 1 THEN st[r] \in {0, 1} /\ st[r] = Stat(t, L, st) ELSE st[r] = -1
Val(t, L, vals, st) == IF Stat(t, L, st) = 1 THEN PutVec(L, vals, Len(vals)) ELSE SumVec(L, vals, Len(vals))
Agree(t, L, vals, st) == Stat(t, L, st) = 1 => LET g == PutVec(L, vals, Len(vals)) IN \A r \in Ranks(t) : VSame(Gather(g, L.own[r], L.bs), vals[r])
Ident(n) == FromCols(n, [u \in 1..n |-> VUnit(n, u - 1)])
RECURSIVE Prol(_, _, _)
\* the prolongation from level b to level a (from 1)
Prol(t, a, b) == IF a = b THEN Ident(NN(t.levels[a])) ELSE MatMat(Prol(t, a, b - 1), NN(t.levels[a]), t.P[b - 1], NN(t.levels[b]))
RECURSIVE SumMat(_, _, _)
SumMat(L, A, k) == IF k = 0 THEN VZero(NN(L) * NN(L)) ELSE VLin(1, SumMat(L, A, k - 1), 1, MatAsm(NN(L), A[k], L.own[k], L.bs))
T12 == "1e-12"
Galerkin(t, A, a, b) == LET p == Prol(t, a, b)  n == NN(t.levels[a])  m == NN(t.levels[b])
                        IN MatMat(MatMat(Transp(n, p), m, A, n), m, p, m)
\* ------------------------------------------------------------------ clauses of a transfer
Transfer(t, e) ==
  LET F == t.levels[e.a + 1]  C == t.levels[e.b + 1]
  IN IF ~(SameStat(t, F, e.f0st) /\ SameStat(t, C, e.c0st) /\ SameStat(t, F, e.f1st) /\ SameStat(t, C, e.c1st)) THEN {"Status"}
     ELSE LET p == Prol(t, e.a + 1, e.b + 1)
              f0 == Val(t, F, e.f0, e.f0st)  c0 == Val(t, C, e.c0, e.c0st)  f1 == Val(t, F, e.f1, e.f1st)  c1 == Val(t, C, e.c1, e.c1st)
              down == MatTVec(p, f0)  up == MatVec2(p, c0)
              wantf == CASE e.sop = 2 -> up [] e.sop = 3 -> VLin(1, f0, e.fac, up) [] OTHER -> f0
              wantc == CASE e.sop = 0 -> down [] e.sop = 1 -> VLin(1, c0, e.fac, down) [] OTHER -> c0
              s == VLin(1, MaxAbs(f0), 1, MaxAbs(c0))
          IN {c \in {"Fine", "Coarse", "Agree"} :
               ~CASE c = "Fine" -> VClose(f1, wantf, T12, s)
                  [] c = "Coarse" -> VClose(c1, wantc, T12, s)
                  [] c = "Agree" -> Agree(t, F, e.f1, e.f1st) /\ Agree(t, C, e.c1, e.c1st)}
\* matrices: asm[l][r] the local matrix of rank r on level l, none where the rank does not have the level
MatOK(t, L, A, want) == /\ \A r \in Ranks(t) : A[r].none = (IF L.act[r] = 1 THEN 0 ELSE 1)
                        /\ VClose(SumMat(L, [r \in Ranks(t) |-> IF A[r].none = 1 THEN VZero(0) ELSE A[r].A], Len(A)), want, T12, 0)
Sorted(t, A) == \A r \in Ranks(t) : A[r].ok = 1
Assembled(t, e) ==
  LET A0 == SumMat(t.levels[1], e.A, Len(e.A))
  IN {c \in {"Galerkin", "Rows", "Composed"} :
       ~CASE c = "Galerkin" -> \A k \in 1..Len(e.asm) : MatOK(t, t.levels[k], e.asm[k], Galerkin(t, A0, 1, k))
          [] c = "Rows" -> (\A k \in 1..Len(e.asm) : Sorted(t, e.asm[k])) /\ (\A k \in 1..Len(e.extra) : Sorted(t, e.extra[k].m))
          [] c = "Composed" -> \A k \in 1..Len(e.extra) : LET q == e.extra[k] IN
                 MatOK(t, t.levels[q.b + 1], q.m, Galerkin(t, A0, 1, q.b + 1))}
\* who has which level: a rank that gives up its unknowns keeps no level after that
Shape(t, e) ==
  {c \in {"Levels", "Mapped", "Blocks"} :
    ~CASE c = "Levels" -> \A r \in Ranks(t) : e.nlev[r] = 1 + Cardinality({k \in 1..(Len(t.levels) - 1) : t.levels[k].act[r] = 1})
       [] c = "Mapped" -> \A r \in Ranks(t) : \A k \in 1..Len(e.mapped[r]) : e.mapped[r][k] = t.levels[k + 1].act[r]
       [] c = "Blocks" -> \A r \in Ranks(t) : \A k \in 1..Len(e.dims[r]) : e.dims[r][k] = <<t.levels[k].bs, t.levels[k + 1].bs>>}
Clauses(t, e) == CASE e.op = "transfer" -> Transfer(t, e) [] e.op = "assemble" -> Assembled(t, e) [] e.op = "shape" -> Shape(t, e)
                   [] e.op = "end" -> IF \A r \in Ranks(t) : e.ranks[r].open = 0 /\ e.ranks[r].stray = 0 THEN {} ELSE {"Quiet"}
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr], Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
