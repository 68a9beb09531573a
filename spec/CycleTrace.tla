----------------------------- MODULE CycleTrace -----------------------------
(* Multigrid cycles.  Level k has the matrix A[k], smoothing operators Sf[k] and *)
(* Sb[k] on residuals, and the prolongation P[k] from level k + 1; the coarsest   *)
(* level has a solver C.  A cycle is the recursion                                *)
(*   V(k, b):  x := Sf b;  x += P V(k + 1, P^T (b - A x));  x += Sb (b - A x)      *)
(*   W(k, b):  as V, with a second pair of smoothing steps and a second coarse     *)
(*             correction before the last smoothing step                           *)
(*   B(k, b):  x := V(k, b);  x += P B(k + 1, P^T (b - A x));  x += V(k, b - A x)  *)
(* and on the coarsest level C b.  Every application of the multigrid operator,   *)
(* of multigrid as a smoother and of embedded multigrid that was recorded is      *)
(* one of these, whatever was applied before.  Unknowns, holders and values as    *)
(* in MapTrace.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, Reals, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
T9 == "1e-9"
Ranks(t) == 1..Len(t.levels[1].own)
NN(L) == L.n * L.bs
RECURSIVE SumVec(_, _, _), PutVec(_, _, _), SumMat(_, _, _)
SumVec(L, vals, k) == IF k = 0 THEN VZero(NN(L)) ELSE VLin(1, SumVec(L, vals, k - 1), 1, Scatter(NN(L), vals[k], L.own[k], L.bs))
PutVec(L, vals, k) == IF k = 0 THEN VZero(NN(L)) ELSE Put(PutVec(L, vals, k - 1), vals[k], L.own[k], L.bs)
SumMat(L, A, k) == IF k = 0 THEN VZero(NN(L) * NN(L)) ELSE VLin(1, SumMat(L, A, k - 1), 1, MatAsm(NN(L), A[k], L.own[k], L.bs))
Act(t, L) == {r \in Ranks(t) : L.act[r] = 1}
Stat(t, L, st) == st[CHOOSE r \in Act(t, L) : TRUE]
SameStat(t, L, st) == \A r \in Ranks(t) : IF L.act[r] = 1 THEN st[r] \in {0, 1} /\ st[r] = Stat(t, L, st) ELSE st[r] = -1
Val(t, L, vals, st) == IF Stat(t, L, st) = 1 THEN PutVec(L, vals, Len(vals)) ELSE SumVec(L, vals, Len(vals))
AgreeAll(t, L, vals) == LET g == PutVec(L, vals, Len(vals)) IN \A r \in Ranks(t) : L.act[r] = 1 => VClose(Gather(g, L.own[r], L.bs), vals[r], "1e-12", 0)
Agree(t, L, vals, st) == Stat(t, L, st) = 1 => AgreeAll(t, L, vals)
Ident(n) == FromCols(n, [u \in 1..n |-> VUnit(n, u - 1)])
Some(t, L) == CHOOSE r \in Act(t, L) : TRUE
\* the operator whose columns the ranks recorded
Col(t, L, S, u) == [r \in Ranks(t) |-> IF L.act[r] = 1 THEN S[r][u] ELSE VZero(0)]
Op(t, L, S) == FromCols(NN(L), [u \in 1..NN(L) |-> PutVec(L, Col(t, L, S, u), Len(S))])
RECURSIVE Tuple(_, _, _)
\* <<matrix of level 1, ...>>, evaluated once
Tuple(F, n, acc) == IF Len(acc) = n THEN acc ELSE Tuple(F, n, Append(acc, F[Len(acc) + 1]))
Model(t) ==
  LET m == Len(t.levels)
  IN [A |-> Tuple([k \in 1..m |-> SumMat(t.levels[k], t.A[k], Len(t.A[k]))], m, <<>>),
      Sf |-> Tuple([k \in 1..(m - 1) |-> Op(t, t.levels[k], t.Sf[k])], m - 1, <<>>),
      Sb |-> Tuple([k \in 1..(m - 1) |-> Op(t, t.levels[k], t.Sb[k])], m - 1, <<>>),
      P |-> t.P, n |-> m,
      C |-> IF t.hasC = 1 THEN Op(t, t.levels[m], t.C) ELSE VZero(NN(t.levels[m]) * NN(t.levels[m]))]
Res(m, k, b, x) == VLin(1, b, -1, MatVec2(m.A[k], x))
Down(m, k, r) == MatTVec(m.P[k], r)
Up(m, k, x, y) == VLin(1, x, 1, MatVec2(m.P[k], y))
Smooth(m, S, k, b, x) == VLin(1, x, 1, MatVec2(S[k], Res(m, k, b, x)))
RECURSIVE V(_, _, _), W(_, _, _), B(_, _, _)
V(m, k, b) == IF k = m.n THEN MatVec2(m.C, b)
              ELSE LET x1 == MatVec2(m.Sf[k], b)
                       x2 == Up(m, k, x1, V(m, k + 1, Down(m, k, Res(m, k, b, x1))))
                   IN Smooth(m, m.Sb, k, b, x2)
W(m, k, b) == IF k = m.n THEN MatVec2(m.C, b)
              ELSE LET x1 == MatVec2(m.Sf[k], b)
                       x2 == Up(m, k, x1, W(m, k + 1, Down(m, k, Res(m, k, b, x1))))
                       x3 == Smooth(m, m.Sf, k, b, Smooth(m, m.Sb, k, b, x2))
                       x4 == Up(m, k, x3, W(m, k + 1, Down(m, k, Res(m, k, b, x3))))
                   IN Smooth(m, m.Sb, k, b, x4)
B(m, k, b) == IF k = m.n THEN MatVec2(m.C, b)
              ELSE LET x1 == V(m, k, b)
                       x2 == Up(m, k, x1, B(m, k + 1, Down(m, k, Res(m, k, b, x1))))
                   IN VLin(1, x2, 1, V(m, k, Res(m, k, b, x2)))
Cycle(m, c, k, b) == CASE c = 0 -> V(m, k, b) [] c = 1 -> W(m, k, b) [] c = 2 -> B(m, k, b)
\* embedded: the first step goes from the finest level to the finest level of the multigrid
Emb(t, m, b) == IF t.fls = 0 THEN MatVec2(m.P[1], Cycle(m, t.vwb, 2, Down(m, 1, b)))
                ELSE LET x1 == MatVec2(m.Sf[1], b)
                         x2 == Up(m, 1, x1, Cycle(m, t.vwb, 2, Down(m, 1, Res(m, 1, b, x1))))
                     IN Smooth(m, m.Sb, 1, b, x2)
MG(t, m, k, b) == IF t.emb = 1 /\ k = 1 THEN Emb(t, m, b) ELSE Cycle(m, t.vwb, k, b)
\* multigrid from level k as a smoother (symm: the smoother and its transpose one after the other)
VStep(m, k, b, x) == VLin(1, x, 1, V(m, k, Res(m, k, b, x)))
Coarse(m, k, b, x) == Up(m, k, x, V(m, k + 1, Down(m, k, Res(m, k, b, x))))
RECURSIVE UpTo(_, _, _)
\* P[a] ... P[b - 1] x
UpTo(m, a, x) == IF a[1] = a[2] THEN x ELSE UpTo(m, <<a[1], a[2] - 1>>, MatVec2(m.P[a[2] - 1], x))
RECURSIVE DownTo(_, _, _)
DownTo(m, a, x) == IF a[1] = a[2] THEN x ELSE DownTo(m, <<a[1] + 1, a[2]>>, MatTVec(m.P[a[1]], x))
Want(t, m, e, x0, b) ==
  LET k == e.lev + 1
  IN CASE e.sop = "mult" -> LET y == MG(t, m, k, b) IN IF e.how \in {"add", "transadd"} THEN VLin(1, x0, e.fac, y) ELSE y
       [] e.sop = "from" -> VStep(m, k, b, x0)
       [] e.sop = "asm" -> IF e.single = 0 THEN VStep(m, k, b, x0)
                           ELSE IF e.back = 0 THEN Smooth(m, m.Sf, k, b, Coarse(m, k, b, x0))
                           ELSE Coarse(m, k, b, Smooth(m, m.Sb, k, b, x0))
       [] e.sop = "sub" -> IF k = m.n THEN MatVec2(m.C, b) ELSE IF k = 1 + t.emb THEN Cycle(m, t.vwb, k, b) ELSE VStep(m, k, b, V(m, k, b))
       [] e.sop = "cinv" -> UpTo(m, <<k, m.n>>, MatVec2(m.C, DownTo(m, <<k, m.n>>, b)))
       [] e.sop = "bf" -> UpTo(m, <<k, e.blev + 1>>, VUnit(NN(t.levels[e.blev + 1]), e.u * t.levels[e.blev + 1].bs + e.comp))
Apply(t, e) ==
  LET L == t.levels[e.lev + 1]
  IN IF ~(SameStat(t, L, e.x0st) /\ SameStat(t, L, e.b0st) /\ SameStat(t, L, e.r0st) /\ SameStat(t, L, e.x1st) /\ SameStat(t, L, e.b1st) /\ (e.ur = 1 => SameStat(t, L, e.r1st))) THEN {"Status"}
     ELSE LET m == Model(t)
              x0 == Val(t, L, e.x0, e.x0st)  b == Val(t, L, e.b0, e.b0st)  x1 == Val(t, L, e.x1, e.x1st)  b1 == Val(t, L, e.b1, e.b1st)
              want == Want(t, m, e, x0, b)
              scale == VLin(1, MaxAbs(want), 1, MaxAbs(b))
              r1 == Res(m, e.lev + 1, b, x1)
          IN {c \in {"Premise", "Result", "Residual", "RhsChanged", "Agree"} :
               ~CASE c = "Premise" -> /\ e.xz = 1 => VSame(x0, VZero(NN(L)))
                                      /\ e.ru = 1 => VClose(Val(t, L, e.r0, e.r0st), Res(m, e.lev + 1, b, x0), "1e-12", MaxAbs(b))
                  [] c = "Result" -> VClose(x1, want, T9, scale)
                  [] c = "Residual" -> e.ur = 1 => VClose(Val(t, L, e.r1, e.r1st), r1, T9, scale)
                  [] c = "RhsChanged" -> e.sop = "bf" \/ VClose(b1, b, "1e-12", 0)
                  [] c = "Agree" -> Agree(t, L, e.x1, e.x1st) /\ Agree(t, L, e.b1, e.b1st) /\ (e.ur = 1 => Agree(t, L, e.r1, e.r1st))}
\* a stationary solver whose step is one V-cycle: e.sv[r] is what rank r recorded
Nrm(v) == Root(Dot(v, v))
Solve1(t, e) ==
  LET L == t.levels[e.lev + 1]
      k == e.lev + 1
      a == Some(t, L)
      N == Len(e.sv[a].xs)
      m == Model(t)
      st(w, j) == [r \in Ranks(t) |-> IF L.act[r] = 1 THEN (IF w = "x" THEN e.sv[r].xst[j] ELSE e.sv[r].rst[j]) ELSE -1]
      loc(w, j) == [r \in Ranks(t) |-> IF L.act[r] = 1 THEN (IF w = "x" THEN e.sv[r].xs[j] ELSE e.sv[r].rs[j]) ELSE VZero(0)]
      ok == /\ SameStat(t, L, e.x0st) /\ SameStat(t, L, e.b0st) /\ SameStat(t, L, e.r0st) /\ SameStat(t, L, e.x1st) /\ SameStat(t, L, e.b1st) /\ SameStat(t, L, e.r1st)
            /\ N >= 1 /\ \A r \in Act(t, L) : Len(e.sv[r].xs) = N /\ Len(e.sv[r].rs) = N
            /\ \A j \in 1..N : SameStat(t, L, st("x", j)) /\ SameStat(t, L, st("r", j))
  IN IF ~ok THEN {"Status"}
     ELSE LET x0 == Val(t, L, e.x0, e.x0st)  b == Val(t, L, e.b0, e.b0st)  x1 == Val(t, L, e.x1, e.x1st)
              X == Tuple([j \in 1..N |-> Val(t, L, loc("x", j), st("x", j))], N, <<>>)
              R == Tuple([j \in 1..N |-> Val(t, L, loc("r", j), st("r", j))], N, <<>>)
              nr == Tuple([j \in 1..N |-> Nrm(R[j])], N, <<>>)
              scale == VLin(1, MaxAbs(X[N]), 1, MaxAbs(b))
              low == VLin(e.tol, nr[1], "-1e-9", nr[1])  high == VLin(e.tol, nr[1], "1e-9", nr[1])
              zero == e.init = 1 \/ e.how \in {"mult", "trans", "add", "transadd"}
              real == e.tol # "0"
              c == e.sv[a].conv
          IN {cl \in {"Premise", "Start", "StartResidual", "Iterates", "Residuals", "TooMany", "TooLong", "TooShort", "Converged", "Needed", "Errors", "Result", "Residual", "RhsChanged", "Agree", "SameReport"} :
               ~CASE cl = "Premise" -> /\ e.xz = 1 => zero \/ VSame(x0, VZero(NN(L)))
                                       /\ e.ru = 1 => VClose(Val(t, L, e.r0, e.r0st), Res(m, k, b, x0), "1e-12", MaxAbs(b))
                  [] cl = "Start" -> VClose(X[1], IF zero THEN VZero(NN(L)) ELSE x0, "1e-12", 0)
                  [] cl = "StartResidual" -> VClose(R[1], Res(m, k, b, X[1]), T9, scale)
                  [] cl = "Iterates" -> \A j \in 1..(N - 1) : VClose(X[j + 1], VStep(m, k, b, X[j]), T9, scale)
                  [] cl = "Residuals" -> \A j \in 2..N : VClose(R[j], Res(m, k, b, X[j]), T9, scale)
                  [] cl = "TooMany" -> N - 1 <= e.max
                  \* not a step after one that was clearly below the tolerance
                  [] cl = "TooLong" -> \A j \in 2..(N - 1) : ~(real /\ Less(nr[j], low))
                  [] cl = "TooShort" -> N - 1 = e.max \/ (real /\ N > 1 /\ Less(nr[N], high))
                  [] cl = "Converged" -> IF real /\ N > 1 /\ Less(nr[N], low) THEN c = 1 ELSE IF ~real \/ N = 1 \/ Less(high, nr[N]) THEN c = 0 ELSE c \in {0, 1}
                  [] cl = "Needed" -> c = 1 => e.sv[a].needed = N - 1
                  [] cl = "Errors" -> e.save = 1 => VLen(e.sv[a].errs) = N /\ VClose(e.sv[a].errs, FromCols(1, nr), T9, scale)
                  [] cl = "Result" -> VClose(x1, IF e.how \in {"add", "transadd"} THEN VLin(1, x0, e.fac, X[N]) ELSE X[N], T9, scale)
                  [] cl = "Residual" -> e.how = "res" => VClose(Val(t, L, e.r1, e.r1st), Res(m, k, b, x1), T9, scale)
                  [] cl = "RhsChanged" -> VClose(Val(t, L, e.b1, e.b1st), b, "1e-12", 0)
                  [] cl = "Agree" -> Agree(t, L, e.x1, e.x1st) /\ \A j \in 1..N : Agree(t, L, loc("x", j), st("x", j))
                  [] cl = "SameReport" -> \A r \in Act(t, L) : e.sv[r].conv = c /\ e.sv[r].needed = e.sv[a].needed /\ VClose(e.sv[r].errs, e.sv[a].errs, "1e-12", 0)}
\* what the recursion needs of its parts: everybody agrees on them, backward is the transpose of forward,
\* and then the cycle is symmetric
Setup(t, e) ==
  LET m == Model(t)
      Cyc == FromCols(NN(t.levels[1]), [u \in 1..NN(t.levels[1]) |-> MG(t, m, 1, VUnit(NN(t.levels[1]), u - 1))])
      n == NN(t.levels[1])
  IN {c \in {"PartsAgree", "Galerkin", "PartsTransposed", "Symmetric"} :
       ~CASE c = "PartsAgree" -> /\ \A k \in 1..(m.n - 1) : \A u \in 1..NN(t.levels[k]) : AgreeAll(t, t.levels[k], Col(t, t.levels[k], t.Sf[k], u)) /\ AgreeAll(t, t.levels[k], Col(t, t.levels[k], t.Sb[k], u))
                                 /\ t.hasC = 1 => \A u \in 1..NN(t.levels[m.n]) : AgreeAll(t, t.levels[m.n], Col(t, t.levels[m.n], t.C, u))
          [] c = "Galerkin" -> \A k \in 1..(m.n - 1) : LET f == NN(t.levels[k])  g == NN(t.levels[k + 1]) IN
                                 VClose(m.A[k + 1], MatMat(MatMat(Transp(f, m.P[k]), g, m.A[k], f), g, m.P[k], g), "1e-12", 0)
          [] c = "PartsTransposed" -> \A k \in 1..(m.n - 1) : VClose(m.Sb[k], Transp(NN(t.levels[k]), m.Sf[k]), T9, 0)
          [] c = "Symmetric" -> VClose(Cyc, Transp(n, Cyc), T9, 0)}
\* multigrid as a smoother called repeatedly with the same vectors and different flags: e.runs[v]
Flags(t, e) ==
  LET L == t.levels[e.lev + 1]
      S == 1..Len(e.runs)
      ok(v) == SameStat(t, L, v.x0st) /\ SameStat(t, L, v.b0st) /\ SameStat(t, L, v.r0st) /\ SameStat(t, L, v.x1st) /\ SameStat(t, L, v.b1st) /\ (v.ur = 1 => SameStat(t, L, v.r1st))
  IN IF ~ \A k \in S : ok(e.runs[k]) THEN {"Status"}
     ELSE LET A == SumMat(L, t.A[e.lev + 1], Len(t.A[e.lev + 1]))
              rs(b, x) == VLin(1, b, -1, MatVec2(A, x))
              val(v, f) == CASE f = "x0" -> Val(t, L, v.x0, v.x0st) [] f = "b0" -> Val(t, L, v.b0, v.b0st) [] f = "r0" -> Val(t, L, v.r0, v.r0st)
                             [] f = "x1" -> Val(t, L, v.x1, v.x1st) [] f = "b1" -> Val(t, L, v.b1, v.b1st) [] f = "r1" -> Val(t, L, v.r1, v.r1st)
              X0 == val(e.runs[1], "x0")  B0 == val(e.runs[1], "b0")  X1 == val(e.runs[1], "x1")
              scale == VLin(1, MaxAbs(X1), 1, VLin(1, MaxAbs(B0), 1, MaxAbs(X0)))
          IN {c \in {"Premise", "Iterate", "Residual", "RhsChanged", "Agree"} : \E k \in S :
               LET v == e.runs[k]
               IN ~CASE c = "Premise" -> /\ VSame(val(v, "x0"), X0) /\ VSame(val(v, "b0"), B0)
                                         /\ v.xz = 1 => VSame(X0, VZero(NN(L)))
                                         /\ v.ru = 1 => VClose(val(v, "r0"), rs(B0, X0), "1e-12", scale)
                    [] c = "Iterate" -> VClose(val(v, "x1"), X1, T9, scale)
                    [] c = "Residual" -> v.ur = 1 => VClose(val(v, "r1"), rs(B0, val(v, "x1")), T9, scale)
                    [] c = "RhsChanged" -> VClose(val(v, "b1"), B0, "1e-12", scale)
                    [] c = "Agree" -> Agree(t, L, v.x1, v.x1st) /\ (v.ur = 1 => Agree(t, L, v.r1, v.r1st))}
Clauses(t, e) == CASE e.op = "setup" -> Setup(t, e) [] e.op = "apply" -> Apply(t, e) [] e.op = "solve" -> Solve1(t, e) [] e.op = "flags" -> Flags(t, e)
                   [] e.op = "end" -> IF \A r \in Ranks(t) : e.ranks[r].open = 0 /\ e.ranks[r].stray = 0 THEN {} ELSE {"Quiet"}
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr], Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
