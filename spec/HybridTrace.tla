----------------------------- MODULE HybridTrace -----------------------------
(* Conformance of the hybrid splitting of a distributed matrix.  A trace holds    *)
(* the sharing pattern pat of the (scalar) unknowns, the local-to-global map own, *)
(* the owner flags, the local matrices A, M, G of all ranks (G may be absent) and *)
(* the products that were computed with the split matrix.                         *)
EXTENDS Matrices, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
ToSet(s) == {s[i] : i \in 1..Len(s)}
R(t) == 0..(t.np - 1)
NU(t) == Len(t.pat)
Held(t, r, u) == r \in ToSet(t.pat[u])
Loc(t, r, u) == CHOOSE i \in 1..Len(t.own[r + 1]) : t.own[r + 1][i] = u
OwnedBy(t, r) == {u \in ToSet(t.own[r + 1]) : t.master[r + 1][Loc(t, r, u)] = 1}
Owner(t) == LET o == [r \in R(t) |-> OwnedBy(t, r)] IN [u \in 1..NU(t) |-> CHOOSE r \in R(t) : u \in o[r]]
OneOwner(t) == LET o == [r \in R(t) |-> OwnedBy(t, r)] IN \A u \in 1..NU(t) : Cardinality({r \in R(t) : u \in o[r]}) = 1

\* global entries of a local matrix: a function on pairs of unknowns the rank holds, 0 elsewhere
Triples(t, r, m) == LET d == Dense(m) IN [p \in ToSet(t.own[r + 1]) \X ToSet(t.own[r + 1]) |-> d.e[Loc(t, r, p[1])][Loc(t, r, p[2])]]
None(m) == m.h = -1
Part(t, ms) == [r \in R(t) |-> IF None(ms[r + 1]) THEN <<>> ELSE Triples(t, r, ms[r + 1])]
At(f, u, v) == IF <<u, v>> \in DOMAIN f THEN f[<<u, v>>] ELSE 0
Total(t, P) == [u \in 1..NU(t) |-> [v \in 1..NU(t) |-> SumTo(t.np, LAMBDA k : At(P[k - 1], u, v))]]

Sum2(t, X, Y) == [u \in 1..NU(t) |-> [v \in 1..NU(t) |-> X[u][v] + Y[u][v]]]
SplitClauses(t) ==
  LET A == Total(t, Part(t, t.A))  M == Part(t, t.M)  G == Part(t, t.G)  o == Owner(t)
      SM == Total(t, M)  SG == Total(t, G)
      ok(c) == CASE c = "Shapes" -> \A r \in R(t) : /\ WellFormed(t.M[r + 1]) /\ t.M[r + 1].h * t.M[r + 1].bh = Len(t.own[r + 1])
                                                    /\ (None(t.G[r + 1]) \/ (WellFormed(t.G[r + 1]) /\ t.G[r + 1].h * t.G[r + 1].bh = Len(t.own[r + 1])))
                 [] c = "SameMatrix" -> \A u, v \in 1..NU(t) : SM[u][v] + SG[u][v] = A[u][v]
                 [] c = "OwnerPart" -> \A r \in R(t) : \A p \in DOMAIN M[r] : M[r][p] = IF o[p[1]] = r /\ o[p[2]] = r THEN A[p[1]][p[2]] ELSE 0
                 [] c = "CouplingPart" -> \A r \in R(t) : \A p \in DOMAIN G[r] : G[r][p] # 0 => o[p[1]] # o[p[2]]
                 [] c = "AgreeOnG" -> \A r \in R(t) : (t.gglob[r + 1] = 1) <=> (\E q \in R(t) : ~None(t.G[q + 1]))
  IN {c \in {"Shapes", "SameMatrix", "OwnerPart", "CouplingPart", "AgreeOnG"} : ~ok(c)}

\* ------------------------------------------------------------------ products
\* a vector as the ranks have it: val (local entries per rank) and status (0 distributed, 1 cumulated)
Same(t, val) == \A u \in 1..NU(t) : \A r, q \in ToSet(t.pat[u]) : val[r + 1][Loc(t, r, u)] = val[q + 1][Loc(t, q, u)]
ValOf(t, val, st) == [u \in 1..NU(t) |-> IF st = 1 THEN LET r == CHOOSE q \in ToSet(t.pat[u]) : TRUE IN val[r + 1][Loc(t, r, u)]
                                          ELSE SumTo(t.np, LAMBDA k : IF Held(t, k - 1, u) THEN val[k][Loc(t, k - 1, u)] ELSE 0)]
Prod(t, trans, x) == LET A == Total(t, Part(t, t.A)) IN [u \in 1..NU(t) |-> SumTo(NU(t), LAMBDA v : (IF trans THEN A[v][u] ELSE A[u][v]) * x[v])]
SameStat(s) == \A i \in 1..Len(s) : s[i] = s[1]
ProdClauses(t, e) ==
  IF ~SameStat(e.xst) \/ ~SameStat(e.yst) THEN {"Status"}
  ELSE LET x == ValOf(t, e.x0, e.x0st)  y0 == ValOf(t, e.y0, e.y0st)
           x1 == ValOf(t, e.x, e.xst[1])  y1 == ValOf(t, e.y, e.yst[1])
           Ax == Prod(t, e.v \in {2, 3}, x)
           want == [u \in 1..NU(t) |-> IF e.v \in {1, 3} THEN y0[u] + e.s * Ax[u] ELSE Ax[u]]
       IN (IF y1 = want THEN {} ELSE {"Product"}) \cup (IF x1 = x THEN {} ELSE {"InputChanged"})
          \cup (IF (e.xst[1] = 1 => Same(t, e.x)) /\ (e.yst[1] = 1 => Same(t, e.y)) THEN {} ELSE {"Agree"})
Clauses(t, e) == CASE e.op = "split" -> IF ~OneOwner(t) THEN {"OneOwner"} ELSE SplitClauses(t)
                   [] e.op = "product" -> ProdClauses(t, e)
                   [] e.op = "end" -> IF \A r \in R(t) : e.ranks[r + 1].open = 0 /\ e.ranks[r + 1].stray = 0 THEN {} ELSE {"Quiet"}
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr], Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
