------------------------------ MODULE MeshTrace ------------------------------
(* Behaviours of Meshes.tla against what every rank has: local vertices and     *)
(* edges, their classes and positions, maps of coarsening and redistribution    *)
(* steps, attached numbers.  The abstract mesh m is the state.                  *)
EXTENDS Meshes, TLC, Json, IOUtils
VARIABLES tr, l, m
vars == <<tr, l, m>>
Traces == JsonDeserialize(IOEnv.TRACES)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
\* ------------------------------------------------------------------ what rank r - 1 has of a mesh
Cls(d, r, c) == ToSet(d[r].dps[c + 1]) \cup {r - 1}
NameV(d, r, i) == <<Cls(d, r, d[r].vcls[i]), d[r].vpos[i]>>
EndV(d, r, k, j) == NameV(d, r, d[r].e[k][j] + 1)
Ends(d, r, k) == {EndV(d, r, k, 1), EndV(d, r, k, 2)}
In(d, r, k) == d[r].vcls[d[r].e[k][1] + 1] = d[r].vcls[d[r].e[k][2] + 1]
NameE(d, r, k) == <<Cls(d, r, d[r].ecls[k]), In(d, r, k), d[r].epos[k]>>
RS(d) == {r \in 1..Len(d) : d[r].act = 1}
VI(d) == UNION {{<<r, i>> : i \in 1..d[r].nv} : r \in RS(d)}
EI(d) == UNION {{<<r, k>> : k \in 1..d[r].ne} : r \in RS(d)}
\* holders of every node
At(d, a) == {x \in VI(d) : NameV(d, x[1], x[2]) = a}
Tables(d) == [v |-> [x \in VI(d) |-> NameV(d, x[1], x[2])], e |-> [x \in EI(d) |-> Ends(d, x[1], x[2])]]
Upto(n) == [i \in 1..n |-> i - 1]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
MeshBad(d, V, E) ==
  LET T == Tables(d) IN
  {c \in {"Vertices", "Edges", "EdgeOrder", "EdgeNames", "Rows", "Counts", "Idle"} :
    ~CASE c = "Vertices" -> \A r \in RS(d) : LET mine == {a \in V : r - 1 \in Hold(a)} IN {T.v[<<r, i>>] : i \in 1..d[r].nv} = mine /\ d[r].nv = Cardinality(mine)
       [] c = "Edges" -> \A r \in RS(d) : LET mine == {e \in E : r - 1 \in EHold(e)} IN {T.e[<<r, k>>] : k \in 1..d[r].ne} = mine /\ d[r].ne = Cardinality(mine)
       [] c = "EdgeOrder" -> \A x \in EI(d) : d[x[1]].e[x[2]][1] < d[x[1]].e[x[2]][2] /\ d[x[1]].eid[x[2]] = x[2] - 1
       [] c = "EdgeNames" -> LET N == {<<NameE(d, x[1], x[2]), EndV(d, x[1], x[2], 1), EndV(d, x[1], x[2], 2)>> : x \in EI(d)}
                             IN /\ Cardinality(N) = Cardinality(E) /\ Cardinality({n[1] : n \in N}) = Cardinality(E)
                                /\ \A n \in N : n[1][1] = EHold({n[2], n[3]})
       [] c = "Rows" -> \A r \in RS(d) : d[r].neqcs > 0 =>
                          /\ Flat(d[r].vrow) = Upto(d[r].nv) /\ Flat(d[r].erow) \o Flat(d[r].crow) = Upto(d[r].ne)
                          /\ \A k \in 1..d[r].neqcs : /\ d[r].env[k] = Len(d[r].vrow[k]) /\ d[r].ene[k] = Len(d[r].erow[k]) /\ d[r].cne[k] = Len(d[r].crow[k])
                                                      /\ \A i \in ToSet(d[r].vrow[k]) : d[r].vcls[i + 1] = k - 1
                                                      /\ \A i \in ToSet(d[r].erow[k]) \cup ToSet(d[r].crow[k]) : d[r].ecls[i + 1] = k - 1
       [] c = "Counts" -> \A r \in RS(d) : d[r].nvg = Cardinality(V) /\ d[r].neg = Cardinality(E)
       [] c = "Idle" -> \A r \in 1..Len(d) : (d[r].act = 0 \/ d[r].neqcs = 0) => d[r].nv = 0 /\ d[r].ne = 0}
\* ------------------------------------------------------------------ attached numbers: common values (status 1) or parts
ValV(d, f, a) == LET X == At(d, a) IN IF \E x \in X : d[x[1]].data.vst = 1 THEN LET x == CHOOSE x \in X : TRUE IN d[x[1]].data[f][x[2]] ELSE Sum(X, LAMBDA x : d[x[1]].data[f][x[2]])
AtE(d, e) == {x \in EI(d) : Ends(d, x[1], x[2]) = e}
ValE(d, e) == LET X == AtE(d, e) IN IF \E x \in X : d[x[1]].data.est = 1 THEN LET x == CHOOSE x \in X : TRUE IN d[x[1]].data.e[x[2]] ELSE Sum(X, LAMBDA x : d[x[1]].data.e[x[2]])
\* everybody has the same status and, if that is 1, the same values
DataSane(d) == /\ \A r, s \in RS(d) : d[r].data.vst = d[s].data.vst /\ d[r].data.est = d[s].data.est
               /\ \A r \in RS(d) : Len(d[r].data.v0) = d[r].nv /\ Len(d[r].data.v1) = d[r].nv /\ Len(d[r].data.e) = d[r].ne
DataAgree(d) == LET T == Tables(d) IN
                /\ \A x, y \in VI(d) : T.v[x] = T.v[y] /\ d[x[1]].data.vst = 1 => d[x[1]].data.v0[x[2]] = d[y[1]].data.v0[y[2]] /\ d[x[1]].data.v1[x[2]] = d[y[1]].data.v1[y[2]]
                /\ \A x, y \in EI(d) : T.e[x] = T.e[y] /\ d[x[1]].data.est = 1 => d[x[1]].data.e[x[2]] = d[y[1]].data.e[y[2]]
DataOK(d, V, E, w, ew) == DataSane(d) /\ DataAgree(d) /\ (\A a \in V : <<ValV(d, "v0", a), ValV(d, "v1", a)>> = w[a]) /\ (\A e \in E : ValE(d, e) = ew[e])
WOf(d, V) == [a \in V |-> <<ValV(d, "v0", a), ValV(d, "v1", a)>>]
EWOf(d, E) == [e \in E |-> ValE(d, e)]
\* ------------------------------------------------------------------ sums and spreading over all holders of a node
MinR(X) == CHOOSE x \in X : \A y \in X : x[1] <= y[1]
NodalOK(d) == LET T == Tables(d) IN
  \A nt \in {1, 2} :
    LET X == IF nt = 1 THEN VI(d) ELSE EI(d)  N == IF nt = 1 THEN T.v ELSE T.e IN
    \A x \in X : LET Y == {y \in X : N[y] = N[x]} IN
                 /\ d[x[1]].sum[nt][x[2]] = Sum(Y, LAMBDA y : d[y[1]].in[nt][y[2]])
                 /\ d[x[1]].sca[nt][x[2]] = LET y == MinR(Y) IN d[y[1]].in[nt][y[2]]
Nodal(t, d) == IF t.nodal = 1 /\ ~NodalOK(d) THEN {"Nodal"} ELSE {}
\* ------------------------------------------------------------------ building
GName(t, d, g) == LET x == CHOOSE x \in VI(d) : t.vg[x[1]][x[2]] = g IN NameV(d, x[1], x[2])
BuildBad(t, d) ==
  LET n == Len(t.pat)  G == [g \in 1..n |-> GName(t, d, g)]
      V == {G[g] : g \in 1..n}  E == {{G[t.edges[k][1]], G[t.edges[k][2]]} : k \in 1..Len(t.edges)} IN
  {c \in {"Names", "Own"} :
    ~CASE c = "Names" -> \A x \in VI(d) : NameV(d, x[1], x[2]) = G[t.vg[x[1]][x[2]]]
       [] c = "Own" -> /\ \A g \in 1..n : Hold(G[g]) = ToSet(t.pat[g]) /\ Cardinality(V) = n
                       /\ \A r \in 1..Len(d) : Distinct(t.vg[r]) /\ ToSet(t.vg[r]) = {g \in 1..n : r - 1 \in ToSet(t.pat[g])}}
  \cup MeshBad(d, V, E)
  \cup {c \in {"EdgeSort", "Neighbours"} :
    ~CASE c = "EdgeSort" -> \A r \in RS(d) : \A j \in 1..Len(t.listed[r]) : LET s == t.edges[t.listed[r][j]] IN d[r].neqcs > 0 => Ends(d, r, t.esort[r][j] + 1) = {G[s[1]], G[s[2]]}
       [] c = "Neighbours" -> \A r \in RS(d) : d[r].neqcs > 0 => \A i \in 1..d[r].nv :
             LET row == t.econ[r][i] IN
             /\ {<<row[2 * j - 1], row[2 * j]>> : j \in 1..(Len(row) \div 2)} = UNION {{<<d[r].e[k][3 - q], k - 1>> : q \in {p \in {1, 2} : d[r].e[k][p] = i - 1}} : k \in 1..d[r].ne}
             /\ \A j \in 1..(Len(row) \div 2 - 1) : row[2 * j - 1] < row[2 * j + 1]}
BuildMesh(t, d) == LET V == {GName(t, d, g) : g \in 1..Len(t.pat)}
                       E == {{GName(t, d, t.edges[k][1]), GName(t, d, t.edges[k][2])} : k \in 1..Len(t.edges)}
                   IN [V |-> V, E |-> E, w |-> WOf(d, V), ew |-> EWOf(d, E)]
\* ------------------------------------------------------------------ coarsening: d before, c after, s the step on every rank
To(c, s, x) == LET i == s[x[1]].vmap[x[2]] IN IF i = -1 THEN None ELSE IF i < 0 \/ i >= c[x[1]].nv THEN <<{-1}, i>> ELSE NameV(c, x[1], i + 1)
CrsMap(d, c, s, V) == [a \in V |-> To(c, s, CHOOSE x \in VI(d) : NameV(d, x[1], x[2]) = a)]
\* maps to parts and back
BackOf(map, back, n) == /\ Len(back) = n /\ \A i \in 1..n : Distinct(back[i])
                        /\ \A j \in 1..n : ToSet(back[j]) = {i - 1 : i \in {q \in 1..Len(map) : map[q] = j - 1}}
CrsBad(t, d, c, s, prev, free, M) ==
  LET V == M.V  E == M.E  T == Tables(d)
      F == CrsMap(d, c, s, V)  CV == CoarseV(V, F)  CE == CoarseE(E, F)
      G == [a \in V |-> None]
      fixed == {T.v[x] : x \in {y \in VI(d) : Len(free) > 0 /\ free[t.vg[y[1]][y[2]]] = 0}}
      pre == {q \in {"Agree", "Fixed", "Dropped", "Holders", "Connected", "Fewer"} :
        ~CASE q = "Agree" -> \A x \in VI(d) : To(c, s, x) = F[T.v[x]]
           [] q = "Fixed" -> \A x \in VI(d) : (Len(free) > 0 /\ free[t.vg[x[1]][x[2]]] = 0) => s[x[1]].vmap[x[2]] = -1
           [] q = "Dropped" -> \A a \in V \ fixed : F[a] = None => M.w[a][1] > 0 \/ \A e \in E : a \notin e
           [] q = "Holders" -> \A g \in CV : Hold(g) = CoarseHold(V, F, g)
           [] q = "Connected" -> \A g \in CV : Connected(Members(V, F, g), E)
           [] q = "Fewer" -> Cardinality(CV) <= Cardinality(V)}
  IN IF pre # {} THEN pre
     ELSE LET mb == MeshBad(c, CV, CE) IN IF mb # {} THEN mb
     ELSE {q \in {"EdgeMap", "Sizes", "Back", "Centre", "Concat", "Before", "Weights"} :
        ~CASE q = "EdgeMap" -> \A x \in EI(d) : LET g == Img(F, T.e[x])  j == s[x[1]].emap[x[2]] IN
                                  IF None \in g \/ Cardinality(g) = 1 THEN j = -1 ELSE j >= 0 /\ j < c[x[1]].ne /\ Ends(c, x[1], j + 1) = g
           [] q = "Sizes" -> \A r \in RS(d) : s[r].nn = <<d[r].nv, c[r].nv, d[r].ne, c[r].ne>>
           [] q = "Back" -> \A r \in RS(d) : BackOf(s[r].vmap, s[r].c2fv, c[r].nv) /\ BackOf(s[r].emap, s[r].c2fe, c[r].ne)
           [] q = "Centre" -> \A g \in CV : LET X == {T.v[x] : x \in {y \in VI(d) : s[y[1]].center[y[2]] = 1 /\ F[T.v[y]] = g}} IN Cardinality(X) = 1 /\ \A a \in X : Hold(a) = Hold(g)
           [] q = "Concat" -> \A r \in RS(d) : s[r].hasprev = 1 =>
                                 /\ \A i \in 1..Len(s[r].cv) : s[r].cv[i] = (IF prev[r].vmap[i] = -1 THEN -1 ELSE s[r].vmap[prev[r].vmap[i] + 1])
                                 /\ Len(s[r].cv) = Len(prev[r].vmap) /\ Len(s[r].ce) = Len(prev[r].emap)
                                 /\ \A i \in 1..Len(s[r].ce) : s[r].ce[i] = (IF prev[r].emap[i] = -1 THEN -1 ELSE s[r].emap[prev[r].emap[i] + 1])
                                 /\ s[r].cnn = <<prev[r].nn[1], c[r].nv, prev[r].nn[3], c[r].ne>>
           [] q = "Before" -> DataOK([r \in 1..Len(d) |-> IF d[r].act = 1 THEN [d[r] EXCEPT !.data = s[r].after] ELSE d[r]], V, E, M.w, M.ew)
           [] q = "Weights" -> DataOK(c, CV, CE, [g \in CV |-> CoarseVW(V, E, F, M.w, M.ew, g)], [g \in CE |-> CoarseEW(E, F, M.ew, g)])}
CrsMesh(d, c, s, M) ==
  LET V == M.V  E == M.E  F == CrsMap(d, c, s, V)  CV == CoarseV(V, F)  CE == CoarseE(E, F)
  IN [V |-> CV, E |-> CE, w |-> [g \in CV |-> CoarseVW(V, E, F, M.w, M.ew, g)], ew |-> [g \in CE |-> CoarseEW(E, F, M.ew, g)]]
\* ------------------------------------------------------------------ redistribution
Pos(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x
GroupOf(gs, q) == CHOOSE k \in 1..Len(gs) : q \in ToSet(gs[k])
Owner(gs, q) == gs[GroupOf(gs, q)][1]
\* vertex i of rank x[1]: where the first of the group says it is now
CtrTo(c, s, gs, x) == LET o == Owner(gs, x[1] - 1)  i == s[o + 1].vmaps[Pos(gs[GroupOf(gs, x[1] - 1)], x[1] - 1)][x[2]]
                      IN IF i < 0 \/ i >= c[o + 1].nv THEN None ELSE NameV(c, o + 1, i + 1)
CtrMap(d, c, s, gs, V) == [a \in V |-> CtrTo(c, s, gs, CHOOSE x \in VI(d) : NameV(d, x[1], x[2]) = a)]
CtrBad(t, d, c, s, M) ==
  LET V == M.V  E == M.E  T == Tables(d)  act == {r - 1 : r \in RS(d)}
      gs == s[1 + CHOOSE r \in act : TRUE].groups
      gp == {q \in {"Groups"} : ~(/\ \A r \in act : s[r + 1].groups = gs
                                  /\ UNION {ToSet(gs[k]) : k \in 1..Len(gs)} = act /\ Sum(1..Len(gs), LAMBDA k : Len(gs[k])) = Cardinality(act)
                                  /\ \A r \in act : /\ s[r + 1].master = (IF Owner(gs, r) = r THEN 1 ELSE 0) /\ s[r + 1].group = gs[GroupOf(gs, r)]
                                                    /\ Len(s[r + 1].procmap) = Cardinality(act) /\ \A z \in act : s[r + 1].procmap[1 + Cardinality({h \in act : h < z})] = GroupOf(gs, z) - 1
                                                    /\ c[r + 1].act = s[r + 1].master
                                                    /\ s[r + 1].master = 1 => Len(s[r + 1].vmaps) = Len(gs[GroupOf(gs, r)]) /\ Len(s[r + 1].emaps) = Len(gs[GroupOf(gs, r)])
                                                          /\ \A j \in 1..Len(s[r + 1].vmaps) : LET h == s[r + 1].group[j] + 1 IN Len(s[r + 1].vmaps[j]) = d[h].nv /\ Len(s[r + 1].emaps[j]) = d[h].ne)}
        \* groups by the partitioner: every rank in one of at most n groups, in ascending order, an idle rank 0 stays alone
      pb == {q \in {"Partition"} : ~(\A r \in act : s[r + 1].metis > 0 =>
                                     /\ Len(gs) <= s[r + 1].metis /\ \A k \in 1..Len(gs) : gs[k] # <<>> /\ \A i \in 1..(Len(gs[k]) - 1) : gs[k][i] < gs[k][i + 1]
                                     /\ \A k \in 1..(Len(gs) - 1) : gs[k][1] < gs[k + 1][1]
                                     /\ t.idle = 1 => gs[1] = <<0>>)}
  IN IF gp \cup pb # {} THEN gp \cup pb
     ELSE LET F == CtrMap(d, c, s, gs, V)  CV == {F[a] : a \in V}  CE == {Img(F, e) : e \in E}
              pre == {q \in {"Agree", "Holders", "OneToOne"} :
                ~CASE q = "Agree" -> \A x \in VI(d) : CtrTo(c, s, gs, x) = F[T.v[x]]
                   [] q = "Holders" -> \A a \in V : Hold(F[a]) = {Owner(gs, r) : r \in Hold(a)}
                   [] q = "OneToOne" -> Cardinality(CV) = Cardinality(V)}
          IN IF pre # {} THEN pre
             ELSE LET mb == MeshBad(c, CV, CE) IN IF mb # {} THEN mb
             ELSE {q \in {"EdgeMap", "Flips", "Data", "Status", "Other"} :
                ~CASE q = "EdgeMap" -> \A x \in EI(d) : LET o == Owner(gs, x[1] - 1) + 1  k == s[o].emaps[Pos(s[o].group, x[1] - 1)][x[2]] IN
                                          k >= 0 /\ k < c[o].ne /\ Ends(c, o, k + 1) = Img(F, T.e[x])
                   [] q = "Flips" -> \A x \in EI(d) : LET o == Owner(gs, x[1] - 1) + 1  j == Pos(s[o].group, x[1] - 1) IN
                                          Len(s[o].flips) > 0 => s[o].flips[j][x[2]] = (IF F[EndV(d, x[1], x[2], 1)] = EndV(c, o, s[o].emaps[j][x[2]] + 1, 1) THEN 0 ELSE 1)
                   [] q = "Data" -> DataOK(c, CV, CE, [g \in CV |-> M.w[CHOOSE a \in V : F[a] = g]], [g \in CE |-> M.ew[CHOOSE e \in E : Img(F, e) = g]])
                   [] q = "Status" -> \A r \in RS(c) : c[r].data.vst = s[r].vst /\ c[r].data.est = s[r].est
                   [] q = "Other" -> \A k \in 1..Len(s[1 + CHOOSE r \in act : TRUE].extra) :
                        LET X(r) == s[r].extra[k]  nt == X(1 + CHOOSE r \in act : TRUE).nt  st == X(1 + CHOOSE r \in act : TRUE).st
                            N == IF nt = 0 THEN T.v ELSE T.e  I == IF nt = 0 THEN VI(d) ELSE EI(d)
                            C == Tables(c)  CN == IF nt = 0 THEN C.v ELSE C.e  CI == IF nt = 0 THEN VI(c) ELSE EI(c)
                            Im(n) == IF nt = 0 THEN F[n] ELSE Img(F, n)
                            val == [n \in {N[x] : x \in I} |-> LET Y == {x \in I : N[x] = n} IN
                                      IF st = 1 THEN LET y == CHOOSE y \in Y : TRUE IN X(y[1]).in[y[2]] ELSE Sum(Y, LAMBDA y : X(y[1]).in[y[2]])]
                            new == [g \in {CN[x] : x \in CI} |-> LET Y == {x \in CI : CN[x] = g} IN
                                      IF st = 1 THEN LET y == CHOOSE y \in Y : TRUE IN X(y[1]).out[y[2]] ELSE Sum(Y, LAMBDA y : X(y[1]).out[y[2]])]
                        IN /\ \A r \in RS(c) : Len(X(r).out) = (IF nt = 0 THEN c[r].nv ELSE c[r].ne)
                           /\ \A r \in RS(d) \ RS(c) : Len(X(r).out) = 0
                           /\ \A n \in DOMAIN val : new[Im(n)] = val[n]
                           /\ st = 1 => \A x, y \in CI : CN[x] = CN[y] => X(x[1]).out[x[2]] = X(y[1]).out[y[2]]}
CtrMesh(d, c, s, M) == LET gs == s[CHOOSE r \in RS(d) : TRUE].groups  F == CtrMap(d, c, s, gs, M.V)  CV == {F[a] : a \in M.V}  CE == {Img(F, e) : e \in M.E}
                       IN [V |-> CV, E |-> CE, w |-> [g \in CV |-> M.w[CHOOSE a \in M.V : F[a] = g]], ew |-> [g \in CE |-> M.ew[CHOOSE e \in M.E : Img(F, e) = g]]]
\* ------------------------------------------------------------------ a mesh that was sent
SentBad(e) == IF \A f \in {"neqcs", "nv", "ne", "nvg", "neg", "vcls", "vpos", "ecls", "epos", "eid", "e", "env", "ene", "cne", "vrow", "erow", "crow"} : e.from[f] = e.to[f] THEN {} ELSE {"Sent"}
\* ------------------------------------------------------------------ behaviours
\* what is judged: C10 coarsening; C11 building, redistributing and sending meshes and their numbers
Judged == IF IOEnv.PROPERTY = "C10" THEN {"crs", "end"} ELSE {"build", "ctr", "sent", "end"}
Bad(t, e) == CASE e.op = "build" -> LET b == BuildBad(t, e.d) IN IF b # {} THEN b ELSE (IF DataSane(e.d) /\ DataAgree(e.d) THEN {} ELSE {"Data"}) \cup Nodal(t, e.d)
               [] e.op = "crs" -> CrsBad(t, e.d, e.c, e.s, e.prev, e.free, m)
               [] e.op = "ctr" -> CtrBad(t, e.d, e.c, e.s, m) \cup Nodal(t, e.c)
               [] e.op = "sent" -> SentBad(e)
               [] e.op = "end" -> IF \A r \in 1..Len(e.ranks) : e.ranks[r].open = 0 /\ e.ranks[r].stray = 0 THEN {} ELSE {"Quiet"}
After(t, e) == CASE e.op = "build" -> BuildMesh(t, e.d) [] e.op = "crs" -> CrsMesh(e.d, e.c, e.s, m) [] e.op = "ctr" -> CtrMesh(e.d, e.c, e.s, m) [] OTHER -> m
NoMesh == [V |-> {}, E |-> {}, w |-> <<>>, ew |-> <<>>]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ m = NoMesh
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET t == Traces[tr]  e == t.events[l]  bad == Bad(t, e)
              IN IF bad = {} THEN l' = l + 1 /\ m' = After(t, e)
                 ELSE (IF e.op \in Judged THEN PrintT(<<"REJECT", tr, l, bad>>) ELSE PrintT(<<"ACCEPT", tr>>)) /\ l' = -1 /\ m' = NoMesh
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ m' = NoMesh /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
\* the state is a mesh
Mesh == IsMesh(m.V, m.E) /\ DOMAIN m.w = (IF m = NoMesh THEN {} ELSE m.V)
=============================================================================
