------------------------------ MODULE MeshModel ------------------------------
(* Bounded model of Meshes.tla: every small mesh, every coarsening into           *)
(* connected groups and every merging of ranks, in any order.  What a sequence    *)
(* of steps leaves only depends on the composed vertex map and the composed       *)
(* owner map.  MeshGen writes the small meshes and groupings for replay.          *)
EXTENDS Meshes, TLC, Json, IOUtils, SequencesExt
CONSTANTS Ranks, N, Steps, Full
VARIABLES m0, m, F, R, n
vars == <<m0, m, F, R, n>>
Sets == SUBSET Ranks \ {{}}
SetNo == LET s == SetToSeq(Sets) IN [i \in 1..Len(s) |-> s[i]]
\* sharing patterns up to renumbering of the vertices
Pats == {[i \in 1..N |-> SetNo[f[i]]] : f \in {g \in [1..N -> 1..Len(SetNo)] : \A i \in 1..(N - 1) : g[i] <= g[i + 1]}}
Name(p, i) == <<p[i], i>>
Poss(p) == {e \in {{Name(p, i), Name(p, j)} : i, j \in 1..N} : Cardinality(e) = 2 /\ EHold(e) # {}}
EdgeSets(p) == IF Full THEN SUBSET Poss(p) ELSE {Poss(p)} \cup {Poss(p) \ {e} : e \in Poss(p)}
Weights(V, E) == [V |-> V, E |-> E, w |-> [a \in V |-> <<a[2] - 1, 2 * a[2]>>], ew |-> [e \in E |-> 1 + Sum(e, LAMBDA a : a[2] * a[2])]]
Init == /\ \E p \in Pats : \E E \in EdgeSets(p) : m0 = Weights({Name(p, i) : i \in 1..N}, E)
        /\ m = m0 /\ F = [a \in m0.V |-> a] /\ R = [r \in Ranks |-> r] /\ n = 0
\* group number of every vertex: 0 = dropped
Groupings(M) == LET s == SetToSeq(M.V) IN {[a \in M.V |-> f[CHOOSE i \in 1..Len(s) : s[i] = a]] : f \in {g \in [1..Len(s) -> 0..Len(s)] :
                   \A i \in 1..Len(s) : g[i] > 0 => (g[i] = 1 \/ \E j \in 1..(i - 1) : g[j] = g[i] - 1 \/ g[j] = g[i])}}
Coarsen == \E g \in Groupings(m) :
   LET mem(k) == {a \in m.V : g[a] = k}
       G == [a \in m.V |-> IF g[a] = 0 THEN None ELSE <<UNION {Hold(b) : b \in mem(g[a])}, g[a]>>]
       CV == CoarseV(m.V, G)  CE == CoarseE(m.E, G)
   IN /\ \A k \in {g[a] : a \in m.V} \ {0} : Connected(mem(k), m.E)
      /\ m' = [V |-> CV, E |-> CE, w |-> [c \in CV |-> CoarseVW(m.V, m.E, G, m.w, m.ew, c)], ew |-> [e \in CE |-> CoarseEW(m.E, G, m.ew, e)]]
      /\ F' = [a \in m0.V |-> IF F[a] = None THEN None ELSE G[F[a]]]
      /\ UNCHANGED R
Live == {R[r] : r \in Ranks}
Merges == {o \in [Live -> Live] : \A q \in Live : o[q] <= q /\ o[o[q]] = o[q]}
Merge == \E o \in Merges :
   LET num == LET s == SetToSeq(m.V) IN [a \in m.V |-> CHOOSE i \in 1..Len(s) : s[i] = a]
       G == [a \in m.V |-> <<MergedHold(o, a), num[a]>>]
       CV == {G[a] : a \in m.V}  CE == {Img(G, e) : e \in m.E}
   IN /\ m' = [V |-> CV, E |-> CE, w |-> [c \in CV |-> m.w[CHOOSE a \in m.V : G[a] = c]], ew |-> [c \in CE |-> m.ew[CHOOSE e \in m.E : Img(G, e) = c]]]
      /\ F' = [a \in m0.V |-> IF F[a] = None THEN None ELSE G[F[a]]]
      /\ R' = [r \in Ranks |-> o[R[r]]]
Next == n < Steps /\ n' = n + 1 /\ UNCHANGED m0 /\ (Coarsen \/ Merge)
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- what a sequence of steps leaves
Mesh == IsMesh(m.V, m.E) /\ DOMAIN m.w = m.V /\ DOMAIN m.ew = m.E
Onto == m.V = CoarseV(m0.V, F) /\ m.E = CoarseE(m0.E, F)
Pieces == \A c \in m.V : Connected(Members(m0.V, F, c), m0.E)
Holders == \A c \in m.V : Hold(c) = {R[r] : r \in CoarseHold(m0.V, F, c)}
\* whoever had an edge or part of one still has it (more ranks may: those that hold both ends now)
EdgeHolders == \A e \in m0.E : Img(F, e) \in m.E => {R[r] : r \in EHold(e)} \subseteq EHold(Img(F, e))
Numbers == /\ \A c \in m.V : m.w[c] = CoarseVW(m0.V, m0.E, F, m0.w, m0.ew, c)
           /\ \A e \in m.E : m.ew[e] = CoarseEW(m0.E, F, m0.ew, e)
Smaller == Cardinality(m.V) <= Cardinality(m0.V) /\ Cardinality(m.E) <= Cardinality(m0.E)
\* the owner of the lowest rank is the lowest of the owners (so the rank responsible for a vertex is one that was merged from it)
Lowest == \A q \in Live : R[q] = q
Inv == Mesh /\ Onto /\ Pieces /\ Holders /\ EdgeHolders /\ Numbers /\ Smaller /\ Lowest
\* ---------------------------------------------------------------- small meshes and groupings for replay
GroupSeq(o) == LET own == SortSeq(SetToSeq({o[q] : q \in Ranks}), <) IN [k \in 1..Len(own) |-> SortSeq(SetToSeq({q \in Ranks : o[q] = own[k]}), <)]
Owners == {o \in [Ranks -> Ranks] : \A q \in Ranks : o[q] <= q /\ o[o[q]] = o[q]}
GenInit == /\ JsonSerialize(IOEnv.OUT, SetToSeq({[pat |-> [i \in 1..N |-> SortSeq(SetToSeq(p[i]), <)], groups |-> SetToSeq({GroupSeq(o) : o \in Owners}),
                                                  edges |-> SetToSeq({SetToSeq({<<i, j>> \in (1..N) \X (1..N) : i < j /\ {Name(p, i), Name(p, j)} \in E}) : E \in EdgeSets(p)})] : p \in Pats}))
           /\ m0 = 0 /\ m = 0 /\ F = 0 /\ R = 0 /\ n = 0
GenNext == UNCHANGED vars
=============================================================================
