------------------------------- MODULE Meshes -------------------------------
(* A mesh of vertices and edges that is spread over ranks.  A vertex is a name *)
(* <<H, p>>: H is the set of ranks that hold it, p its number among the        *)
(* vertices with these holders.  An edge is a set of two vertices; it is held  *)
(* by every rank that holds both of them.  Vertices and edges carry numbers.   *)
(*   Coarse: a map F from vertices to vertices of another mesh or to None.     *)
(*   Merge:  the ranks of a group give everything to the first of them.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
None == <<{}, 0>>
Hold(a) == a[1]
EHold(e) == {r \in UNION {Hold(a) : a \in e} : \A a \in e : r \in Hold(a)}
IsMesh(V, E) == /\ \A a \in V : Hold(a) # {}
                /\ \A e \in E : e \subseteq V /\ Cardinality(e) = 2 /\ EHold(e) # {}
Sum(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
Img(F, e) == {F[a] : a \in e}
\* ---- coarsening ----
Members(V, F, c) == {a \in V : F[a] = c}
CoarseV(V, F) == {F[a] : a \in V} \ {None}
CoarseE(E, F) == {Img(F, e) : e \in {x \in E : None \notin Img(F, x) /\ Cardinality(Img(F, x)) = 2}}
RECURSIVE Reach(_, _, _)
Reach(S, M, E) == LET N == {b \in M \ S : \E e \in E : b \in e /\ e \cap S # {}} IN IF N = {} THEN S ELSE Reach(S \cup N, M, E)
Connected(M, E) == M = {} \/ Reach({CHOOSE a \in M : TRUE}, M, {e \in E : e \subseteq M}) = M
CoarseHold(V, F, c) == UNION {Hold(a) : a \in Members(V, F, c)}
\* numbers of the coarse mesh: sums; edges to dropped vertices count for the vertex
Ground(E, F, c) == {e \in E : None \in Img(F, e) /\ c \in Img(F, e)}
CoarseVW(V, E, F, w, ew, c) == <<Sum(Members(V, F, c), LAMBDA a : w[a][1]) + Sum(Ground(E, F, c), LAMBDA e : ew[e]), Sum(Members(V, F, c), LAMBDA a : w[a][2])>>
CoarseEW(E, F, ew, g) == Sum({e \in E : Img(F, e) = g}, LAMBDA e : ew[e])
\* ---- redistribution: Owner[r] the rank that r gives its part to ----
MergedHold(Owner, a) == {Owner[r] : r \in Hold(a)}
=============================================================================
