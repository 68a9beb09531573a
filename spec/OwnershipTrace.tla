---------------------------- MODULE OwnershipTrace ----------------------------
(* Conformance of DCCMap: replays call sequences; after every call the entries   *)
(* and the status of the vector on every rank are compared with Ownership.       *)
EXTENDS Ownership, Json, IOUtils
VARIABLES tr, l, vecs, bufs
vars == <<tr, l, vecs, bufs>>
Traces == JsonDeserialize(IOEnv.TRACES)
ToSet(s) == {s[i] : i \in 1..Len(s)}
R(t) == 0..(t.np - 1)
PatOf(t) == [u \in 1..Len(t.pat) |-> ToSet(t.pat[u])]
LocOf(t, r, u) == CHOOSE i \in 1..Len(t.own[r + 1]) : t.own[r + 1][i] = u
\* who says it owns u on map m
Claims(t, m, u) == {r \in ToSet(t.pat[u]) : t.masters[m][r + 1][LocOf(t, r, u)] = 1}
OneOwner(t) == \A m \in 1..Len(t.masters) : \A u \in 1..Len(t.pat) : Cardinality(Claims(t, m, u)) = 1
OwnerOf(t, m) == [u \in 1..Len(t.pat) |-> CHOOSE r \in Claims(t, m, u) : TRUE]
\* the exchange lists of both sides name the same unknowns in the same order
ListsMatch(t) == \A m \in 1..Len(t.masters) : \A r \in R(t) : \A k \in 1..Len(t.nb[r + 1]) :
    LET q == t.nb[r + 1][k]
        kk == CHOOSE j \in 1..Len(t.nb[q + 1]) : t.nb[q + 1][j] = r
        G(p, lst) == [i \in 1..Len(lst) |-> t.nodes[p + 1][lst[i] + 1]] IN
    G(r, t.mex[m][r + 1][k]) = G(q, t.gex[m][q + 1][kk])

\* a vector from the observed local arrays
FromObs(t, e, s) == [val |-> [r \in R(t) |-> [u \in 1..Len(t.pat) |-> IF r \in ToSet(t.pat[u]) THEN e.ranks[r + 1].val[LocOf(t, r, u)] ELSE NoVal]], st |-> s]
Matches(t, e, vec) == \A r \in R(t) : /\ Len(e.ranks[r + 1].val) = Len(t.own[r + 1])
    /\ \A u \in 1..Len(t.pat) : r \in ToSet(t.pat[u]) => e.ranks[r + 1].val[LocOf(t, r, u)] = vec.val[r][u]
StatMatches(t, e, vec) == \A r \in R(t) : e.ranks[r + 1].st = vec.st

Zero(t) == [val |-> [r \in R(t) |-> [u \in 1..Len(t.pat) |-> IF r \in ToSet(t.pat[u]) THEN 0 ELSE NoVal]], st |-> 0]
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ vecs = [v \in 1..3 |-> Zero(Traces[tr])] /\ bufs = [m \in 1..2 |-> <<>>]

Reject(cl) == PrintT(<<"REJECT", tr, l, cl>>) /\ l' = -1 /\ UNCHANGED <<tr, vecs, bufs>>
Accept(v, nv, bs) == l' = l + 1 /\ vecs' = [vecs EXCEPT ![v] = nv] /\ bufs' = bs /\ UNCHANGED tr
Compare(t, e, nv, bs) == IF ~Matches(t, e, nv) THEN Reject({"Values"})
                         ELSE IF ~StatMatches(t, e, nv) THEN Reject({"Status"}) ELSE Accept(e.v, nv, bs)
Event(t, e) ==
  LET pat == PatOf(t) IN
  CASE e.op = "setd" -> Accept(e.v, FromObs(t, e, 0), bufs)
    [] e.op = "setc" -> Accept(e.v, FromObs(t, e, 1), bufs)
    [] e.op = "poke" -> LET w == vecs[e.v]
                            nv == [w EXCEPT !.val = [r \in R(t) |-> [u \in 1..Len(t.pat) |->
                                     IF r \in pat[u] THEN w.val[r][u] + e.add[r + 1][LocOf(t, r, u)] ELSE NoVal]]]
                        IN Compare(t, e, nv, bufs)
    [] e.op = "StartDIS2CO" -> LET x == StartD2C(pat, OwnerOf(t, e.m), vecs[e.v], R(t))
                               IN Compare(t, e, x.vec, [bufs EXCEPT ![e.m] = x.buf])
    [] e.op = "ApplyDIS2CO" -> Compare(t, e, ApplyD2C(pat, OwnerOf(t, e.m), vecs[e.v], bufs[e.m], R(t)), bufs)
    [] e.op \in {"FinishDIS2CO", "FinishCO2CU", "WaitD2C"} -> Compare(t, e, vecs[e.v], bufs)
    [] e.op = "StartCO2CU" -> Compare(t, e, vecs[e.v], [bufs EXCEPT ![e.m] = StartC2U(pat, OwnerOf(t, e.m), vecs[e.v], R(t))])
    [] e.op = "ApplyCO2CU" -> Compare(t, e, ApplyC2U(pat, OwnerOf(t, e.m), vecs[e.v], bufs[e.m], R(t)), bufs)
    [] e.op = "maps" -> IF ~OneOwner(t) THEN Reject({"OneOwner"}) ELSE IF ~ListsMatch(t) THEN Reject({"ListsMatch"})
                        ELSE l' = l + 1 /\ UNCHANGED <<tr, vecs, bufs>>
    [] e.op = "end" -> IF \A r \in R(t) : e.ranks[r + 1].open = 0 /\ e.ranks[r + 1].stray = 0 /\ e.ranks[r + 1].active = 0 /\ e.ranks[r + 1].restarted = 0
                       THEN l' = l + 1 /\ UNCHANGED <<tr, vecs, bufs>> ELSE Reject({"Quiet"})
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events) /\ Event(Traces[tr], Traces[tr].events[l])
        \/ /\ l = Len(Traces[tr].events) + 1 /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED <<tr, vecs, bufs>>
Spec == Init /\ [][Next]_vars
=============================================================================
