---------------------------- MODULE ClassesTrace -----------------------------
(* Conformance of EQCHierarchy: every trace holds the sharing pattern that was   *)
(* given to the real code and what every rank then says about its classes.       *)
(* A trace has one event per hierarchy that was built:                           *)
(*   [pat, np, cutunion, ranks : sequence over ranks of                          *)
(*     [n, dps, ids, master, ismaster, inv, merge, common, mergevalid, leq, all, *)
(*      own (unknowns held, in local order, 1-based), cls (their class)]]         *)
EXTENDS Classes, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)

ToSet(s) == Range(s)
RankSet(e) == 0..(e.np - 1)
Obs(e, r) == e.ranks[r + 1]
\* the set of members of the k-th class (0-based) as rank r sees it
Members(e, r, k) == ToSet(Obs(e, r).dps[k + 1]) \cup {r}
Idx(e, r) == 0..(Obs(e, r).n - 1)
ClassSet(e, r) == {Members(e, r, k) : k \in Idx(e, r)}
ObsList(e, r) == [k \in 1..Obs(e, r).n |-> Members(e, r, k - 1)]
Lookup(e, r, M) == IF M \in ClassSet(e, r) THEN CHOOSE k \in Idx(e, r) : Members(e, r, k) = M ELSE -1
Pat(e) == [u \in 1..Len(e.pat) |-> ToSet(e.pat[u])]
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

Shape(e) == \A r \in RankSet(e) : LET o == Obs(e, r) IN
    /\ o.n >= 0 /\ Len(o.dps) = o.n /\ Len(o.ids) = o.n /\ Len(o.master) = o.n /\ Len(o.ismaster) = o.n
    /\ Len(o.inv) = o.n /\ Len(o.merge) = o.n * o.n /\ Len(o.common) = o.n * o.n /\ Len(o.leq) = o.n * o.n
    /\ Len(o.cls) = Len(o.own)
    /\ \A k \in 1..o.n : Sorted(o.dps[k]) /\ r \notin ToSet(o.dps[k]) /\ ToSet(o.dps[k]) \subseteq RankSet(e)
Distinct(e) == \A r \in RankSet(e) : \A k, j \in Idx(e, r) : k # j => Members(e, r, k) # Members(e, r, j)
LocalFirst(e) == \A r \in RankSet(e) : Obs(e, r).n > 0 => Obs(e, r).dps[1] = <<>>
Covered(e) == \A r \in RankSet(e) : LET o == Obs(e, r) IN \A i \in 1..Len(o.own) :
                 o.cls[i] \in Idx(e, r) /\ Members(e, r, o.cls[i]) = Pat(e)[o.own[i]]
NoOther(e) == \A r \in RankSet(e) : LET nd == Needed(Pat(e), r) IN
                 IF e.cutunion = 0 THEN ClassSet(e, r) \subseteq (nd \cup {{r}}) /\ nd \subseteq ClassSet(e, r)
                 ELSE /\ nd \subseteq ClassSet(e, r)
                      /\ ClassSet(e, r) \subseteq Closure(AllClasses(Pat(e), RankSet(e)) \cup {{r}})
                      \* cuts are always there
                      /\ \A A, B \in ClassSet(e, r) : (A \cap B) \in ClassSet(e, r)
Mutual(e) == \A r \in RankSet(e) : \A M \in ClassSet(e, r) : \A q \in M : M \in ClassSet(e, q)
IdAgree(e) == \A r, q \in RankSet(e) : \A k \in Idx(e, r), j \in Idx(e, q) :
                 (Members(e, r, k) = Members(e, q, j)) <=> (Obs(e, r).ids[k + 1] = Obs(e, q).ids[j + 1])
IdInverse(e) == \A r \in RankSet(e) : \A k \in Idx(e, r) : Obs(e, r).inv[k + 1] = k
Masters(e) == \A r \in RankSet(e) : \A k \in Idx(e, r) :
                 /\ Obs(e, r).master[k + 1] = Min(Members(e, r, k))
                 /\ (Obs(e, r).ismaster[k + 1] = 1) <=> (r = Min(Members(e, r, k)))
SameOrder(e) == \A r, q \in RankSet(e) : r < q => With(ObsList(e, r), q) = With(ObsList(e, q), r)
Tables(e) == \A r \in RankSet(e) : LET o == Obs(e, r) IN \A k, j \in Idx(e, r) :
                 LET A == Members(e, r, k)  B == Members(e, r, j)  p == k * o.n + j + 1 IN
                 /\ o.merge[p] = Lookup(e, r, A \cup B)
                 /\ (o.mergevalid[p] = 1) <=> ((A \cup B) \in ClassSet(e, r))
                 /\ o.common[p] = Lookup(e, r, A \cap B)
                 /\ (o.leq[p] = 1) <=> (A \subseteq B)
Neighbours(e) == \A r \in RankSet(e) : LET o == Obs(e, r) IN
                 Sorted(o.all) /\ ToSet(o.all) = UNION {Members(e, r, k) : k \in Idx(e, r)} \ {r}
\* grouping of the unknowns by class keeps every unknown once, in its class, in ascending order
Grouping(e) == \A r \in RankSet(e) : LET o == Obs(e, r) IN
                 /\ Len(o.part) = o.n
                 /\ \A k \in 1..Len(o.part) : Sorted(o.part[k]) /\ \A i \in ToSet(o.part[k]) : o.cls[i + 1] = k - 1
                 /\ \A i \in 1..Len(o.own) : \E k \in 1..Len(o.part) : (i - 1) \in ToSet(o.part[k])
Quiet(e) == \A r \in RankSet(e) : Obs(e, r).open = 0 /\ Obs(e, r).stray = 0

Clauses(e) == IF ~Shape(e) THEN {"Shape"}
              ELSE {c \in {"Distinct", "LocalFirst", "Covered", "NoOther", "Mutual", "IdAgree", "IdInverse", "Masters",
                           "SameOrder", "Tables", "Neighbours", "Grouping", "Quiet"} :
                     ~CASE c = "Distinct" -> Distinct(e) [] c = "LocalFirst" -> LocalFirst(e) [] c = "Covered" -> Covered(e)
                        [] c = "NoOther" -> NoOther(e) [] c = "Mutual" -> Mutual(e) [] c = "IdAgree" -> IdAgree(e)
                        [] c = "IdInverse" -> IdInverse(e) [] c = "Masters" -> Masters(e) [] c = "SameOrder" -> SameOrder(e)
                        [] c = "Tables" -> Tables(e) [] c = "Neighbours" -> Neighbours(e) [] c = "Grouping" -> Grouping(e)
                        [] c = "Quiet" -> Quiet(e)}

Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
