----------------------------- MODULE SplitModel -----------------------------
(* Splitting a distributed matrix A = sum_r A_r into the owner part M and the    *)
(* coupling part G, as the ranks do it: every rank sends, to each owner of       *)
(* unknowns it holds, its entries between unknowns of that owner; an owner adds   *)
(* what it receives to its own entries; entries between different owners stay.    *)
(* Linear in A, so one unit entry at a time: A_r0(u0, v0) = 1.                    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NRanks, NU
Ranks == 1..NRanks
U == 1..NU
VARIABLES pat, owner, unit, net, M, G, pc
vars == <<pat, owner, unit, net, M, G, pc>>
A(r, u, v) == IF unit = <<r, u, v>> THEN 1 ELSE 0
Both(r, u, v) == r \in pat[u] /\ r \in pat[v]
Zero == [r \in Ranks |-> [p \in U \X U |-> 0]]
Init == /\ pat \in [U -> SUBSET Ranks \ {{}}]
        /\ owner \in {o \in [U -> Ranks] : \A u \in U : o[u] \in pat[u]}
        /\ unit \in {t \in Ranks \X U \X U : t[1] \in pat[t[2]] /\ t[1] \in pat[t[3]]}
        /\ net = {} /\ M = Zero /\ G = Zero /\ pc = [r \in Ranks |-> "start"]
Neigh(r) == {q \in Ranks \ {r} : \E u \in U : {r, q} \subseteq pat[u]}
Mine(r) == {p \in U \X U : owner[p[1]] = r /\ owner[p[2]] = r}
Send(r) == /\ pc[r] = "start" /\ pc' = [pc EXCEPT ![r] = "recv"]
           /\ net' = net \cup {[from |-> r, to |-> q, e |-> [p \in {p \in Mine(q) : Both(r, p[1], p[2])} |-> A(r, p[1], p[2])]] : q \in Neigh(r)}
           /\ M' = [M EXCEPT ![r] = [p \in U \X U |-> IF p \in Mine(r) THEN A(r, p[1], p[2]) ELSE 0]]
           /\ G' = [G EXCEPT ![r] = [p \in U \X U |-> IF owner[p[1]] # owner[p[2]] THEN A(r, p[1], p[2]) ELSE 0]]
           /\ UNCHANGED <<pat, owner, unit>>
Recv(r) == /\ pc[r] = "recv"
           /\ \E m \in net : /\ m.to = r /\ net' = net \ {m}
                             /\ M' = [M EXCEPT ![r] = [p \in U \X U |-> @[p] + IF p \in DOMAIN m.e THEN m.e[p] ELSE 0]]
           /\ UNCHANGED <<pat, owner, unit, G, pc>>
\* a rank is done when it got one message per neighbour
Got(r) == {m \in net : m.to = r} = {} /\ \A q \in Neigh(r) : pc[q] # "start"
Finish(r) == pc[r] = "recv" /\ Got(r) /\ pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<pat, owner, unit, net, M, G>>
Done == \A r \in Ranks : pc[r] = "done"
Next == (\E r \in Ranks : Send(r) \/ Recv(r) \/ Finish(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E r \in Ranks : Send(r) \/ Recv(r) \/ Finish(r))
Sum(F(_)) == LET RECURSIVE s(_) s(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN F(x) + s(T \ {x}) IN s(Ranks)
\* nothing lost, nothing doubled
Same == Done => \A u, v \in U : Sum(LAMBDA r : M[r][<<u, v>>] + G[r][<<u, v>>]) = Sum(LAMBDA r : A(r, u, v))
OwnerPart == \A r \in Ranks : \A u, v \in U : M[r][<<u, v>>] # 0 => owner[u] = r /\ owner[v] = r
Full == Done => \A u, v \in U : owner[u] = owner[v] => M[owner[u]][<<u, v>>] = Sum(LAMBDA r : A(r, u, v))
Coupling == \A r \in Ranks : \A u, v \in U : G[r][<<u, v>>] # 0 => owner[u] # owner[v]
Ends == <>Done
=============================================================================
