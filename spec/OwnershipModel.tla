---------------------------- MODULE OwnershipModel ----------------------------
(* Design model: every rank runs Start/Apply/Finish of both exchanges at its own *)
(* pace, messages are in channels; all interleavings for every sharing pattern   *)
(* and owner map over Ranks with at most MaxU unknowns.  Shows that what each    *)
(* rank sees after a call does not depend on the interleaving (it is what the    *)
(* operators of Ownership say) and that no value is lost on the way.             *)
EXTENDS Ownership
CONSTANTS Ranks, MaxU
VARIABLES pat, owner, v0, st0, pc, val, ch
vars == <<pat, owner, v0, st0, pc, val, ch>>
U == 1..Len(pat)
Init == /\ pat \in UNION {[1..n -> {S \in SUBSET Ranks : Cardinality(S) > 1}] : n \in 1..MaxU}
        /\ owner \in {o \in [1..Len(pat) -> Ranks] : \A u \in 1..Len(pat) : o[u] \in pat[u]}
        /\ st0 \in {0, 1}
        /\ v0 = [val |-> [r \in Ranks |-> [u \in 1..Len(pat) |-> IF r \notin pat[u] THEN NoVal ELSE IF st0 = 1 THEN 7 * u ELSE 10 * u + r]], st |-> st0]
        /\ pc = [r \in Ranks |-> 1]
        /\ val = v0.val
        /\ ch = [r \in Ranks |-> [q \in Ranks |-> <<>>]]
Partners(r) == {q \in Ranks \ {r} : \E u \in U : {r, q} \subseteq pat[u]}
MyG(r, q) == {u \in U : {r, q} \subseteq pat[u] /\ owner[u] = q}      \* owned by q
ToOwner(r) == {q \in Partners(r) : MyG(r, q) # {}}
FromGhost(r) == {q \in Partners(r) : MyG(q, r) # {}}
\* 1 start d2c, 2 apply, 3 start c2u, 4 apply, 5 done
Start1(r) == /\ pc[r] = 1
             /\ ch' = IF st0 = 1 THEN ch ELSE [ch EXCEPT ![r] = [q \in Ranks |-> IF q \in ToOwner(r) THEN Append(@[q], [u \in MyG(r, q) |-> val[r][u]]) ELSE @[q]]]
             /\ val' = [val EXCEPT ![r] = [u \in U |-> IF r \in pat[u] /\ owner[u] # r THEN 0 ELSE @[u]]]
             /\ pc' = [pc EXCEPT ![r] = 2] /\ UNCHANGED <<pat, owner, v0, st0>>
Apply1(r) == /\ pc[r] = 2
             /\ IF st0 = 1 THEN UNCHANGED <<val, ch>> ELSE
                /\ \A q \in FromGhost(r) : ch[q][r] # <<>>
                /\ val' = [val EXCEPT ![r] = [u \in U |-> IF owner[u] = r THEN @[u] + SumOver(pat[u] \ {r}, LAMBDA q : Head(ch[q][r])[u]) ELSE @[u]]]
                /\ ch' = [q \in Ranks |-> [p \in Ranks |-> IF p = r /\ q \in FromGhost(r) THEN Tail(ch[q][p]) ELSE ch[q][p]]]
             /\ pc' = [pc EXCEPT ![r] = 3] /\ UNCHANGED <<pat, owner, v0, st0>>
Start2(r) == /\ pc[r] = 3
             /\ ch' = [ch EXCEPT ![r] = [q \in Ranks |-> IF q \in FromGhost(r) THEN Append(@[q], [u \in MyG(q, r) |-> val[r][u]]) ELSE @[q]]]
             /\ pc' = [pc EXCEPT ![r] = 4] /\ UNCHANGED <<pat, owner, v0, st0, val>>
Apply2(r) == /\ pc[r] = 4
             /\ \A q \in ToOwner(r) : ch[q][r] # <<>>
             /\ val' = [val EXCEPT ![r] = [u \in U |-> IF r \in pat[u] /\ owner[u] # r THEN Head(ch[owner[u]][r])[u] ELSE @[u]]]
             /\ ch' = [q \in Ranks |-> [p \in Ranks |-> IF p = r /\ q \in ToOwner(r) THEN Tail(ch[q][p]) ELSE ch[q][p]]]
             /\ pc' = [pc EXCEPT ![r] = 5] /\ UNCHANGED <<pat, owner, v0, st0>>
Done == \A r \in Ranks : pc[r] = 5
Next == (\E r \in Ranks : Start1(r) \/ Apply1(r) \/ Start2(r) \/ Apply2(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A r \in Ranks : WF_vars(Start1(r) \/ Apply1(r) \/ Start2(r) \/ Apply2(r))

S1 == StartD2C(pat, owner, v0, Ranks)
A1 == ApplyD2C(pat, owner, S1.vec, S1.buf, Ranks)
B2 == StartC2U(pat, owner, A1, Ranks)
A2 == ApplyC2U(pat, owner, A1, B2, Ranks)
After(k) == CASE k = 1 -> v0 [] k = 2 -> S1.vec [] k = 3 -> A1 [] k = 4 -> A1 [] k = 5 -> A2
Determined == \A r \in Ranks : \A u \in U : r \in pat[u] => val[r][u] = After(pc[r]).val[r][u]
\* nothing is lost, the exchange ends as it should
Conserved == /\ \A u \in U : Total(pat, A1, u) = Total(pat, v0, u) /\ Total(pat, A2, u) = Total(pat, v0, u)
             /\ Concentrated(pat, owner, A1) /\ AllSame(pat, A2)
Clean == Done => \A r, q \in Ranks : ch[r][q] = <<>>
Ends == <>Done
=============================================================================
