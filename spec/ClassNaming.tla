----------------------------- MODULE ClassNaming ------------------------------
(* Design model of the naming of classes: every rank lists its classes in the    *)
(* canonical order, the master (smallest member) of a class takes the next free  *)
(* number of its range (ranges from a prefix sum over all ranks) and sends it to *)
(* the other members on the channel between the two ranks, one message per class *)
(* in list order; the others take the numbers off the channel in THEIR list      *)
(* order.  All interleavings, for every sharing pattern over Ranks with at most  *)
(* MaxU unknowns.  The invariants are clauses of property C01.                   *)
EXTENDS Classes
CONSTANTS Ranks, MaxU
VARIABLES pat, pos, next, ids, chan
vars == <<pat, pos, next, ids, chan>>

Patterns == UNION {[1..n -> (SUBSET Ranks) \ {{}}] : n \in 1..MaxU}
List(r) == ListOf(Needed(pat, r), r)
NP == Max(Ranks) + 1
NMaster(p, r) == Cardinality({M \in Needed(p, r) : Cardinality(M) > 1 /\ r = Min(M)})
RECURSIVE Before(_, _)
Before(p, r) == IF r = Min(Ranks) THEN 0 ELSE Before(p, r-1) + NMaster(p, r-1)

Init == /\ pat \in Patterns
        /\ pos = [r \in Ranks |-> 1]
        /\ next = [r \in Ranks |-> NP + Before(pat, r)]
        /\ ids = [r \in Ranks |-> <<>>]
        /\ chan = [r \in Ranks |-> [q \in Ranks |-> <<>>]]

Step(r) == /\ pos[r] <= Len(List(r))
           /\ LET M == List(r)[pos[r]] IN
              /\ IF M = {r}
                 THEN ids' = [ids EXCEPT ![r] = Append(@, r)] /\ UNCHANGED <<next, chan>>
                 ELSE IF r = Min(M)
                 THEN /\ ids' = [ids EXCEPT ![r] = Append(@, next[r])]
                      /\ next' = [next EXCEPT ![r] = @ + 1]
                      /\ chan' = [chan EXCEPT ![r] = [q \in Ranks |-> IF q \in M \ {r} THEN Append(@[q], next[r]) ELSE @[q]]]
                 ELSE /\ Len(chan[Min(M)][r]) > 0
                      /\ ids' = [ids EXCEPT ![r] = Append(@, Head(chan[Min(M)][r]))]
                      /\ chan' = [chan EXCEPT ![Min(M)][r] = Tail(@)]
                      /\ UNCHANGED next
              /\ pos' = [pos EXCEPT ![r] = @ + 1]
           /\ UNCHANGED pat

Done == \A r \in Ranks : pos[r] > Len(List(r))
Next == (\E r \in Ranks : Step(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A r \in Ranks : WF_vars(Step(r))

IdOf(r, M) == ids[r][CHOOSE k \in 1..Len(List(r)) : List(r)[k] = M]
Named(r) == {List(r)[k] : k \in 1..(pos[r]-1)}
SameOrder == \A r, q \in Ranks : With(List(r), q) = With(List(q), r)
Agree == \A r, q \in Ranks : \A M \in Named(r) \cap Named(q) : IdOf(r, M) = IdOf(q, M)
Unique == \A r, q \in Ranks : \A M \in Named(r), K \in Named(q) : M # K => IdOf(r, M) # IdOf(q, K)
Clean == Done => \A r, q \in Ranks : chan[r][q] = <<>>
Finishes == <>Done
=============================================================================
