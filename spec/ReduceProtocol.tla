---------------------------- MODULE ReduceProtocol ----------------------------
(* Design model of a reduction on classes: the members send their rows to the    *)
(* master (one message per pair of ranks that carries the rows of all classes    *)
(* they have in common, preceded by a message with the sizes), the master reduces*)
(* and sends the result back.  Channels between two ranks are FIFO, receives are *)
(* posted per sender, and all interleavings are explored for every sharing       *)
(* pattern over Ranks with at most MaxU unknowns and every choice of row lengths *)
(* in 0..MaxLen.  Invariants: every member ends with the same row, the reduction *)
(* in ascending order of the members; nothing is left in a channel; no deadlock. *)
EXTENDS Classes
CONSTANTS Ranks, MaxU, MaxLen
VARIABLES pat, len, ph, chan, got, res
vars == <<pat, len, ph, chan, got, res>>
Patterns == UNION {[1..n -> {S \in (SUBSET Ranks) : Cardinality(S) > 1}] : n \in 1..MaxU}
List(r) == ListOf(Needed(pat, r), r)
Shared(r, q) == With(List(r), q)                       \* classes in common, in list order
ToMaster(r, m) == SelectSeq(Shared(r, m), LAMBDA M : Min(M) = m)
Row(r, M) == [i \in 1..len[r] |-> <<r, M, i>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RowsTo(r, m) == Cat([i \in 1..Len(ToMaster(r, m)) |-> Row(r, ToMaster(r, m)[i])])
SizesTo(r, m) == [i \in 1..Len(ToMaster(r, m)) |-> len[r]]
Lower(r) == {m \in Ranks : m < r /\ ToMaster(r, m) # <<>>}
Higher(r) == {q \in Ranks : q > r /\ ToMaster(q, r) # <<>>}

Init == /\ pat \in Patterns /\ len \in [Ranks -> 0..MaxLen]
        /\ ph = [r \in Ranks |-> "gather"]
        /\ chan = [r \in Ranks |-> [q \in Ranks |-> <<>>]]
        /\ got = [r \in Ranks |-> [q \in Ranks |-> <<>>]]
        /\ res = [r \in Ranks |-> <<>>]
Put(c, r, q, msgs) == [c EXCEPT ![r][q] = @ \o msgs]
RECURSIVE PutAll(_, _, _, _)
PutAll(c, r, Q, F) == IF Q = {} THEN c ELSE LET q == Min(Q) IN PutAll(Put(c, r, q, F[q]), r, Q \ {q}, F)

\* send sizes and, if there are any, data to all masters
SendUp(r) == /\ ph[r] = "gather"
             /\ chan' = PutAll(chan, r, Lower(r), [m \in Lower(r) |-> <<SizesTo(r, m)>> \o (IF RowsTo(r, m) = <<>> THEN <<>> ELSE <<RowsTo(r, m)>>)])
             /\ ph' = [ph EXCEPT ![r] = "collect"] /\ UNCHANGED <<pat, len, got, res>>
Expected(r, q) == IF got[r][q] = <<>> THEN 1
                  ELSE IF Cat(got[r][q][1]) = <<>> /\ \A i \in 1..Len(got[r][q][1]) : got[r][q][1][i] = 0 THEN 1 ELSE 2
Total(s) == IF \A i \in 1..Len(s) : s[i] = 0 THEN 0 ELSE 1
Complete(r, q) == Len(got[r][q]) >= 1 /\ Len(got[r][q]) = 1 + Total(got[r][q][1])
Collect(r, q) == /\ ph[r] = "collect" /\ q \in Higher(r) /\ ~Complete(r, q)
                 /\ chan[q][r] # <<>>
                 /\ got' = [got EXCEPT ![r][q] = Append(@, Head(chan[q][r]))]
                 /\ chan' = [chan EXCEPT ![q][r] = Tail(@)]
                 /\ UNCHANGED <<pat, len, ph, res>>
\* the part of q's data that belongs to class M (q's rows all have length len[q], which r learns from the sizes)
PartOf(r, q, M) == LET k == CHOOSE i \in 1..Len(ToMaster(q, r)) : ToMaster(q, r)[i] = M
                       n == got[r][q][1][k] IN
                   IF n = 0 THEN <<>> ELSE SubSeq(got[r][q][2], (k - 1) * n + 1, k * n)
Reduced(r, M) == Cat([i \in 1..Cardinality(M) |-> LET q == SortSet(M)[i] IN IF q = r THEN Row(r, M) ELSE PartOf(r, q, M)])
DownTo(r, q) == LET ms == ToMaster(q, r) IN
                <<[i \in 1..Len(ms) |-> Len(Reduced(r, ms[i]))]>>
                \o (LET d == Cat([i \in 1..Len(ms) |-> Reduced(r, ms[i])]) IN IF d = <<>> THEN <<>> ELSE <<d>>)
SendDown(r) == /\ ph[r] = "collect" /\ \A q \in Higher(r) : Complete(r, q)
               /\ chan' = PutAll(chan, r, Higher(r), [q \in Higher(r) |-> DownTo(r, q)])
               /\ ph' = [ph EXCEPT ![r] = "final"]
               /\ got' = [got EXCEPT ![r] = [q \in Ranks |-> <<>>]]
               /\ res' = [res EXCEPT ![r] = [M \in {List(r)[i] : i \in 1..Len(List(r))} |->
                              IF M = {r} THEN Row(r, M) ELSE IF Min(M) = r THEN Reduced(r, M) ELSE <<>>]]
               /\ UNCHANGED <<pat, len>>
TakeDown(r, m) == /\ ph[r] = "final" /\ m \in Lower(r) /\ ~Complete(r, m)
                  /\ chan[m][r] # <<>>
                  /\ got' = [got EXCEPT ![r][m] = Append(@, Head(chan[m][r]))]
                  /\ chan' = [chan EXCEPT ![m][r] = Tail(@)]
                  /\ UNCHANGED <<pat, len, ph, res>>
RECURSIVE Before(_, _)
Before(s, k) == IF k = 1 THEN 0 ELSE s[k - 1] + Before(s, k - 1)
FromMaster(r, M) == LET m == Min(M)  k == CHOOSE i \in 1..Len(ToMaster(r, m)) : ToMaster(r, m)[i] = M
                        s == got[r][m][1] IN
                    IF s[k] = 0 THEN <<>> ELSE SubSeq(got[r][m][2], Before(s, k) + 1, Before(s, k) + s[k])
Finish(r) == /\ ph[r] = "final" /\ \A m \in Lower(r) : Complete(r, m)
             /\ ph' = [ph EXCEPT ![r] = "done"]
             /\ res' = [res EXCEPT ![r] = [M \in DOMAIN @ |-> IF Min(M) < r THEN FromMaster(r, M) ELSE @[M]]]
             /\ UNCHANGED <<pat, len, chan, got>>
Done == \A r \in Ranks : ph[r] = "done"
Next == \/ \E r \in Ranks : SendUp(r) \/ SendDown(r) \/ Finish(r)
        \/ \E r, q \in Ranks : Collect(r, q) \/ TakeDown(r, q)
        \/ (Done /\ UNCHANGED vars)
Fair == \A r \in Ranks : /\ WF_vars(SendUp(r)) /\ WF_vars(SendDown(r)) /\ WF_vars(Finish(r))
                         /\ \A q \in Ranks : WF_vars(Collect(r, q)) /\ WF_vars(TakeDown(r, q))
Spec == Init /\ [][Next]_vars /\ Fair
Right == Done => \A r \in Ranks : \A M \in DOMAIN res[r] :
            res[r][M] = Cat([i \in 1..Cardinality(M) |-> Row(SortSet(M)[i], M)])
Clean == Done => \A r, q \in Ranks : chan[r][q] = <<>>
Ends == <>Done
=============================================================================
