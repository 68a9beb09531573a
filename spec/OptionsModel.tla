---------------------------- MODULE OptionsModel ----------------------------
(* A few option objects and every sequence of things done with them: made,       *)
(* copied, assigned, read from flags, or-combined.  Behaviours are written out   *)
(* and replayed with the real objects.                                           *)
EXTENDS Options, FiniteSets, TLC, Json
CONSTANTS Objs, Vals, MaxList, MaxOps, BoolOnly
VARIABLES obj, hist, done
vars == <<obj, hist, done>>
None == [gen |-> "none", list |-> <<>>]
Lists == UNION {[1..n -> Vals] : n \in 0..MaxList}
ULists == UNION {[1..n -> Vals \cup {"?"}] : n \in 0..MaxList}
Made == {i \in Objs : obj[i] # None}
Do(i, o, rec) == /\ obj' = [obj EXCEPT ![i] = o] /\ hist' = Append(hist, rec) /\ UNCHANGED done
Ready == ~done /\ Len(hist) < MaxOps
Make == \E i \in Objs : \E g \in Vals : \E l \in Lists : \E h \in 0..2 : Ready /\ Do(i, Opt(g, l), [op |-> "make", i |-> i, gen |-> g, list |-> l, how |-> h])
ReadOp == \E i \in Made : \E u \in [hasgen : BOOLEAN, gen : Vals \cup {"?"}, haslist : BOOLEAN, list : ULists] : \E h \in 0..1 :
   Ready /\ Do(i, Read(obj[i], u), [op |-> "read", i |-> i, u |-> u, how |-> h])
Copy == \E i \in Objs : \E j \in Made : \E h \in 0..1 : Ready /\ i # j /\ Do(i, obj[j], [op |-> "copy", i |-> i, j |-> j, how |-> h])
Assign == \E i, j \in Made : \E h \in 0..1 : Ready /\ Do(i, obj[j], [op |-> "assign", i |-> i, j |-> j, how |-> h])
AssignDefault == \E i \in Made : \E g \in Vals : Ready /\ Do(i, Opt(g, <<>>), [op |-> "default", i |-> i, gen |-> g])
Combine == \E i, j \in Made : Ready /\ BoolOnly /\ Do(i, Or(obj[i], obj[j]), [op |-> "or", i |-> i, j |-> j])
Write == ~done /\ Len(hist) = MaxOps /\ PrintT(<<"BEHAVIOUR", ToJson(hist)>>) /\ done' = TRUE /\ UNCHANGED <<obj, hist>>
Init == obj = [i \in Objs |-> None] /\ hist = <<>> /\ done = FALSE
Next == Make \/ ReadOp \/ Copy \/ Assign \/ AssignDefault \/ Combine \/ Write
Spec == Init /\ [][Next]_vars
\* a user's value counts on every level it was given for, and nothing else changes
Levels == 0..(MaxList + 1)
Last == hist'[Len(hist')]
UserWins == [][hist' # hist /\ Last.op = "read" =>
   LET u == Last.u  o == obj[Last.i]  n == obj'[Last.i]
       general == IF u.hasgen /\ u.gen # "?" THEN u.gen ELSE o.gen
   IN \A k \in Levels :
      /\ u.haslist /\ k < Len(u.list) /\ u.list[k + 1] # "?" => At(n, k) = u.list[k + 1]
      /\ u.haslist /\ k < Len(u.list) /\ u.list[k + 1] = "?" => At(n, k) = general
      /\ u.haslist /\ k >= Len(u.list) => At(n, k) = general
      /\ ~u.haslist /\ u.hasgen => At(n, k) = general
      /\ ~u.haslist /\ ~u.hasgen => At(n, k) = At(o, k)]_vars
OrWise == [][hist' # hist /\ Last.op = "or" => \A k \in Levels : At(obj'[Last.i], k) = BOr(At(obj[Last.i], k), At(obj[Last.j], k))]_vars
Copies == [][hist' # hist /\ Last.op \in {"copy", "assign"} => \A k \in Levels : At(obj'[Last.i], k) = At(obj[Last.j], k)]_vars
Others == [][hist' # hist => \A m \in Objs : m # Last.i => obj'[m] = obj[m]]_vars
\* a key sets one thing in every table
Keys == \A t \in {Table.vertex, Table.pc, Table.stokes} : \A a, b \in 1..Len(t) : a # b => t[a].k # t[b].k
ASSUME Keys
ASSUME PrintT(<<"TABLE", ToJson(Table)>>)
=============================================================================
