---------------------------- MODULE LevelsTrace ----------------------------
(* Recorded set-ups of one problem under different limits.  The first set-up has *)
(* the loosest limits; its sizes are what coarsening offers for this problem, and *)
(* with them the specification determines the hierarchy under any other limits.  *)
(* e.lv[r][k]: level k as rank r has it (in: r takes part; nd, bs: unknowns here  *)
(* and their size; glob: unknowns of all; np, rank: the communicator; vec, mat,   *)
(* sm: lengths of a level vector, of the matrix and of the smoother).             *)
EXTENDS Levels, Integers, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, cand
vars == <<tr, l, cand>>
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ranks == 1..T.np
Part(e, k) == {r \in Ranks : Len(e.lv[r]) >= k /\ e.lv[r][k].in = 1}
Deep(e) == CHOOSE r \in Ranks : \A q \in Ranks : Len(SelectSeq(e.lv[q], LAMBDA x : x.in = 1)) <= Len(SelectSeq(e.lv[r], LAMBDA x : x.in = 1))
\* number of levels, and their sizes (vertices of the mesh of all ranks)
Num(e) == Len(SelectSeq(e.lv[Deep(e)], LAMBDA x : x.in = 1))
Sizes(e) == [k \in 1..Num(e) |-> IF k = 1 THEN T.nv ELSE e.lv[Deep(e)][k].glob]
Failed(e) == \E r \in Ranks : e.errs[r] # ""
\* all ranks report the same end
Together(e) == \/ \A r \in Ranks : e.errs[r] = "" /\ Len(e.lv[r]) > 0
               \/ \A r \in Ranks : e.errs[r] = "nolevels"
Agreed(e) == \A k \in 1..Num(e) :
               LET P == Part(e, k)
               IN /\ \A r, q \in P : e.lv[r][k].glob = e.lv[q][k].glob /\ e.lv[r][k].np = e.lv[q][k].np /\ e.lv[r][k].bs = e.lv[q][k].bs
                  /\ {e.lv[r][k].rank : r \in P} = 0..(Cardinality(P) - 1)
                  /\ \A r \in P : e.lv[r][k].np = Cardinality(P)
\* all start together, a rank that has left stays out and knows where it left
Leaving(e) == /\ Part(e, 1) = Ranks
              /\ \A r \in Ranks : LET s == e.lv[r] IN \A k \in 1..Len(s) : (s[k].in = 0 => k = Len(s) /\ k <= Num(e)) /\ (k = Len(s) /\ s[k].in = 1 => k = Num(e))
\* what belongs to one level fits together
Fitting(e) == \A r \in Ranks : \A k \in 1..Len(e.lv[r]) :
                LET q == e.lv[r][k]
                IN q.in = 0 \/ (q.nd >= 0 /\ q.nd <= q.glob /\ q.bs > 0 /\ q.mat = q.nd /\ q.vec = q.nd /\ (k < Num(e) => q.sm = q.nd) /\ (T.np = 1 => q.nd = q.glob))
RECURSIVE Total(_, _, _)
Total(e, k, R) == IF R = {} THEN 0 ELSE LET r == CHOOSE x \in R : TRUE IN e.lv[r][k].nd + Total(e, k, R \ {r})
Covered(e) == \A k \in 1..Num(e) : Total(e, k, Part(e, k)) >= e.lv[Deep(e)][k].glob
\* the table of levels that the preconditioner offers to its user, on every rank
Nd(e, q, k) == IF T.np > 1 /\ q = 1 THEN (IF e.lv[q][k].in = 1 THEN e.lv[q][k].glob ELSE 0) ELSE IF e.lv[q][k].in = 1 THEN e.lv[q][k].nd ELSE 0
Tables(e) == \A r, q \in Ranks : e.nlev[r][q] = Len(e.lv[q]) /\ Len(e.nds[r][q]) = e.nlev[r][q] /\ \A k \in 1..e.nlev[r][q] : e.nds[r][q][k] = Nd(e, q, k)
Wanted(e, c) == Build(<<T.nv>>, c, e.lim)
Judge(e, c) ==
  IF ~Together(e) THEN {"Together"}
  ELSE IF Failed(e) THEN (IF e.same = 1 /\ l > 1 /\ Len(Wanted(e, c)) > 1 THEN {"Missing"} ELSE {})
  ELSE LET ok(cl) == CASE cl = "Agreed" -> Agreed(e)
                       [] cl = "Leaving" -> Leaving(e)
                       [] cl = "Fitting" -> Fitting(e)
                       [] cl = "Covered" -> Covered(e)
                       [] cl = "Tables" -> Tables(e)
                       [] cl = "Coarse" -> Num(e) >= 2
                       [] cl = "Few" -> Num(e) <= MaxLevels(e.lim)
                       [] cl = "Legal" -> Legal(Sizes(e), e.lim)
                       [] cl = "Wanted" -> l = 1 \/ e.same = 0 \/ Sizes(e) = Wanted(e, c)
                       \* the operator of a connected body without mass coarsens to a single vertex unless a limit forbids
                       [] cl = "Complete" -> T.whole = 0 \/ l > 1 \/ Sizes(e)[Num(e)] = 1
       IN {cl \in {"Agreed", "Leaving", "Fitting", "Covered", "Tables", "Coarse", "Few", "Legal", "Wanted", "Complete"} : ~ok(cl)}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ cand = <<>>
Next == \/ /\ l > 0 /\ l <= Len(T.events)
           /\ LET e == T.events[l]
                  bad == Judge(e, cand)
              IN IF bad = {} THEN l' = l + 1 /\ cand' = IF l = 1 THEN (IF Failed(e) THEN <<>> ELSE Tail(Sizes(e))) ELSE cand
                 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1 /\ UNCHANGED cand
           /\ UNCHANGED tr
        \/ /\ l = Len(T.events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED <<tr, cand>>
Spec == Init /\ [][Next]_vars
=============================================================================
