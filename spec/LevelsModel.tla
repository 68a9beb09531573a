---------------------------- MODULE LevelsModel ----------------------------
(* The set-up loop on several ranks.  In each round the ranks that are still in  *)
(* build one step together: coarsening offers some smaller or equal size, and    *)
(* redistribution may take ranks out.  A rank that is taken out has no coarse    *)
(* mesh, so it cannot judge the step itself; it learns the verdict from the vote *)
(* in which all ranks of the round take part (Vote).  Every rank keeps its own   *)
(* list of levels, <<size>>, with 0 standing for "not on this level".            *)
EXTENDS Levels, FiniteSets, TLC
CONSTANTS Ranks, NMax, MaxL, Vote
VARIABLES lev, in, run, lim, offer
vars == <<lev, in, run, lim, offer>>
Limits == [maxl : 1..MaxL, maxc : 0..2, minc : 0..2, fac : {0, 500, 900}]
Init == /\ lim \in Limits
        /\ \E n \in 2..NMax : lev = [r \in Ranks |-> <<n>>]
        /\ in = Ranks           \* ranks with a mesh on the current level
        /\ run = Ranks          \* ranks whose loop has not ended
        /\ offer = <<>>         \* sizes offered so far (kept for the invariant)
Cur == lev[CHOOSE r \in in : TRUE]
\* one round: the ranks of the current level act together
Step(c, keep) ==
  LET f == Cur[Len(Cur)]
      \* what a rank with a coarse mesh finds wrong; coarsening itself refuses c >= f and slow progress for all
      stuck == c >= f \/ (lim.fac # 0 /\ 1000 * c >= lim.fac * f)
      bad == c = 0 \/ c < lim.minc
      verdict(r) == IF Vote \/ r \in keep THEN bad ELSE FALSE
  IN IF stuck THEN run' = {} /\ UNCHANGED <<lev, in>>
     ELSE /\ lev' = [r \in Ranks |-> IF r \in in /\ ~verdict(r) THEN Append(lev[r], IF r \in keep THEN c ELSE 0) ELSE lev[r]]
          /\ in' = IF bad THEN in ELSE keep
          /\ run' = IF bad THEN {} ELSE {r \in keep : ~Done(lev'[r], lim)}
Next == /\ run # {}
        /\ \E c \in 0..Cur[Len(Cur)], keep \in SUBSET in :
             /\ keep # {}
             /\ Step(c, keep) /\ offer' = Append(offer, c)
        /\ UNCHANGED lim
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(run = {})
\* sizes of the levels of a rank that stays to the end
Whole == Cur
Agree == \A r \in Ranks : \A k \in 1..Len(lev[r]) : k <= Len(Whole) /\ lev[r][k] \in {0, Whole[k]}
OutOnce == \A r \in Ranks : \A k \in 1..(Len(lev[r]) - 1) : lev[r][k] # 0
Alive == \A r \in in : lev[r] = Whole
InLimits == Legal(Whole, lim)
\* the result is the one that the offers determine
Determined == run = {} => Whole = Build(<<Whole[1]>>, offer, lim)
Few == Len(Whole) <= MaxLevels(lim)
=============================================================================
