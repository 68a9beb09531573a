------------------------------- MODULE Levels -------------------------------
(* Which levels a hierarchy may have.  A hierarchy is the sequence of the sizes  *)
(* of its levels, the finest first; size = number of vertices of the mesh of all *)
(* ranks.  A limit record has the fields                                         *)
(*   maxl: largest number of levels (never fewer than two)                       *)
(*   maxc: no level follows one that is this small                               *)
(*   minc: no level is smaller than this                                         *)
(*   fac:  a level must be smaller than fac thousandths of the one before        *)
(*         (0: any reduction is good enough)                                     *)
EXTENDS Naturals, Sequences
MaxLevels(lim) == IF lim.maxl < 2 THEN 2 ELSE lim.maxl
\* the size c may follow the size f
Accept(f, c, lim) == c > 0 /\ c >= lim.minc /\ c < f /\ (lim.fac = 0 \/ 1000 * c < lim.fac * f)
\* the hierarchy s is not continued
Done(s, lim) == Len(s) > 1 /\ (Len(s) >= MaxLevels(lim) \/ s[Len(s)] <= lim.maxc)
\* s respects the limits: each step was allowed, and no step was taken after the end
Legal(s, lim) == \A k \in 1..(Len(s) - 1) : Accept(s[k], s[k + 1], lim) /\ ~Done(SubSeq(s, 1, k), lim)
\* the hierarchy made of s and then the sizes cand that coarsening offers, in turn
RECURSIVE Build(_, _, _)
Build(s, cand, lim) == IF Done(s, lim) \/ cand = <<>> THEN s
                       ELSE IF ~Accept(s[Len(s)], cand[1], lim) THEN s
                       ELSE Build(Append(s, cand[1]), Tail(cand), lim)
=============================================================================
