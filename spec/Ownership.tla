------------------------------ MODULE Ownership -------------------------------
(* Vectors on shared unknowns and their exchange with the owners (DCCMap).       *)
(* pat[u]: holders of unknown u; owner[u]: the holder that owns it.              *)
(* A vector is a function rank -> unknown -> value together with its status:     *)
(* 0 distributed (the value of an unknown is the sum over its holders),          *)
(* 1 cumulated (every holder has the value).  "Concentrated" is the distributed  *)
(* state in which only the owner's part is non-zero.                             *)
(* An exchange object carries at most one exchange: buf is what was taken at its *)
(* start.  The operators say what each call does on every rank together.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SumOver(S, F(_)) == LET RECURSIVE Sum(_)
                        Sum(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN F(x) + Sum(T \ {x})
                    IN Sum(S)
NoVal == -999999
Held(pat, r) == {u \in DOMAIN pat : r \in pat[u]}

\* vec: [val : rank -> unknown -> Int, st]     buf: rank -> unknown -> Int   (what non-owners sent)
StartD2C(pat, owner, vec, ranks) ==
  [vec |-> [val |-> [r \in ranks |-> [u \in DOMAIN pat |-> IF r \in pat[u] /\ r # owner[u] THEN 0 ELSE vec.val[r][u]]], st |-> 0],
   buf |-> [r \in ranks |-> [u \in DOMAIN pat |-> IF r \in pat[u] /\ r # owner[u] /\ vec.st = 0 THEN vec.val[r][u] ELSE 0]]]
ApplyD2C(pat, owner, vec, buf, ranks) ==
  [vec EXCEPT !.val = [r \in ranks |-> [u \in DOMAIN pat |->
       IF r \in pat[u] /\ r = owner[u] THEN vec.val[r][u] + SumOver(pat[u] \ {r}, LAMBDA q : buf[q][u]) ELSE vec.val[r][u]]]]
StartC2U(pat, owner, vec, ranks) ==
  [r \in ranks |-> [u \in DOMAIN pat |-> IF r \in pat[u] /\ r = owner[u] THEN vec.val[r][u] ELSE 0]]
ApplyC2U(pat, owner, vec, buf, ranks) ==
  IF vec.st = 1 THEN vec ELSE
  [val |-> [r \in ranks |-> [u \in DOMAIN pat |-> IF r \in pat[u] /\ r # owner[u] THEN buf[owner[u]][u] ELSE vec.val[r][u]]], st |-> 1]
\* the value an unknown has, in any state
Total(pat, vec, u) == IF vec.st = 1 THEN vec.val[CHOOSE r \in pat[u] : TRUE][u] ELSE SumOver(pat[u], LAMBDA r : vec.val[r][u])
Concentrated(pat, owner, vec) == vec.st = 0 /\ \A u \in DOMAIN pat : \A r \in pat[u] \ {owner[u]} : vec.val[r][u] = 0
AllSame(pat, vec) == vec.st = 1 /\ \A u \in DOMAIN pat : \A r \in pat[u] : \A q \in pat[u] : vec.val[r][u] = vec.val[q][u]
=============================================================================
