--------------------------- MODULE OperatorTrace ---------------------------
(* Recorded applications of one preconditioner on all ranks: the unit vectors in *)
(* turn (which gives the columns), then any sequence of applications.            *)
EXTENDS Operator, Integers, TLC, Json, IOUtils
VARIABLES tr, l, col
vars == <<tr, l, col>>
Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ranks == DOMAIN T.ids
N == T.n
\* ranks that hold unknowns
Part == {r \in Ranks : Len(T.ids[r]) > 0}
RECURSIVE Sum(_, _, _)
Sum(R, parts, acc) == IF R = {} THEN acc ELSE LET r == CHOOSE r \in R : TRUE IN Sum(R \ {r}, parts, VLin(1, acc, 1, Scatter(N, parts[r], T.ids[r], 1)))
RECURSIVE First(_, _, _)
First(R, parts, acc) == IF R = {} THEN acc ELSE LET r == CHOOSE r \in R : TRUE IN First(R \ {r}, parts, Put(acc, parts[r], T.ids[r], 1))
\* the vector behind the parts of the ranks
Whole(parts, st) == IF st = 0 THEN Sum(Part, parts, VZero(N)) ELSE First(Part, parts, VZero(N))
Agree(parts, st, s) == st = 0 \/ LET g == First(Part, parts, VZero(N)) IN \A r \in Part : VClose(Gather(g, T.ids[r], 1), parts[r], Tol, s)
St(e, f) == IF Part = {} THEN 1 ELSE e[f][CHOOSE r \in Part : TRUE]
Judge(e, c) ==
  LET yst == St(e, "yst")
      bst == St(e, "bst")
      y == Whole(e.y, yst)
      s == VLin(1, MaxAbs(y), 1, IF Known(c) THEN Scale(N, c) ELSE 0)
      ok(cl) == CASE cl = "Status" -> \A r \in Part : e.yst[r] = yst /\ e.bst[r] = bst /\ yst \in {0, 1} /\ (e.op \in {"mult", "trans", "expr"} => yst = 1)
                  [] cl = "Agree" -> Agree(e.y, yst, s)
                  [] cl = "Input" -> Agree(e.b, bst, 1) /\ VClose(Whole(e.b, bst), e.x, Tol, 1)
                  [] cl = "Result" -> Known(c) => LET want == Result(N, c, e.op, e.fac, e.x, e.x0)
                                                     IN VClose(VLin("1e6", y, 0, y), VLin("1e6", want, 0, want), Tol, VLin("1e6", s, 0, 0))
  IN {cl \in {"Status", "Agree", "Input", "Result"} : ~ok(cl)}
\* the answer to a unit vector that is given for the first time is the column
Learn(e, c) == IF e.unit >= 0 /\ e.op = "mult" /\ c[e.unit + 1] = <<>> THEN [c EXCEPT ![e.unit + 1] = Whole(e.y, St(e, "yst"))] ELSE c
ACol == [j \in 1..N |-> Whole(T.acol[j], IF Part = {} THEN 1 ELSE T.ast[CHOOSE r \in Part : TRUE])]
Properties(c) == {cl \in {"Symmetric", "Fixed", "Positive", "Contracts"} :
                    ~CASE cl = "Symmetric" -> Symmetric(N, c)
                       [] cl = "Fixed" -> ZeroThere(N, c, T.free)
                       [] cl = "Positive" -> Positive(N, c, T.free)
                       [] cl = "Contracts" -> T.contracts = 0 \/ Contracts(N, c, ACol, T.free)}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ col = [i \in 1..Traces[tr].n |-> <<>>]
Next == \/ /\ l > 0 /\ l <= Len(T.events)
           /\ LET e == T.events[l]
                  c == Learn(e, col)
                  bad == Judge(e, c) \cup (IF Known(c) /\ ~Known(col) THEN Properties(c) ELSE {})
              IN IF bad = {} THEN l' = l + 1 /\ col' = c ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1 /\ UNCHANGED col
           /\ UNCHANGED tr
        \/ /\ l = Len(T.events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED <<tr, col>>
Spec == Init /\ [][Next]_vars
=============================================================================
