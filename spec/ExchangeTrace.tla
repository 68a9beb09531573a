---------------------------- MODULE ExchangeTrace ----------------------------
(* Conformance of the collective exchanges on classes of shared unknowns         *)
(* (ReduceTable, ScatterEqcData, ScatterEQCData, ScatterEQCArray, GatherEQCData, *)
(* MyAllReduceDofData, ExchangePairWise, tables sent between ranks).             *)
(* A trace is a sequence of collective operations on one hierarchy; an event     *)
(* carries for every rank its classes (as distant members), its input and its    *)
(* output.  The specification says what the output of every rank has to be.      *)
EXTENDS Classes, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)

RankSet(t) == 0..(t.np - 1)
Cls(t, r, k) == Range(t.dps[r + 1][k]) \cup {r}            \* k 1-based
NCls(t, r) == Len(t.dps[r + 1])
Pos(t, r, M) == CHOOSE k \in 1..NCls(t, r) : Cls(t, r, k) = M
In(e, r) == e.ranks[r + 1].in
Out(e, r) == e.ranks[r + 1].out
RowIn(t, e, r, M) == In(e, r)[Pos(t, r, M)]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

\* the two reductions that the harness uses (both depend on the order of the rows)
Concat(rows) == Cat(Map(rows, LAMBDA x : <<-1>> \o x))
FirstEven(rows) == IF Len(rows[1]) > 0 /\ rows[1][1] % 2 = 0 THEN Cat(rows) ELSE <<>>

ReduceOk(t, e, Red(_)) == \A r \in RankSet(t) : /\ Len(Out(e, r)) = NCls(t, r)
    /\ \A k \in 1..NCls(t, r) : LET M == Cls(t, r, k) IN
         Out(e, r)[k] = Red(Map(SortSet(M), LAMBDA q : RowIn(t, e, q, M)))

\* rows with a class each: the i-th row of a class on one member belongs to the i-th row on the others
RowsOf(t, e, r, M) == SelectSeq([i \in 1..Len(In(e, r)) |-> i], LAMBDA i : e.ranks[r + 1].rcls[i] = Pos(t, r, M) - 1)
ReduceRowsOk(t, e) == \A r \in RankSet(t) : /\ Len(Out(e, r)) = Len(In(e, r))
    /\ \A i \in 1..Len(In(e, r)) : LET M == Cls(t, r, e.ranks[r + 1].rcls[i] + 1)
                                       mine == RowsOf(t, e, r, M)
                                       n == CHOOSE j \in 1..Len(mine) : mine[j] = i IN
         Out(e, r)[i] = Concat(Map(SortSet(M), LAMBDA q : In(e, q)[RowsOf(t, e, q, M)[n]]))

ScatterOk(t, e) == \A r \in RankSet(t) : /\ Len(Out(e, r)) = NCls(t, r)
    /\ \A k \in 1..NCls(t, r) : Out(e, r)[k] = RowIn(t, e, Min(Cls(t, r, k)), Cls(t, r, k))

\* the master gets its own row followed by the others' rows, and where each of them begins
RECURSIVE Offsets(_, _)
Offsets(rows, o) == IF rows = <<>> THEN <<o>> ELSE <<o>> \o Offsets(Tail(rows), o + Len(Head(rows)))
GatherOk(t, e, withind) == \A r \in RankSet(t) : /\ Len(Out(e, r)) = NCls(t, r)
    /\ \A k \in 1..NCls(t, r) : LET M == Cls(t, r, k)  rows == Map(SortSet(M), LAMBDA q : RowIn(t, e, q, M)) IN
         IF r = Min(M) THEN /\ Out(e, r)[k] = Cat(rows)
                            /\ withind => e.ranks[r + 1].ind[k] = Offsets(rows, 0)
         ELSE Out(e, r)[k] = In(e, r)[k]

\* values per unknown: t.pat[u] = holders of unknown u, t.own[r + 1] = unknowns of rank r in local order
Val(t, e, r, u) == In(e, r)[CHOOSE i \in 1..Len(t.own[r + 1]) : t.own[r + 1][i] = u]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Horner(_, _)
Horner(s, a) == IF s = <<>> THEN a ELSE Horner(Tail(s), 10 * a + Head(s))
DofsOk(t, e, ordered) == \A r \in RankSet(t) : /\ Len(Out(e, r)) = Len(t.own[r + 1])
    /\ \A i \in 1..Len(t.own[r + 1]) : LET u == t.own[r + 1][i]
                                           holders == SortSet(Range(t.pat[u]))
                                           vals == Map(holders, LAMBDA q : Val(t, e, q, u)) IN
         Out(e, r)[i] = IF Len(vals) = 1 THEN vals[1] ELSE IF ordered THEN Horner(vals, 0) ELSE Sum(vals)

\* one row per neighbour
PairOk(t, e) == \A r \in RankSet(t) : LET nb == e.ranks[r + 1].nb IN
    /\ Len(Out(e, r)) = Len(nb)
    /\ \A k \in 1..Len(nb) : LET q == nb[k] IN
         Out(e, r)[k] = In(e, q)[CHOOSE j \in 1..Len(e.ranks[q + 1].nb) : e.ranks[q + 1].nb[j] = r]

SendOk(t, e) == Out(e, e.to) = In(e, e.from)
BcastOk(t, e) == \A r \in RankSet(t) : Out(e, r) = In(e, e.from)

Result(t, e) == CASE e.op = "reduce_concat" -> ReduceOk(t, e, Concat)
                  [] e.op = "reduce_empty" -> ReduceOk(t, e, FirstEven)
                  [] e.op = "reduce_rows" -> ReduceRowsOk(t, e)
                  [] e.op \in {"scatter_table", "scatter_eqc_data", "scatter_eqc_array"} -> ScatterOk(t, e)
                  [] e.op = "gather" -> GatherOk(t, e, TRUE)
                  [] e.op = "gather2" -> GatherOk(t, e, FALSE)
                  [] e.op = "allreduce_dofs" -> DofsOk(t, e, FALSE)
                  [] e.op = "allreduce_dofs_order" -> DofsOk(t, e, TRUE)
                  [] e.op \in {"exchange0", "exchange1", "exchange2"} -> PairOk(t, e)
                  [] e.op = "send_table" -> SendOk(t, e)
                  [] e.op = "bcast_table" -> BcastOk(t, e)
Quiet(t, e) == e.op # "end" \/ \A r \in RankSet(t) : e.ranks[r + 1].open = 0 /\ e.ranks[r + 1].stray = 0 /\ e.ranks[r + 1].active = 0
Clauses(t, e) == IF e.op = "end" THEN (IF Quiet(t, e) THEN {} ELSE {"Quiet"})
                 ELSE IF Result(t, e) THEN {} ELSE {"Result"}

Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr], Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
