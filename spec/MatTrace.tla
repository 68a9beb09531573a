----------------------------- MODULE MatTrace -----------------------------
(* Conformance of the sparse matrix algebra: every operation on sparse matrices *)
(* has to give a well-formed sparse matrix with the entries of the corresponding *)
(* dense operation.  Operators to be made sparse are given as expression trees.  *)
EXTENDS Matrices, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
Range(s) == {s[i] : i \in 1..Len(s)}

\* the value of an operator expression
RECURSIVE D(_)
D(x) == CASE x.k = "leaf" -> Dense(x.m)
          [] x.k = "T" -> Trans(D(x.a))
          [] x.k = "mul" -> Mul(D(x.a), D(x.b))
          [] x.k = "sum" -> Lin(1, D(x.a), 1, D(x.b))
          [] x.k = "id" -> Ident(x.n)
          [] x.k = "embed" -> Embed(D(x.a), x.off, x.h)
          [] x.k = "block" -> Blocks(x.hs, x.ws, [k \in 1..Len(x.hs) |-> [j \in 1..Len(x.ws) |-> IF x.b[k][j].k = "none" THEN Zero(0, 0) ELSE D(x.b[k][j])]])

Abs(v) == IF v < 0 THEN -v ELSE v
AbsSum(v) == SumTo(Len(v), LAMBDA k : Abs(v[k]))
\* entries whose mean absolute value is above the threshold t/2 stay, the others go
Keeps(m, i, j, t2) == Has(m, i, j) /\ 2 * AbsSum(Entry(m, i, j)) > t2 * m.bh * m.bw
SameShape(o, m) == o.h = m.h /\ o.w = m.w /\ o.bh = m.bh /\ o.bw = m.bw
CompressOk(m, t2, o) == /\ SameShape(o, m)
    /\ \A i \in 1..m.h : \A j \in 1..m.w : /\ Has(o, i, j) <=> Keeps(m, i, j, t2)
                                           /\ Has(o, i, j) => Entry(o, i, j) = Entry(m, i, j)
\* rows in a block keep the columns of that block only, other rows keep everything; zeros are dropped
Allowed(e, i, j) == \A k \in 1..Len(e.rb) : (i - 1) \in Range(e.rb[k]) => (j - 1) \in Range(e.cb[k])
RestrictOk(e, o) == LET m == e.a IN /\ SameShape(o, m)
    /\ \A i \in 1..m.h : \A j \in 1..m.w :
         /\ Has(o, i, j) <=> (Has(m, i, j) /\ Allowed(e, i, j) /\ AbsSum(Entry(m, i, j)) > 0)
         /\ Has(o, i, j) => Entry(o, i, j) = Entry(m, i, j)
TransOk(a, o) == /\ o.h = a.w /\ o.w = a.h /\ o.bh = a.bw /\ o.bw = a.bh
                 /\ \A i \in 1..o.h : \A j \in 1..o.w : Has(o, i, j) <=> Has(a, j, i)
                 /\ Dense(o) = Trans(Dense(a))

Value(e) == CASE e.op = "to_sparse" -> Dense(e.out) = D(e.x)
              [] e.op = "mm" -> Dense(e.out) = Mul(Dense(e.a), Dense(e.b))
              [] e.op \in {"transpose", "transpose_spm"} -> TransOk(e.a, e.out)
              [] e.op = "compress" -> CompressOk(e.a, e.t2, e.out)
              [] e.op = "restrict_blocks" -> RestrictOk(e, e.out)
              [] e.op = "restrict_keep" -> /\ Dense(e.ap) = Mul(Dense(e.a), Dense(e.p))
                                           /\ Dense(e.out) = Mul(Dense(e.pt), Mul(Dense(e.a), Dense(e.p)))
              [] e.op = "restrict_tm" -> Dense(e.out) = Mul(Trans(Dense(e.p)), Mul(Dense(e.a), Dense(e.p)))
              \* C: a matrix with the graph of A B; its old values do not matter
              [] e.op = "mm_update" -> Dense(e.out) = Mul(Dense(e.a), Dense(e.b))
              [] e.op = "apply" -> /\ e.y0 = e.y0
                                   /\ e.out = CASE e.v = 0 -> MatVec(Dense(e.a), e.x)
                                                [] e.v = 1 -> LET y == MatVec(Dense(e.a), e.x) IN [i \in 1..Len(e.y0) |-> e.y0[i] + e.s * y[i]]
                                                [] e.v = 2 -> MatVec(Trans(Dense(e.a)), e.x)
                                                [] e.v = 3 -> LET y == MatVec(Trans(Dense(e.a)), e.x) IN [i \in 1..Len(e.y0) |-> e.y0[i] + e.s * y[i]]
Outs(e) == (IF e.op = "apply" THEN {} ELSE {e.out}) \cup (IF e.op = "restrict_keep" THEN {e.ap} ELSE {})
Clauses(e) == LET wf == \A o \in Outs(e) : WellFormed(o) IN
    (IF wf THEN {} ELSE {"SortedRows"}) \cup (IF wf /\ ~Value(e) THEN {"Entries"} ELSE {})
    \cup (IF "rank" \in DOMAIN e /\ e.rank # e.wantop THEN {"ParallelKind"} ELSE {})

Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
