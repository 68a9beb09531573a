----------------------------- MODULE DynTrace -----------------------------
(* Conformance of block-compressed sparse matrices.  A trace holds a scalar      *)
(* sparse matrix A (see Matrices), the groups of rows and columns that were used  *)
(* (offsets), the stored blocks [rows, cols, vals] and products with vectors.     *)
EXTENDS Matrices, TLC, Json, IOUtils
VARIABLES tr, l
vars == <<tr, l>>
Traces == JsonDeserialize(IOEnv.TRACES)
ToSet(s) == {s[i] : i \in 1..Len(s)}
NoRep(s) == Cardinality(ToSet(s)) = Len(s)
Offsets(o, n) == o[1] = 0 /\ o[Len(o)] = n /\ \A k \in 1..(Len(o) - 1) : o[k] < o[k + 1]
\* rows in one group have the same pattern; a row holds a group of columns completely or not at all
Group(o, i) == CHOOSE k \in 1..(Len(o) - 1) : o[k] <= i /\ i < o[k + 1]
RowsEqual(A, o) == \A k \in 1..(Len(o) - 1) : \A i \in o[k]..(o[k + 1] - 1) : A.cols[i + 1] = A.cols[o[k] + 1]
ColsWhole(A, o) == \A i \in 1..A.h : \A k \in 1..(Len(o) - 1) :
                      LET c == ToSet(A.cols[i]) IN (o[k] \in c) => \A j \in o[k]..(o[k + 1] - 1) : j \in c
Stored1(b) == {<<b.rows[i], b.cols[j]>> : i \in 1..Len(b.rows), j \in 1..Len(b.cols)}
BVal(b, i, j) == b.vals[(i - 1) * Len(b.cols) + j]
\* every entry is stored once
Once(A, bl) == /\ \A k \in 1..Len(bl) : NoRep(bl[k].rows) /\ NoRep(bl[k].cols) /\ Len(bl[k].vals) = Len(bl[k].rows) * Len(bl[k].cols)
               /\ \A k, m \in 1..Len(bl) : k < m => Stored1(bl[k]) \cap Stored1(bl[m]) = {}
               /\ UNION {Stored1(bl[k]) : k \in 1..Len(bl)} = {<<p[1] - 1, p[2] - 1>> : p \in Stored(A)}
Values(A, bl) == \A k \in 1..Len(bl) : \A i \in 1..Len(bl[k].rows) : \A j \in 1..Len(bl[k].cols) :
                    BVal(bl[k], i, j) = Entry(A, bl[k].rows[i] + 1, bl[k].cols[j] + 1)[1]
\* every row is in exactly one block (also rows without entries)
RowsOnce(A, bl) == \A i \in 0..(A.h - 1) : Cardinality({k \in 1..Len(bl) : i \in ToSet(bl[k].rows)}) = 1
Nze(A) == SumTo(A.h, LAMBDA i : Len(A.cols[i]))
Build(t) == LET A == t.A IN {c \in {"Groups", "Once", "Values", "RowsOnce", "Counts"} :
    ~CASE c = "Groups" -> Offsets(t.rowoff, A.h) /\ Offsets(t.coloff, A.w) /\ RowsEqual(A, t.rowoff) /\ ColsWhole(A, t.coloff)
       [] c = "Once" -> Once(A, t.blocks)
       [] c = "Values" -> Once(A, t.blocks) => Values(A, t.blocks)
       [] c = "RowsOnce" -> RowsOnce(A, t.blocks)
       [] c = "Counts" -> t.nze = Nze(A) /\ t.height = A.h /\ t.width = A.w}
Prod(t, e) == LET Ax == MatVec(Dense(t.A), e.x) IN
    (IF e.x1 = e.x THEN {} ELSE {"InputChanged"}) \cup
    (IF e.y = IF e.v = 0 THEN Ax ELSE [i \in 1..t.A.h |-> e.y0[i] + e.s * Ax[i]] THEN {} ELSE {"Product"})
Clauses(t, e) == IF e.op = "build" THEN Build(t) ELSE IF e.op = "refused" THEN (IF e.ok = 1 THEN {} ELSE {"Refused"}) ELSE Prod(t, e)
Init == tr \in 1..Len(Traces) /\ l = 1
Next == \/ /\ l > 0 /\ l <= Len(Traces[tr].events)
           /\ LET bad == Clauses(Traces[tr], Traces[tr].events[l])
              IN IF bad = {} THEN l' = l + 1 ELSE PrintT(<<"REJECT", tr, l, bad>>) /\ l' = -1
           /\ UNCHANGED tr
        \/ /\ l = Len(Traces[tr].events) + 1
           /\ PrintT(<<"ACCEPT", tr>>) /\ l' = 0 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
=============================================================================
