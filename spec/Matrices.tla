----------------------------- MODULE Matrices -----------------------------
(* Sparse matrices with small dense entries, and the dense matrices they stand  *)
(* for.  A sparse matrix is a record [h, w, bh, bw, cols, vals]: h rows and w    *)
(* columns of entries with bh x bw numbers; cols[i] lists the columns (from 0) of *)
(* row i (from 1), vals[i][k] the numbers of the k-th entry, row by row.          *)
(* A dense matrix is a record [h, w, e] with e[I][J], I \in 1..h, J \in 1..w.      *)
EXTENDS Integers, Sequences, FiniteSets

\* ------------------------------------------------------------------ sparse
RowsOk(m) == /\ Len(m.cols) = m.h /\ Len(m.vals) = m.h
             /\ \A i \in 1..m.h : /\ Len(m.vals[i]) = Len(m.cols[i])
                                  /\ \A k \in 1..Len(m.cols[i]) : m.cols[i][k] \in 0..(m.w - 1) /\ Len(m.vals[i][k]) = m.bh * m.bw
Sorted(m) == \A i \in 1..m.h : \A k \in 1..(Len(m.cols[i]) - 1) : m.cols[i][k] < m.cols[i][k + 1]
WellFormed(m) == RowsOk(m) /\ Sorted(m)
Stored(m) == {<<i, m.cols[i][k] + 1>> : <<i, k>> \in {<<i, k>> \in (1..m.h) \X (1..m.w) : k <= Len(m.cols[i])}}
Has(m, i, j) == \E k \in 1..Len(m.cols[i]) : m.cols[i][k] = j - 1
Entry(m, i, j) == IF Has(m, i, j) THEN m.vals[i][CHOOSE k \in 1..Len(m.cols[i]) : m.cols[i][k] = j - 1]
                  ELSE [x \in 1..(m.bh * m.bw) |-> 0]

\* ------------------------------------------------------------------ dense
DenseRow(m, i, a) == LET r == [j \in 1..m.w |-> Entry(m, i, j)] IN
    [J \in 1..(m.w * m.bw) |-> r[(J - 1) \div m.bw + 1][(a - 1) * m.bw + ((J - 1) % m.bw) + 1]]
Dense(m) == [h |-> m.h * m.bh, w |-> m.w * m.bw,
             e |-> [I \in 1..(m.h * m.bh) |-> DenseRow(m, (I - 1) \div m.bh + 1, ((I - 1) % m.bh) + 1)]]
Zero(h, w) == [h |-> h, w |-> w, e |-> [I \in 1..h |-> [J \in 1..w |-> 0]]]
Ident(n) == [h |-> n, w |-> n, e |-> [I \in 1..n |-> [J \in 1..n |-> IF I = J THEN 1 ELSE 0]]]
SumTo(n, F(_)) == LET RECURSIVE s(_) s(k) == IF k = 0 THEN 0 ELSE s(k - 1) + F(k) IN s(n)
Trans(A) == [h |-> A.w, w |-> A.h, e |-> [I \in 1..A.w |-> [J \in 1..A.h |-> A.e[J][I]]]]
Mul(A, B) == [h |-> A.h, w |-> B.w,
              e |-> [I \in 1..A.h |-> [J \in 1..B.w |-> SumTo(A.w, LAMBDA k : A.e[I][k] * B.e[k][J])]]]
Lin(a, A, b, B) == [h |-> A.h, w |-> A.w, e |-> [I \in 1..A.h |-> [J \in 1..A.w |-> a * A.e[I][J] + b * B.e[I][J]]]]
\* rows off + 1 .. off + A.h of a matrix with h rows
Embed(A, off, h) == [h |-> h, w |-> A.w,
                     e |-> [I \in 1..h |-> IF I > off /\ I <= off + A.h THEN A.e[I - off] ELSE [J \in 1..A.w |-> 0]]]
MatVec(A, x) == [I \in 1..A.h |-> SumTo(A.w, LAMBDA k : A.e[I][k] * x[k])]

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* blocks: hs[k] rows in block row k, ws[j] columns in block column j; B[k][j] dense or "none"
Offs(s, k) == SumSeq(SubSeq(s, 1, k - 1))
BlockOf(s, I) == CHOOSE k \in 1..Len(s) : I > Offs(s, k) /\ I <= Offs(s, k) + s[k]
Blocks(hs, ws, B) == [h |-> SumSeq(hs), w |-> SumSeq(ws),
    e |-> [I \in 1..SumSeq(hs) |-> [J \in 1..SumSeq(ws) |->
            LET k == BlockOf(hs, I)  j == BlockOf(ws, J)  b == B[k][j]
            IN IF b.h = 0 THEN 0 ELSE b.e[I - Offs(hs, k)][J - Offs(ws, j)]]]]
Symmetric(A) == A.h = A.w /\ \A I \in 1..A.h : \A J \in 1..A.h : A.e[I][J] = A.e[J][I]
=============================================================================
