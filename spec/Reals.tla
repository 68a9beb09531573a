------------------------------- MODULE Reals -------------------------------
(* Vectors of double precision numbers.  A vector is a string of numbers that   *)
(* are separated by blanks (as recorded from the code), or a tuple of integers  *)
(* (the bits of the numbers) as computed here.  A number is an integer, a       *)
(* string or a vector of length one.  The operators are evaluated by            *)
(* spec/java/Reals.java; the comments are their definitions.  Matrices are      *)
(* stored by rows as one vector, the number of columns is the length of x.      *)
EXTENDS Naturals, Sequences
Opq == CHOOSE x : x \notin {}
\* number of entries
VLen(x) == Opq
\* n zeros
VZero(n) == Opq
\* unit vector: 1 at position i (from 0) of n
VUnit(n, i) == Opq
\* a x + b y
VLin(a, x, b, y) == Opq
\* A x  and  A^T x
MatVec2(A, x) == Opq
MatTVec(A, x) == Opq
\* sum of x[i] cols[i] over a sequence cols of vectors (n entries each)
Comb(n, cols, x) == Opq
\* the entries of x in the blocks ids (from 0) of size bs;  the vector of n entries with x in these blocks, else zero
Gather(x, ids, bs) == Opq
Scatter(n, x, ids, bs) == Opq
\* x where the block's bit is 1, else y
Pick(bits, bs, x, y) == Opq
\* equal numbers, bit for bit (0 and -0 are equal)
VSame(x, y) == Opq
\* max |x - y| <= tol * (1 + max(|x|, |y|, s)), and no entry is infinite or not a number
VClose(x, y, tol, s) == Opq
\* d with A d = r for a square matrix A
Solve(A, r) == Opq
\* the submatrix of A (n columns) at the rows and columns ids (blocks of size bs)
SubMat(A, n, ids, bs) == Opq
\* scalar product, maximum norm, square root, comparison a < b of numbers
Dot(x, y) == Opq
MaxAbs(x) == Opq
Root(a) == Opq
Less(a, b) == Opq
\* transpose: the columns of the columns
TransCols(n, cols) == Opq
\* A * B for matrices with h rows / m columns of A / w columns of B
MatMat(A, h, B, w) == Opq
\* g with the blocks ids replaced by the blocks of x
Put(g, x, ids, bs) == Opq
\* the N x N matrix that is the local matrix M at the rows and columns ids (blocks of size bs), else zero
MatAsm(N, M, ids, bs) == Opq
\* the matrix with these columns (n entries each);  transpose and inverse of an n x n matrix
FromCols(n, cols) == Opq
Transp(n, M) == Opq
Inv(n, M) == Opq
\* entry i (from 0) as a number
VAt(x, i) == Opq
\* d = A^+ r for a symmetric matrix A (A^+ is the pseudo-inverse)
PSolve(A, r) == Opq
\* smallest eigenvalue of a symmetric n x n matrix
MinEig(n, A) == Opq
DiagScaled(n, A) == Opq                               \* symmetric scaling to a diagonal of ones
=============================================================================
