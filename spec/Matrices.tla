------------------------------ MODULE Matrices ------------------------------
(* Dense and sparse matrices of whole numbers, as sequences of rows (1-based) *)
EXTENDS Integers, Sequences, FiniteSets, Sums

Rows(m) == Len(m)
Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Abs(x) == IF x < 0 THEN -x ELSE x

Transpose(m) == [j \in 1..Cols(m) |-> [i \in 1..Rows(m) |-> m[i][j]]]

\* all the columns of m one after the other
Vec(m) == [n \in 1..(Rows(m) * Cols(m)) |-> m[((n - 1) % Rows(m)) + 1][((n - 1) \div Rows(m)) + 1]]

(* Each column is reshaped, column by column, into a matrix with p rows; these are stacked *)
VecTranspose(m, p) ==
  [R \in 1..(Cols(m) * p) |-> [C \in 1..(Rows(m) \div p) |->
     LET c == ((R - 1) \div p) + 1
         r == (C - 1) * p + ((R - 1) % p) + 1
     IN m[r][c]]]

Apply(t, v) == [i \in 1..Len(t) |-> SumFun([j \in 1..Len(v) |-> t[i][j] * v[j]])]

Dot(b, c, i, j) == SumFun([k \in 1..Len(b[i]) |-> b[i][k] * c[k][j]])

IsPowerOf2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* ---- a compressed matrix: the stored elements of each row, in storage order --------------- *)
\* rows: sequence of sequences of <<column, value>>
Window(rows, start, end) == SubSeq(rows, start + 1, end)
=============================================================================
