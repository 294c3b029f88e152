------------------------------ MODULE MC_Sparse ------------------------------
(* Walking the stored elements of a window of rows of a compressed matrix *)
EXTENDS Matrices, TLC, Json
CONSTANTS R, C
VARIABLES pat, start, end, row, e, written, done
vars == <<pat, start, end, row, e, written, done>>

\* pat[i] : the columns stored in row i, in order
Seqs(S) == {SelectSeq([j \in 1..C |-> j], LAMBDA j : j \in S)}
Patterns == [1..R -> UNION {Seqs(S) : S \in SUBSET (1..C)}]
Ptr(i) == SumFun([h \in 1..(i - 1) |-> Len(pat[h])])
Total == Ptr(R + 1)

Init == /\ pat \in Patterns /\ start \in 0..R /\ end \in 0..R /\ start <= end
        /\ row = start /\ e = 0 /\ written = {} /\ done = FALSE
\* element e of the row: read at ptr[row] + e, written at its place in the window
Element == /\ row < end /\ e < Len(pat[row + 1])
           /\ written' = written \cup {<<Ptr(row + 1) + e, Ptr(row + 1) + e - Ptr(start + 1), row - start, pat[row + 1][e + 1]>>}
           /\ e' = e + 1 /\ UNCHANGED <<pat, start, end, row, done>>
NextRow == /\ row < end /\ e = Len(pat[row + 1]) /\ row' = row + 1 /\ e' = 0
           /\ UNCHANGED <<pat, start, end, written, done>>
Finish == /\ row = end /\ ~done /\ done' = TRUE
          /\ PrintT("@@SCN " \o ToJson([pat |-> [i \in 1..R |-> [j \in 1..C |-> IF \E h \in 1..Len(pat[i]) : pat[i][h] = j THEN 1 ELSE 0]],
                                        start |-> start, end |-> end]))
          /\ UNCHANGED <<pat, start, end, row, e, written>>
Next == Element \/ NextRow \/ Finish
Spec == Init /\ [][Next]_vars
\* every element of the window, once, in its own place; nothing else
Touched == done => /\ {w[1] : w \in written} = Ptr(start + 1)..(Ptr(end + 1) - 1)
                   /\ {w[2] : w \in written} = 0..(Ptr(end + 1) - Ptr(start + 1) - 1)
                   /\ Cardinality(written) = Ptr(end + 1) - Ptr(start + 1)
                   /\ \A w \in written : w[1] < Total /\ w[3] < end - start
=============================================================================
