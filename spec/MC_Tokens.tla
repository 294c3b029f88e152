------------------------------ MODULE MC_Tokens ------------------------------
(* Expanding a document-word matrix, stored element by element, into one row of tokens for each
   document, then exchanging pairs of tokens within each document *)
EXTENDS Tokens, TLC, Json
CONSTANTS D, T, MaxCount, Swaps
VARIABLES words, d, j, c, out, swapped, phase
vars == <<words, d, j, c, out, swapped, phase>>
Init == /\ words \in [1..D -> [1..T -> 0..MaxCount]] /\ d = 1 /\ j = 1 /\ c = 0 /\ out = [i \in 1..D |-> <<>>] /\ swapped = 0 /\ phase = "expand"
Emit == /\ phase = "expand" /\ d <= D /\ j <= T /\ c < words[d][j]
        /\ out' = [out EXCEPT ![d] = Append(@, j - 1)] /\ c' = c + 1 /\ UNCHANGED <<words, d, j, swapped, phase>>
NextElement == /\ phase = "expand" /\ d <= D /\ j <= T /\ c = words[d][j] /\ j' = j + 1 /\ c' = 0
               /\ UNCHANGED <<words, d, out, swapped, phase>>
NextDoc == /\ phase = "expand" /\ d <= D /\ j > T /\ d' = d + 1 /\ j' = 1 /\ UNCHANGED <<words, c, out, swapped, phase>>
Expanded == /\ phase = "expand" /\ d > D /\ phase' = "shuffle"
            /\ PrintT("@@SCN " \o ToJson([words |-> words])) /\ UNCHANGED <<words, d, j, c, out, swapped>>
Swap == /\ phase = "shuffle" /\ swapped < Swaps
        /\ \E e \in 1..D : \E a, b \in 1..Len(out[e]) : a < b /\ out[e][a] # out[e][b] /\
             out' = [out EXCEPT ![e] = [@ EXCEPT ![a] = out[e][b], ![b] = out[e][a]]]
        /\ swapped' = swapped + 1 /\ UNCHANGED <<words, d, j, c, phase>>
Next == Emit \/ NextElement \/ NextDoc \/ Expanded \/ Swap
Spec == Init /\ [][Next]_vars
BagKept == phase = "shuffle" => \A e \in 1..D : SameBag(words[e], out[e])
Flat == LET F[e \in 0..D] == IF e = 0 THEN <<>> ELSE F[e - 1] \o out[e] IN F[D]
\* offsets delimit the documents of the flat sequence
Delimited == phase = "shuffle" => \A e \in 1..D : SameBag(words[e], SubSeq(Flat, Offset(words, e) + 1, Offset(words, e) + RowTotal(words[e])))
=============================================================================
