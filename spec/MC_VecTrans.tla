---------------------------- MODULE MC_VecTrans ----------------------------
(* Vec-transpose as the element-by-element moves which implementations make *)
EXTENDS Matrices, TLC, Json
CONSTANTS MaxRows, MaxCols
VARIABLES m, p, r, c, out, done
vars == <<m, p, r, c, out, done>>
Init == /\ \E R \in 1..MaxRows, C \in 1..MaxCols :
              /\ m = [i \in 1..R |-> [j \in 1..C |-> 10 * i + j]]
              /\ p \in {q \in 1..R : R % q = 0}
        /\ r = 0 /\ c = 0 /\ done = FALSE
        /\ out = [i \in 1..(Cols(m) * p) |-> [j \in 1..(Rows(m) \div p) |-> 0]]
Move == /\ r < Rows(m)
        /\ out' = [out EXCEPT ![c * p + (r % p) + 1][(r \div p) + 1] = m[r + 1][c + 1]]
        /\ IF c + 1 < Cols(m) THEN c' = c + 1 /\ r' = r ELSE c' = 0 /\ r' = r + 1
        /\ UNCHANGED <<m, p, done>>
Emit == /\ r = Rows(m) /\ ~done /\ done' = TRUE
        /\ PrintT("@@SCN " \o ToJson([rows |-> Rows(m), cols |-> Cols(m), p |-> p]))
        /\ UNCHANGED <<m, p, r, c, out>>
Next == Move \/ Emit
Spec == Init /\ [][Next]_vars
Perm == [i \in 1..(Rows(m) * Cols(m)) |-> [j \in 1..(Rows(m) * Cols(m)) |->
           IF j = ((i - 1) \div Cols(m)) + ((i - 1) % Cols(m)) * Rows(m) + 1 THEN 1 ELSE 0]]
Correct == r = Rows(m) => /\ out = VecTranspose(m, p)
                          /\ VecTranspose(out, p) = m
                          /\ Apply(Perm, Vec(m)) = Vec(Transpose(m))
NothingTwice == \A i, j \in DOMAIN out : \A a, b \in DOMAIN out[i] :
                  (<<i, a>> # <<j, b>> /\ out[i][a] # 0) => out[i][a] # out[j][b]
=============================================================================
