---------------------------- MODULE MC_LinkSplit ----------------------------
(* Splitting links in two, at random or by folds *)
EXTENDS Corpus, TLC, Json
CONSTANTS D, MaxK, MaxMin
VARIABLES x, l, r, todo, sym, k, K, min, moved, stage
vars == <<x, l, r, todo, sym, k, K, min, moved, stage>>

None == [i \in 1..D |-> [j \in 1..D |-> 0]]
Row(m, i) == [j \in 1..D |-> m[i][j]]

\* the position of a link among its row's links, 0-based
PosInRow(m, i, j) == Cardinality({h \in 1..D : h < j /\ m[i][h] # 0})

Mirror(m, p) == {p, <<p[2], p[1]>>}
Put(m, ps, v) == [i \in 1..D |-> [j \in 1..D |-> IF <<i, j>> \in ps THEN v[i][j] ELSE m[i][j]]]

Init == /\ x \in [1..D -> [1..D -> {0, 2}]]
        /\ sym \in BOOLEAN /\ (sym => IsSymmetric(x))
        /\ l = None /\ r = None
        /\ todo = IF sym THEN LowerTriangle(x) ELSE Links(x)
        /\ k = 0 /\ K \in 2..MaxK /\ min \in 0..MaxMin
        /\ moved = {} /\ stage = "random"
        /\ (K # 2 \/ min # 0 => ~sym)

Total == Cardinality(IF sym THEN LowerTriangle(x) ELSE Links(x))
OnLeft == Cardinality(IF sym THEN LowerTriangle(l) ELSE Links(l))

\* one link (with its mirror image if need be) is put on one side, until half are on the left
Deal == /\ stage = "random" /\ todo # {}
        /\ LET p == CHOOSE p \in todo : \A q \in todo : p[1] * 10 + p[2] <= q[1] * 10 + q[2]
               ps == IF sym THEN Mirror(x, p) ELSE {p}
           IN /\ todo' = todo \ {p}
              /\ \/ OnLeft < Total \div 2 /\ l' = Put(l, ps, x) /\ r' = r
                 \/ Cardinality(todo) > (Total \div 2) - OnLeft /\ r' = Put(r, ps, x) /\ l' = l
        /\ UNCHANGED <<x, sym, k, K, min, moved, stage>>

StartFolds == /\ stage = "random" /\ todo = {} /\ stage' = "folds"
              /\ l' = x /\ r' = x
              /\ PrintT("@@SCN " \o ToJson([links |-> x, k |-> K, min |-> min, sym |-> sym]))
              /\ UNCHANGED <<x, todo, sym, k, K, min, moved>>

InFold(i, j) == LET size == Distinct(x[i]) \div K IN
                /\ x[i][j] # 0
                /\ PosInRow(x, i, j) >= size * k /\ PosInRow(x, i, j) < size * (k + 1)

Fold == /\ stage = "folds" /\ k < K
        /\ r' = [i \in 1..D |-> [j \in 1..D |->
                   IF i \in Foldable(x, min) /\ ~InFold(i, j) THEN 0 ELSE x[i][j]]]
        /\ l' = [i \in 1..D |-> [j \in 1..D |->
                   IF i \in Foldable(x, min) /\ InFold(i, j) THEN 0 ELSE x[i][j]]]
        /\ moved' = moved \cup {<<k, p>> : p \in {p \in Links(r') : p[1] \in Foldable(x, min)}}
        /\ k' = k + 1
        /\ UNCHANGED <<x, todo, sym, K, min, stage>>

Next == Deal \/ StartFolds \/ Fold
Spec == Init /\ [][Next]_vars

RandomOk == (stage = "random" /\ todo = {}) =>
   /\ IsPartition(x, l, r)
   /\ (sym => IsSymmetric(l) /\ IsSymmetric(r))
   /\ OnLeft = Total \div 2
FoldOk == (stage = "folds" /\ k > 0) =>
   IsFoldedSplit(x, l, r, Positions(D, LAMBDA i : i \in Foldable(x, min)), K, min) = ""
NeverTwice == \A a, b \in moved : a[2] = b[2] => a[1] = b[1]
=============================================================================
