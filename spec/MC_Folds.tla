------------------------------ MODULE MC_Folds ------------------------------
(* K-fold cross-validation: the windows the design uses, for every corpus size and number of folds *)
EXTENDS Corpus, TLC, Json
CONSTANTS MaxD, MaxK
VARIABLES D, K, k, queried, emitted
vars == <<D, K, k, queried, emitted>>

Docs == 1..D

Init == /\ D \in 2..MaxD /\ K \in 2..MaxK
        /\ k = 0 /\ queried = [d \in 1..MaxD |-> 0] /\ emitted = FALSE

Fold == /\ k < K
        /\ k' = k + 1
        /\ queried' = [d \in 1..MaxD |-> queried[d] + (IF d \in Range(QueryIdx(D, k, K)) THEN 1 ELSE 0)]
        /\ UNCHANGED <<D, K, emitted>>

Emit == /\ k = K /\ ~emitted /\ emitted' = TRUE
        /\ PrintT("@@SCN " \o ToJson([d |-> D, k |-> K]))
        /\ UNCHANGED <<D, K, k, queried>>

Next == Fold \/ Emit
Spec == Init /\ [][Next]_vars

Partition ==
  k < K => LET q == QueryIdx(D, k, K)  t == TrainIdx(D, k, K) IN
           /\ Range(q) \cap Range(t) = {} /\ Range(q) \cup Range(t) = Docs
           /\ IsInjective(q) /\ IsInjective(t)
           /\ Len(q) = QuerySize(D, K)
Covered  == k = K => \A d \in Docs : queried[d] >= 1
Once     == (k = K /\ D % K = 0) => \A d \in Docs : queried[d] = 1
=============================================================================
