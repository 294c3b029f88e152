---------------------------- MODULE MC_Completion ----------------------------
(* Document completion: every occurrence of every word goes to one side or the other *)
EXTENDS Corpus, TLC, Json
CONSTANTS Docs, Words, MaxCount, MaxMin
VARIABLES words, est, evl, left, min, stage
vars == <<words, est, evl, left, min, stage>>

Cells == (1..Docs) \X (1..Words)
Zero == [d \in 1..Docs |-> [w \in 1..Words |-> 0]]

Init == /\ words \in [1..Docs -> [1..Words -> 0..MaxCount]]
        /\ est = Zero /\ evl = Zero /\ left = words /\ min \in 0..MaxMin /\ stage = "deal"

\* one word of a document is dealt out: i occurrences are to be used for inference
Deal == /\ stage = "deal"
        /\ \E d \in 1..Docs, w \in 1..Words :
             /\ left[d][w] > 0
             /\ \A x \in Cells : left[x[1]][x[2]] > 0 => (x[1] * 10 + x[2] >= d * 10 + w)
             /\ \E i \in 0..left[d][w] :
                  /\ est' = [est EXCEPT ![d][w] = i]
                  /\ evl' = [evl EXCEPT ![d][w] = left[d][w] - i]
                  /\ left' = [left EXCEPT ![d][w] = 0]
        /\ UNCHANGED <<words, min, stage>>

Drop == /\ stage = "deal" /\ left = Zero
        /\ LET kept == KeptByCompletion(est, evl, min)
           IN est' = Pick(est, kept) /\ evl' = Pick(evl, kept) /\ words' = Pick(words, kept)
        /\ stage' = "done"
        /\ PrintT("@@SCN " \o ToJson([words |-> words, min |-> min]))
        /\ UNCHANGED <<left, min>>

Next == Deal \/ Drop
Spec == Init /\ [][Next]_vars

Conserved == stage = "deal" =>
   \A d \in 1..Docs : \A w \in 1..Words : est[d][w] + evl[d][w] + left[d][w] = words[d][w]
Final == stage = "done" => /\ SumsTo(est, evl, words) /\ AllIn(est, 0) /\ AllIn(evl, 0)
                           /\ \A d \in DOMAIN est : Distinct(est[d]) >= min /\ Distinct(evl[d]) >= min
=============================================================================
