---------------------------- MODULE MC_Similarity ----------------------------
(* Documents of a list are visited in its order: the threshold of each is that of its worst link, and then
   candidates are offered one at a time, in any order. *)
EXTENDS Similarity, TLC, Json
CONSTANTS D, T, MaxCount, Emit
VARIABLES words, links, list, at, score, thr, kept, waiting, done
vars == <<words, links, list, at, score, thr, kept, waiting, done>>
Docs == 1..D
Others(d) == Docs \ {d}
Lists == {[i \in 1..D |-> i], [i \in 1..(D - 1) |-> D + 1 - i]}
Init == /\ words \in [Docs -> [1..T -> 0..MaxCount]]
        /\ links = [d \in Docs |-> {}]
        /\ list \in Lists /\ at = 1 /\ score = <<>> /\ thr = 0 /\ kept = [i \in 1..Len(list) |-> {}] /\ waiting = {} /\ done = FALSE
Score(d) == LET w == [e \in Docs |-> Weights(words, e)] IN [e \in Docs |-> Cosine(w[d], w[e])]
Worst == /\ at <= Len(list) /\ ~ done
         /\ \E ls \in {{}, {(list[at] % D) + 1}, Others(list[at])} :
              LET s == Score(list[at]) IN
                /\ links' = [links EXCEPT ![list[at]] = ls]
                /\ score' = s
                /\ thr' = (IF ls = {} THEN -ONE ELSE Threshold(FALSE, s, ls))
         /\ waiting' = Docs /\ done' = TRUE
         /\ UNCHANGED <<words, list, at, kept>>
\* lowest first only: the order cannot matter
Offer == /\ done /\ waiting # {}
         /\ LET e == CHOOSE x \in waiting : \A y \in waiting : x <= y IN
              /\ waiting' = waiting \ {e}
              /\ kept' = (IF score[e] >= thr THEN [kept EXCEPT ![at] = @ \cup {e}] ELSE kept)
         /\ UNCHANGED <<words, links, list, at, score, thr, done>>
Turn == /\ done /\ waiting = {} /\ at' = at + 1 /\ done' = FALSE /\ score' = <<>> /\ thr' = 0
        /\ (Emit /\ at = Len(list) => PrintT("@@SCN " \o ToJson([words |-> words, links |-> links, list |-> list])))
        /\ UNCHANGED <<words, links, list, kept, waiting>>
Next == Worst \/ Offer \/ Turn
Spec == Init /\ [][Next]_vars

\* facts about similarity, of every corpus (once each)
First == at = 1 /\ ~ done
Facts == First => LET w == [e \in Docs |-> Weights(words, e)] c == [d \in Docs |-> [e \in Docs |-> Cosine(w[d], w[e])]] IN
  /\ \A d, e \in Docs : /\ Abs(c[d][e] - c[e][d]) <= 4
                        /\ c[d][e] >= 0 /\ c[d][e] <= ONE + 4
                        /\ (words[d] = words[e] /\ \E t \in 1..T : w[d][t] # 0) => c[d][e] >= ONE - 4
  \* a document of uninformative words is like no other
  /\ \A d \in Docs : (\A t \in 1..T : words[d][t] > 0 => Users(words, t) + 1 = D) => \A e \in Docs : c[d][e] = 0
  \* repeating a document's text changes nothing
  /\ LET v == [words EXCEPT ![1] = [t \in 1..T |-> 3 * @[t]]] IN \A e \in Docs : Abs(Cosine(Weights(v, 1), Weights(v, e)) - c[1][e]) <= 6
  \* documents that share no word are not similar
  /\ \A d, e \in Docs : (\A t \in 1..T : words[d][t] = 0 \/ words[e][t] = 0) => c[d][e] = 0
Lossless == \A i \in 1..(at - 1) : links[list[i]] \subseteq kept[i]
Exact == (done /\ waiting = {}) =>
           IF links[list[at]] = {} THEN kept[at] = Docs
           ELSE kept[at] = Candidates(FALSE, score, thr) /\ WellKept(FALSE, score, thr, 0, kept[at])
Roots == Sqrt(0) = 0 /\ Sqrt(15) = 4 /\ Sqrt(12) = 3 /\ Sqrt(2147395600) = 46340
Metric == Distance(<<100000000, 0>>, <<0, 100000000>>) \in 141400000..141450000 /\ Distance(<<5, 5>>, <<5, 5>>) = 0
          /\ Distance(<<3000, 0>>, <<0, 4000>>) = 5000
=============================================================================
