------------------------------- MODULE MC_Rank -------------------------------
(* The evaluation as a walk down each document's ranking, compared with the definitions *)
EXTENDS RankEval, TLC, Json
CONSTANTS NC, ND, Groups
VARIABLES docs, d, r, found, rr, ap, cnt, hitsAt
vars == <<docs, d, r, found, rr, ap, cnt, hitsAt>>

Perms == {p \in [1..NC -> 1..NC] : \A i, j \in 1..NC : i # j => p[i] # p[j]}
\* candidate i has score p[i]
Docs == {[cands |-> {[id |-> i, score |-> p[i]] : i \in 1..NC}, expected |-> E] : p \in Perms, E \in SUBSET (1..NC)}
Zeros == [g \in {Everything} |-> 0]

Init == /\ docs \in {ds \in [1..ND -> Docs] : \E i \in 1..ND : ds[i].expected # {}}
        /\ ND > 1 => \A c \in docs[1].cands : c.id = c.score    \* the first, without loss, in order
        /\ d = 1 /\ r = 0 /\ found = {} /\ rr = 0 /\ ap = 0 /\ cnt = 0
        /\ hitsAt = [m \in 1..NC |-> 0]

AtRank(doc, n) == CHOOSE i \in 1..NC : Rank(doc.cands, i) = n

Down == /\ d <= ND /\ r < NC
        /\ LET x == AtRank(docs[d], r + 1)
               hit == x \in docs[d].expected
               f == IF hit THEN found \cup {x} ELSE found
           IN /\ found' = f
              /\ rr' = rr + (IF hit THEN Units \div (r + 1) ELSE 0)
              /\ cnt' = cnt + (IF hit THEN 1 ELSE 0)
              /\ ap' = ap + (IF hit THEN Cardinality(f) * (Units \div (r + 1)) * (DegUnits \div Deg(docs[d])) ELSE 0)
              /\ hitsAt' = [hitsAt EXCEPT ![r + 1] = @ + Cardinality(f)]
        /\ r' = r + 1 /\ UNCHANGED <<docs, d>>

NextDoc == /\ d <= ND /\ r = NC
           /\ d' = d + 1 /\ r' = 0 /\ found' = {}
           /\ UNCHANGED <<docs, rr, ap, cnt, hitsAt>>
           /\ d < ND \/ PrintT("@@SCN " \o ToJson([docs |-> [i \in 1..ND |->
                  [scores |-> [j \in 1..NC |-> ScoreOf(docs[i].cands, j)],
                   expected |-> [j \in 1..NC |-> IF j \in docs[i].expected THEN 1 ELSE 0]]]]))

Next == Down \/ NextDoc
Spec == Init /\ [][Next]_vars

Done == d = ND + 1
Agree == Done => /\ rr = RRUnits(docs) /\ cnt = RRCount(docs) /\ ap = APUnits(docs)
                 /\ \A m \in 1..NC : hitsAt[m] = HitSum(docs, 1..ND, m)
\* every linked document is in exactly one group, and in Everything
Grouped == \A gs \in Groups : \A i \in 1..ND : docs[i].expected # {} =>
   /\ i \in Members(docs, gs, Everything)
   /\ Cardinality({j \in 1..Len(gs) : gs[j] # Everything /\ i \in Members(docs, gs, gs[j])}) <= 1
   /\ (\E j \in 1..Len(gs) : InRange(Deg(docs[i]), gs[j])) =>
        Cardinality({j \in 1..Len(gs) : gs[j] # Everything /\ i \in Members(docs, gs, gs[j])}) = 1
TheGroups == { << >>, << <<1, 2>>, <<2, 3>> >>, << <<-1, -1>>, <<3, 3>> >>, << <<0, 0>>, <<2, 9>> >> }
=============================================================================
