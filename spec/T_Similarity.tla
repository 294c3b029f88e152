---------------------------- MODULE T_Similarity ----------------------------
(* Recorded recommendations against Similarity. A trace starts with the words of its corpora (and the
   same with repetitions); the first corpus is trained on, and its documents are what is recommended. *)
EXTENDS Similarity, TLC
VARIABLES ti, l, st, bad
L == INSTANCE Likelihood

Known(row) == {row[i][1] : i \in 1..Len(row)}
Once(row) == \A i, j \in 1..Len(row) : row[i][1] = row[j][1] => i = j
Scores(row) == [e \in Known(row) |-> row[(CHOOSE i \in 1..Len(row) : row[i][1] = e)][2]]
\* the precision of what the code computes: about 6 digits
Fine(v) == 60 + Abs(v) \div 40000
Agree(row, full) == \A i \in 1..Len(row) : Abs(row[i][2] - full[row[i][1]]) <= Fine(full[row[i][1]])

Want(s, ev) == IF ev.near THEN [d \in 1..Len(ev.reps) |-> [e \in 1..Len(ev.to) |-> Distance(ev.reps[d], ev.to[e])]]
               ELSE Cosines(s.words[ev.x], s.words[1])
CloseTo(ev, got, want) == IF ev.near THEN Abs(got - want) <= DistanceSlack(want)
                          ELSE Abs(got - ONE * want) <= ONE * CosineSlack
Links(ev, i) == {ev.links[ev.docs[i]][j] : j \in 1..Len(ev.links[ev.docs[i]])}

LinkClause(s, ev) ==
  LET n == Len(ev.docs) D == Len(s.words[1]) want == Want(s, ev) IN
  CASE ev.shape # <<<<n, D>>, <<n, D>>>> -> "Shape"
    [] \E i \in 1..n : ~ Once(ev.full[i]) \/ Known(ev.full[i]) # 1..D -> "EveryPair"
    [] \E i \in 1..n : LET f == Scores(ev.full[i]) IN \E e \in 1..D : ~ CloseTo(ev, f[e], want[ev.docs[i]][e]) -> "Similarity"
    [] Len(ev.mins) # n -> "OneThresholdEach"
    [] \E i \in 1..n : Links(ev, i) = {} /\ ~ ev.mins[i].none -> "NoLinksNoThreshold"
    [] \E i \in 1..n : Links(ev, i) # {} /\ LET t == Threshold(ev.near, Scores(ev.full[i]), Links(ev, i)) IN
                         Abs(ev.mins[i].at - t) > Fine(t) -> "Threshold"
    [] \E i \in 1..n : ~ Once(ev.kept[i]) \/ ~ (Links(ev, i) \subseteq Known(ev.kept[i])) -> "LinksKept"
    [] \E i \in 1..n : IF Links(ev, i) = {} THEN Known(ev.kept[i]) # 1..D
                       ELSE LET f == Scores(ev.full[i]) t == Threshold(ev.near, f, Links(ev, i)) IN
                            ~ WellKept(ev.near, f, t, Fine(t) + Abs(t) \div 20000, Known(ev.kept[i])) -> "Kept"
    [] \E i \in 1..n : ~ Agree(ev.kept[i], Scores(ev.full[i])) \/ ~ Agree(ev.picked[i], Scores(ev.full[i])) -> "SameScores"
    [] \E i \in 1..n : ~ Once(ev.picked[i]) \/ ~ WellKept(ev.near, Scores(ev.full[i]), ev.own[i], 3000 + Fine(ev.own[i]), Known(ev.picked[i])) -> "Picked"
    [] OTHER -> ""
\* the vectors compared are the square roots of the documents' topics
TopicClause(s, ev) ==
  CASE ~ ev.near -> ""
    [] Len(ev.reps) # Len(s.words[ev.x]) \/ Len(ev.tops) # Len(ev.reps) -> "OneMixturePerDocument"
    [] \E d \in 1..Len(ev.reps) : Len(ev.reps[d]) # Len(ev.tops[d]) \/ \E k \in 1..Len(ev.reps[d]) : ev.reps[d][k] < 0 \/ ev.reps[d][k] > E8
                                    \/ Abs(Mul8(ev.reps[d][k], ev.reps[d][k]) - ev.tops[d][k]) > 6 -> "RootsOfTopics"
    [] \E d \in 1..Len(ev.tops) : Abs(SumTo(Len(ev.tops[d]), LAMBDA k : ev.tops[d][k]) - E8) > 20 -> "Mixture"
    [] OTHER -> ""
ScoreClause(s, ev) ==
  IF ~ ev.near THEN IF ev.value = 0 THEN "" ELSE "Likelihood"
  ELSE LET ws == s.total[ev.x] want == L!Bits2(FALSE, ws, ev.y, ev.c) slack == 4 + L!Slack2(FALSE, ws, ev.y, ev.c) + Abs(want) \div 20000
       IN IF ~ L!AllClear(FALSE, ws, ev.y, ev.c) \/ Abs(ev.value - want) <= slack THEN "" ELSE "Likelihood"

SInit(init) == init
SVerdict(s, ev) ==
  CASE ev.op = "refuse" -> IF ev.exc = "ValueError" THEN "" ELSE "UnknownMethodRefused"
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] ev.touched -> "Touched"
    [] ev.op = "copy" -> IF ev.same THEN "" ELSE "Copy"
    [] TopicClause(s, ev) # "" -> TopicClause(s, ev)
    [] ev.op = "link" -> LinkClause(s, ev)
    [] ev.op = "score" -> ScoreClause(s, ev)
    [] ev.op \in {"train", "query"} -> ""
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
