---------------------------- MODULE T_Correlated ----------------------------
(* Recorded training and querying of correlated topic models against Correlated. The state is that of
   the model after 0, 1, 2, ... sweeps from the start. *)
EXTENDS Correlated, TLC
VARIABLES ti, l, st, bad

SInit(init) == [kind |-> init.kind, prior |-> init.prior, tol |-> init.tol, words |-> init.words, after |-> <<>>]

\* rows that are distributions, to within e
Dists(rows, n, m, e) == /\ Len(rows) = n
                        /\ \A i \in 1..n : /\ Len(rows[i]) = m
                                           /\ \A j \in 1..m : rows[i][j] >= 0 /\ rows[i][j] <= E8 + e
                                           /\ Abs(SumFun(rows[i]) - E8) <= e
Proper(s) == \A i \in 1..Len(s.bits) : \A j \in 1..Len(s.bits[i]) : Abs(s.bits[i][j]) <= 2000000000
Softmaxes(s, e) == \A d \in 1..Len(s.bits) : LET y == Shares(s.bits[d]) IN \A k \in 1..Len(y) : Abs(s.mix[d][k] - 100 * y[k]) <= 1500 + e
Scored(words, s, e) ==
  LET y == s.mix c == s.vocab
      want == Bits2(FALSE, words, y, c)
  IN ~ AllClear(FALSE, words, y, c) \/ Abs(s.ll - want) <= 4 + Slack2(FALSE, words, y, c) + Abs(want) \div e
\* exactness of numbers: half or double precision
Coarse(c) == c.tol > 10000
StateClause(c, words, s) ==
  LET e == IF Coarse(c) THEN 3000 ELSE 20 K == Len(s.vocab) T == Len(words[1])
  IN CASE ~ Proper(s) -> "MeansFinite"
       [] ~ Dists(s.vocab, K, T, e) -> "TopicsAreDistributions"
       [] ~ Dists(s.mix, Len(words), K, e) -> "MixturesAreDistributions"
       [] ~ Softmaxes(s, e) -> "MixtureOfMeans"
       [] ~ Scored(words, s, IF Coarse(c) THEN 5000 ELSE 20000) -> "Likelihood"
       [] OTHER -> ""
Near(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A j \in 1..Len(a[i]) : Abs(a[i][j] - b[i][j]) <= e
Same(a, b, e) == Near(a.mix, b.mix, e) /\ Near(a.vocab, b.vocab, e)

Learnt(c, was, s) ==
  IF c.kind \notin Stepwise \/ ~ Plain(c.words, was.mix, was.vocab) THEN TRUE
  ELSE \A k \in 1..Len(was.vocab) :
         LET want == Relearnt(c.words, was.mix, was.vocab, c.prior, k)
             off == Unsure(c.words, was.mix, was.vocab, c.prior, k) + c.tol \div 100
         IN \A t \in 1..Len(want) : Abs(s.vocab[k][t] \div 100 - want[t]) <= off
SweepClause(c, ev) ==
  LET x == StateClause(c, c.words, ev.state)
  IN CASE ~ ev.same -> "CorpusChanged"
       [] x # "" -> x
       [] ~ Learnt(c, c.after[Len(c.after)], ev.state) -> "WordsOfTopics"
       [] ev.state.boundexc # "" -> "Raised" \o ev.state.boundexc
       [] ~ ev.state.kept -> "BoundChangedMeans"
       [] OTHER -> ""
RunClause(c, ev) ==
  LET p == Measured(ev.n, ev.f)
      got == Len(ev.points)
      at(i) == c.after[p[i] + 2]
      \* measurements at which this run may have been given up: the last, which may be left out
      quits == {s \in {got, got + 1} : s > 1 /\ s <= Len(p) /\ MayQuit(c.kind, p[s], at(s - 1).perp - at(s).perp)}
  IN CASE \E i \in 1..3 : ev.sizes[i] # got -> "MeasurementsPaired"
       [] got # Len(p) /\ quits = {} -> "NumberOfMeasurements"
       [] \E i \in 1..got : ev.points[i].label # p[i] -> "MeasuredWhere"
       [] \E i \in 1..got : Abs(ev.points[i].nats - at(i).nats) > 10 + c.tol \div 100 + Abs(at(i).nats) \div (IF Coarse(c) THEN 1000 ELSE 100000) -> "MeasuredLikelihood"
       [] ~ Coarse(c) /\ \E i \in 1..got : Abs(ev.points[i].bound - at(i).bound) > 10 + Abs(at(i).bound) \div 10000 -> "MeasuredBound"
       [] ~ ((got = Len(p) /\ Same(ev.state, c.after[ev.n + 1], c.tol)) \/ \E s \in quits : Same(ev.state, at(s), c.tol)) -> "LoggingChangedModel"
       [] OTHER -> ""
\* documents without words are as they are expected to be before any word is seen
Unread(c, ev) == \A d \in 1..Len(ev.words) :
  SumFun(ev.words[d]) > 0 \/ LET y == Shares(ev.before[d]) IN \A k \in 1..Len(y) : Abs(ev.state.mix[d][k] - 100 * y[k]) <= 1500 + c.tol
QueryClause(c, ev) ==
  LET x == StateClause(c, ev.words, ev.state)
  IN CASE ~ ev.same -> "CorpusChanged"
       [] ~ ev.kept -> "QueryChangedModel"
       [] x # "" -> x
       [] ~ Unread(c, ev) -> "NoWordsNoOpinion"
       [] c.kind \in Stepwise /\ ~ Near(ev.alone, ev.state.mix, c.tol) -> "DocumentsApart"
       [] c.kind \in Stepwise /\ ~ Near(ev.parts, ev.state.mix, c.tol) -> "QueryInParts"
       [] OTHER -> ""
SVerdict(c, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "start" -> StateClause(c, c.words, ev.state)
    [] ev.op = "sweep" -> SweepClause(c, ev)
    [] ev.op = "run" -> RunClause(c, ev)
    [] ev.op = "again" -> IF Same(ev.state, c.after[ev.n + 1], c.tol) THEN "" ELSE "SameSeedSameResult"
    [] ev.op = "resume" -> IF Same(ev.state, c.after[ev.n + 1], c.tol) THEN "" ELSE "TrainingInParts"
    [] ev.op = "rearranged" -> IF Same(ev.state, c.after[ev.n + 1], c.tol) THEN "" ELSE "OrderMattered"
    [] ev.op = "copy" -> IF ~ ev.equal THEN "CopyEqual" ELSE IF ~ ev.apart THEN "CopyShared" ELSE ""
    [] ev.op = "query" -> QueryClause(c, ev)
    [] OTHER -> "UnknownOperation"
SNext(c, ev) == IF ev.op \in {"start", "sweep"} THEN [c EXCEPT !.after = Append(@, ev.state)] ELSE c
SEnd(c) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
