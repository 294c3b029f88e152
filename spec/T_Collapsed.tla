---------------------------- MODULE T_Collapsed ----------------------------
(* Recorded calls of the collapsed variational modules against Collapsed. *)
EXTENDS Collapsed, TLC
VARIABLES ti, l, st, bad

\* st: models and queries by their number; c the initial record
SInit(init) == [c |-> init, models |-> [i \in 1..init.models |-> [live |-> FALSE]], queries |-> [i \in 1..init.queries |-> [live |-> FALSE]]]

Tol(c, v) == 60 + 3 * c.tokens + Abs(v) \div (IF c.single THEN 20000 ELSE 1000000)
Near(c, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= Tol(c, b[i])
NearM(c, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(c, a[i], b[i])

P(c) == [K |-> c.K, T |-> c.T, alpha |-> c.alpha, beta |-> c.beta, second |-> c.second, fine |-> IF c.single THEN 10000 ELSE 1500]
NoFits(c) == [fits |-> <<>>, dk |-> <<>>, vdk |-> <<>>, kt |-> Nothing(c.K, c.T).kt, k |-> Zero(c.K),
              vkt |-> Nothing(c.K, c.T).kt, vk |-> Zero(c.K)]

\* a distribution for each occurrence
Distributions(c, z) == \A d \in 1..Len(z) : \A n \in 1..Len(z[d]) :
   /\ Len(z[d][n]) = c.K
   /\ \A k \in 1..c.K : z[d][n][k] >= -1 /\ z[d][n][k] <= One + 10
   /\ Abs(SumFun(z[d][n]) - One) <= 20

QueryClause(c, x, q, v) ==
  LET t == Totals(c.K, c.T, q.w, q.z)
  IN CASE ~ Occurrences(q.w, c.corpora[x].words) -> "Occurrences"
       [] Len(q.z) # Len(q.w) \/ \E d \in 1..Len(q.z) : Len(q.z[d]) # Len(q.w[d]) -> "OneDistributionPerOccurrence"
       [] ~ Distributions(c, q.z) -> "SumsToOne"
       [] ~ NearM(c, q.dk, t.dk) -> "DocumentTotals"
       [] ~ NearM(c, q.kt, t.kt) -> "WordTotals"
       [] ~ Near(c, q.k, t.k) -> "TopicTotals"
       [] v /\ c.second -> LET s == Totals(c.K, c.T, q.w, SpreadOf(q.z)) IN
             IF NearM(c, q.vdk, s.dk) /\ NearM(c, q.vkt, s.kt) /\ Near(c, q.vk, s.k) THEN "" ELSE "Variances"
       [] OTHER -> ""

SameModel(c, a, b) == /\ NearM(c, a.dk, b.dk) /\ NearM(c, a.kt, b.kt) /\ Near(c, a.k, b.k)
                      /\ c.second => NearM(c, a.vdk, b.vdk) /\ NearM(c, a.vkt, b.vkt) /\ Near(c, a.vk, b.vk)

\* a trained model is what it was and what the documents add to it
ModelClause(c, old, q, x, m) ==
  LET fits == Append(old.fits, x)
  IN CASE ~ NearM(c, m.dk, old.dk \o q.dk) -> "ModelDocuments"
       [] ~ NearM(c, m.kt, PlusM(old.kt, q.kt)) -> "ModelWords"
       [] ~ Near(c, m.k, Plus(old.k, q.k)) -> "ModelTopics"
       [] c.second /\ ~ (NearM(c, m.vdk, old.vdk \o q.vdk) /\ NearM(c, m.vkt, PlusM(old.vkt, q.vkt)) /\ Near(c, m.vk, Plus(old.vk, q.vk))) -> "ModelVariances"
       [] \E t \in 1..c.T :
            LET f == One * FoldLeft(LAMBDA a, y : a + SumTo(Len(c.corpora[y].words), LAMBDA d : c.corpora[y].words[d][t]), 0, fits)
            IN Abs(SumFun(Column(m.kt, t)) - f) > c.K * Tol(c, f) -> "WordFrequencies"
       [] OTHER -> ""

\* models that had nothing to do with a call are as they were
Others(s, ev) == \A i \in 1..Len(ev.models) : LET o == ev.models[i] IN
                    o.m = ev.m2 \/ ~ s.models[o.m].live \/ o.trained # (s.models[o.m].fits # <<>>) \/
                    (o.trained => SameModel(s.c, o, s.models[o.m]))
OthersTrained(s, ev) == \A i \in 1..Len(ev.models) : LET o == ev.models[i] IN o.m = ev.m2 \/ o.trained = (s.models[o.m].fits # <<>>)

Swept(s, ev, old) ==
  LET c == s.c b == s.queries[ev.q].z
  IN CASE ev.iters = 0 -> IF \A d \in 1..Len(b) : NearM(c, ev.query.z[d], b[d]) THEN "" ELSE "MovedWithoutSweep"
       [] ev.iters = 1 /\ c.even ->
            LET base == [kt |-> old.kt, k |-> old.k] vbase == [kt |-> old.vkt, k |-> old.vk]
            IN IF Sweep(P(c), base, vbase, ev.query.w, b, ev.query.z) = <<>> THEN "" ELSE "Proportion"
       [] OTHER -> ""

CallClause(s, ev) ==
  LET c == s.c old == s.models[ev.m] before == s.queries[ev.q]
      qc == QueryClause(c, before.x, ev.query, TRUE)
      m == ev.models[1]
  IN CASE qc # "" -> qc
       [] ev.query.w # before.w -> "OccurrencesChanged"
       [] ~ Others(s, ev) \/ ~ OthersTrained(s, ev) -> "ModelChanged"
       [] Swept(s, ev, old) # "" -> Swept(s, ev, old)
       [] m.m # ev.m2 \/ ~ m.trained -> "NoModel"
       [] ev.op = "query" -> IF SameModel(c, m, old) THEN "" ELSE "QueryChangedModel"
       [] OTHER -> ModelClause(c, old, ev.query, before.x, m)

Empty(c, x) == \E d \in 1..Len(c.corpora[x].words) : SumFun(c.corpora[x].words[d]) = 0
SVerdict(s, ev) ==
  CASE ev.op = "new" -> IF ev.exc = "" THEN "" ELSE "Raised" \o ev.exc
    [] ev.op = "copy" -> IF ev.exc # "" THEN "Raised" \o ev.exc
                         ELSE IF ~ Others(s, ev) \/ ~ OthersTrained(s, ev) THEN "ModelChanged"
                         ELSE IF ev.models[1].trained # (s.models[ev.m].fits # <<>>) THEN "CopyDiffers"
                         ELSE IF ev.models[1].trained /\ ~ SameModel(s.c, ev.models[1], s.models[ev.m]) THEN "CopyDiffers" ELSE ""
    [] ev.op = "state" -> IF ev.exc # "" THEN "Raised" \o ev.exc
                          ELSE IF ~ Others(s, ev) \/ ~ OthersTrained(s, ev) THEN "ModelChanged" ELSE QueryClause(s.c, ev.x, ev.query, TRUE)
    [] Empty(s.c, s.queries[ev.q].x) -> IF ev.exc = "ValueError" THEN "" ELSE IF ev.exc = "" THEN "EmptyDocumentAccepted" ELSE "Raised" \o ev.exc
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] OTHER -> CallClause(s, ev)

Kept(s, ev) == LET m == ev.models[1] IN
  [live |-> TRUE, fits |-> Append(s.models[ev.m].fits, s.queries[ev.q].x), dk |-> m.dk, kt |-> m.kt, k |-> m.k,
   vdk |-> m.vdk, vkt |-> m.vkt, vk |-> m.vk]
SNext(s, ev) ==
  CASE ev.op = "new" -> [s EXCEPT !.models[ev.m2] = [live |-> TRUE] @@ NoFits(s.c)]
    [] ev.op = "copy" -> [s EXCEPT !.models[ev.m2] = s.models[ev.m]]
    [] ev.op = "state" -> [s EXCEPT !.queries[ev.q] = [live |-> TRUE, x |-> ev.x, z |-> ev.query.z, w |-> ev.query.w]]
    [] ev.exc # "" -> s
    [] OTHER -> LET t == [s EXCEPT !.queries[ev.q2] = [live |-> TRUE, x |-> s.queries[ev.q].x, z |-> ev.query.z, w |-> ev.query.w]]
                IN IF ev.op = "query" THEN [t EXCEPT !.models[ev.m2] = s.models[ev.m]]
                   ELSE [t EXCEPT !.models[ev.m2] = Kept(s, ev)]
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
