---------------------------- MODULE T_Experiment ----------------------------
(* Recorded experiments with a model that notes what it is given: who trained on what, who was asked about what, and
   what was made of the answers. *)
EXTENDS Experiment
VARIABLES ti, l, st, bad

Set(s, d) == s.c.sets[d]
D(s) == Len(s.base)
AllOf(s) == Range(s.base)
Pos(s, d) == CHOOSE p \in 1..Len(s.base) : s.base[p] = d

(* ---- what the corpus says of a document ---------------------------------------------------------------- *)
HasF(s) == s.c.feats # <<>>
HasL(s) == s.c.links # <<>>
OneAlready(s) == \E j \in 1..Len(s.c.feats[1]) : \A d \in AllOf(s) : s.c.feats[d][j] = 1
FeatRow(s, d) == IF s.c.via = "run" /\ ~OneAlready(s) THEN Append(s.c.feats[d], 1) ELSE s.c.feats[d]
LinkRow(s, d) == [p \in 1..D(s) |-> s.c.links[d][s.base[p]]]
WordsAsGiven(s, x) == Len(x.words) = Len(x.docs) /\ \A i \in 1..Len(x.docs) : x.words[i] = s.c.words[x.docs[i]]
FeatsAsGiven(s, x) == IF HasF(s) THEN Len(x.feats) = Len(x.docs) /\ \A i \in 1..Len(x.docs) : x.feats[i] = FeatRow(s, x.docs[i]) ELSE x.feats = <<>>
LinksAsGiven(s, x) == IF HasL(s) THEN Len(x.links) = Len(x.docs) /\ \A i \in 1..Len(x.docs) : x.links[i] = LinkRow(s, x.docs[i]) ELSE x.links = <<>>
Known(s, x) == IsInjective(x.docs) /\ Range(x.docs) \subseteq AllOf(s)
Typed(s, x) == x.dt = TypeName(s.c.dtype)
DocsAre(x, S) == IsInjective(x.docs) /\ Range(x.docs) = S

Folded(s) == s.c.flow \in {"perplexity", "tags", "hashtags"}
WithLda(s) == s.c.lda /\ UsesLda(s.c.name)

(* ---- features of outsample ------------------------------------------------------------------------------ *)
\* the features that are still to be looked at in the i-th round
Left(s, i) == {s.c.mask[j] : j \in i..Len(s.c.mask)}
FeatTrain(s, i) == {d \in AllOf(s) : \A j \in Left(s, i) : FeatRow(s, d)[j] = 0}
FeatQuery(s, i) == {d \in AllOf(s) : FeatRow(s, d)[s.c.mask[i]] > 0}
Rounds(s) == IF s.c.flow = "outsample" THEN Len(s.c.mask) ELSE IF s.c.flow = "linkmap" THEN s.c.nfolds ELSE Wanted(s.c.nfolds, s.c.stop)

(* ---- what a model may be trained on -------------------------------------------------------------------- *)
\* the folds whose training part this is
FoldsOf(s, d) == LET x == Set(s, d) IN {f \in 0..s.c.nfolds - 1 : DocsAre(x, TrainDocs(s.base, s.c.nfolds, f))}
SubLinks(s, x, cols) == /\ Len(x.links) = Len(x.docs)
                        /\ \A i \in 1..Len(x.docs) : /\ Len(x.links[i]) = Len(cols)
                                                     /\ \A j \in 1..Len(cols) : x.links[i][j] = s.c.links[x.docs[i]][cols[j]]
Bit(v) == IF v # 0 THEN 1 ELSE 0
BothWays(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> Bit(m[i][j] + m[j][i])]]
\* links kept for training: none that isn't there
Partial(s, x) == /\ Len(x.links) = Len(x.docs)
                 /\ \A i, j \in 1..Len(x.docs) :
                      IF s.c.undirected THEN x.links[i][j] \in {0, 1} /\ x.links[i][j] = x.links[j][i]
                                             /\ (x.links[i][j] = 1 => LinkRow(s, x.docs[i])[j] + LinkRow(s, x.docs[j])[i] # 0)
                      ELSE x.links[i][j] \in {0, LinkRow(s, x.docs[i])[j]}
TrainingPart(s, d) == LET x == Set(s, d) IN
  CASE ~Known(s, x) -> "DocumentsOfTheCorpus"
    [] ~Typed(s, x) -> "DataOfTheTypeAskedFor"
    [] ~WordsAsGiven(s, x) -> "TrainingWordsAsGiven"
    [] ~FeatsAsGiven(s, x) -> "TrainingFeaturesAsGiven"
    [] Folded(s) /\ s.c.nfolds = 1 /\ ~DocsAre(x, AllOf(s)) -> "TrainsOnTheTrainingPart"
    [] Folded(s) /\ s.c.nfolds > 1 /\ FoldsOf(s, d) = {} -> "TrainsOnTheTrainingPart"
    [] Folded(s) /\ ~LinksAsGiven(s, x) -> "TrainingLinksAsGiven"
    [] s.c.flow \in {"linkmap", "linkprec", "insample"} /\ x.docs # s.base -> "TrainsOnAllDocuments"
    [] s.c.flow \in {"linkmap", "linkprec", "insample"} /\ ~Partial(s, x) -> "TrainsOnAPartOfTheLinks"
    [] s.c.flow = "outsample" /\ ~(s.round <= Rounds(s) /\ DocsAre(x, FeatTrain(s, s.round))) -> "TrainsWithoutTheFeatures"
    [] s.c.flow = "outsample" /\ (IF s.c.undirected THEN ~(\A i, j \in 1..Len(x.docs) : x.links[i][j] = Bit(s.c.links[x.docs[i]][x.docs[j]] + s.c.links[x.docs[j]][x.docs[i]]))
                                  ELSE ~SubLinks(s, x, x.docs)) -> "TrainsOnLinksAmongThem"
    [] OTHER -> ""

(* ---- what a trained model may be asked about ----------------------------------------------------------- *)
Below(a, b) == \A j \in 1..Len(b) : a[j] >= 0 /\ a[j] <= b[j]
\* words of a held-out document, some of whose tags are taken away
TagsTaken(s, w, d) == LET o == s.c.words[d] IN \A j \in 1..Len(o) :
  IF j \notin Range(s.c.tags) THEN w[j] = o[j]
  ELSE CASE s.c.prop = 0 -> w[j] = o[j] [] s.c.prop = 100 -> w[j] = 0 [] OTHER -> w[j] \in {0, o[j]}
QueryPart(s, d, model) == LET x == Set(s, d)  t == Set(s, s.trained[model].data) IN
  CASE ~Known(s, x) -> "DocumentsOfTheCorpus"
    [] ~Typed(s, x) -> "DataOfTheTypeAskedFor"
    [] ~FeatsAsGiven(s, x) -> "QueryFeaturesAsGiven"
    [] Folded(s) /\ ~(\E f \in FoldsOf(s, s.trained[model].data) : DocsAre(x, HeldOut(s.base, s.c.nfolds, f))) -> "AsksOfTheDocumentsHeldOut"
    [] Folded(s) /\ ~LinksAsGiven(s, x) -> "QueryLinksAsGiven"
    [] s.c.flow = "perplexity" /\ HasF(s) /\ ~WordsAsGiven(s, x) -> "QueryWordsAsGiven"
    [] s.c.flow = "perplexity" /\ ~HasF(s) /\ ~(Len(x.words) = Len(x.docs) /\ \A i \in 1..Len(x.docs) : Below(x.words[i], s.c.words[x.docs[i]])) -> "AsksOfAPartOfTheWords"
    [] s.c.flow \in {"tags", "hashtags"} /\ ~(Len(x.words) = Len(x.docs) /\ \A i \in 1..Len(x.docs) : TagsTaken(s, x.words[i], x.docs[i])) -> "TagsTakenAway"
    [] s.c.flow \in {"linkmap", "linkprec", "insample"} -> "AsksOnlyOfTheTrained"
    [] s.c.flow = "outsample" /\ ~(s.round <= Rounds(s) /\ DocsAre(x, FeatQuery(s, s.round))) -> "AsksOfThoseWithTheFeature"
    [] s.c.flow = "outsample" /\ ~WordsAsGiven(s, x) -> "QueryWordsAsGiven"
    [] s.c.flow = "outsample" /\ ~SubLinks(s, x, t.docs) -> "QueryLinksToTheTrained"
    [] OTHER -> ""

PlanOk(s, p, which) == IF s.c.via = "call" THEN p = IF which = "query" /\ s.c.flow = "perplexity" THEN 2 ELSE 1
                       ELSE p \in 1..Len(s.plans) /\ s.plans[p] = (IF which = "query" /\ s.c.flow = "perplexity" THEN s.c.opts.qiters ELSE s.c.opts.iters)

Arg(ev, k) == {ev.args[i] : i \in {i \in 1..Len(ev.args) : ev.args[i].arg = k}}
Has(ev, p) == \E a \in Arg(ev, p[1]) : a.n = p[2] /\ a.text = ""
HasText(ev, k, v) == \E a \in Arg(ev, k) : a.text = v

(* ---- calls ----------------------------------------------------------------------------------------------- *)
Batched(s) == s.c.cmd = "lda_svb" /\ s.c.opts.batch > 0
CallVerdict(s, ev) ==
  CASE ev.op = "new" ->
         CASE ev.leaf # Leaf(s.c.cmd) -> "TheModelNamed"
           [] OTHER -> LET x == Set(s, (CHOOSE a \in Arg(ev, "data") : TRUE).n) IN
                CASE \E p \in Told(s.c.cmd, s.c.K, s.c.opts) : ~Has(ev, p) -> "ModelToldItsSettings"
                  [] ~HasText(ev, "dtype", "@" \o TypeName(s.c.opts.mdt)) -> "ModelOfTheTypeAskedFor"
                  [] s.c.cmd = "sim_lda_vb" /\ ~HasText(ev, "method", "lda") -> "ModelToldItsSettings"
                  [] s.c.cmd = "sim_tfidf" /\ ~HasText(ev, "method", "tfidf") -> "ModelToldItsSettings"
                  [] ~DocsAre(x, Kept(s.c.words, s.c.limit)) -> "DocumentsKept"
                  [] ~WordsAsGiven([s EXCEPT !.base = x.docs], x) \/ ~FeatsAsGiven([s EXCEPT !.base = x.docs], x)
                     \/ ~LinksAsGiven([s EXCEPT !.base = x.docs], x) -> "DocumentsAsGiven"
                  [] ~Typed(s, x) -> "DataOfTheTypeAskedFor"
                  [] OTHER -> ""
    [] ev.op = "plan" ->
         CASE ev.leaf # Leaf(s.c.cmd) -> "TheModelNamed"
           [] Len(s.plans) = 0 /\ Batched(s) /\ ~(\A p \in {<<"batchSize", s.c.opts.batch * 1000000>>, <<"rate_delay", s.c.opts.delay * 10000>>,
                                                             <<"forgetting_rate", s.c.opts.forget * 10000>>} : Has(ev, p)) -> "PlanOfBatches"
           [] ~Batched(s) /\ Arg(ev, "batchSize") # {} -> "PlanOfBatches"
           [] OTHER -> ""
    [] ev.op = "copy" -> CASE ev.of # 1 -> "StartsFromTheSample"
                           [] ev.lda # (IF WithLda(s) THEN 7 ELSE 0) -> "GivenTheTrainedTopics"
                           [] OTHER -> ""
    [] ev.op = "state" ->
         CASE ~(ev.model \in DOMAIN s.copies \/ ev.model \in DOMAIN s.trained) -> "AModelOfThisRun"
           [] WithLda(s) /\ ev.model \in DOMAIN s.copies
              /\ ev.lda # [i \in 1..Len(Set(s, ev.data).docs) |-> Pos(s, Set(s, ev.data).docs[i])] -> "GivenTheTopicsOfItsDocuments"
           [] ~WithLda(s) /\ ev.lda # <<>> -> "GivenTheTopicsOfItsDocuments"
           [] OTHER -> ""
    [] ev.op = "train" ->
         CASE ev.model \notin DOMAIN s.copies \/ ev.model \in s.spent -> "FreshModelForEveryFold"
           [] ev.tops \notin DOMAIN s.states -> "StateOfTheDocuments"
           [] s.states[ev.tops] # <<ev.data, ev.model>> -> "StateOfTheDocuments"
           [] ~PlanOk(s, ev.plan, "train") -> "TrainedAsPlanned"
           [] OTHER -> TrainingPart(s, ev.data)
    [] ev.op = "query" ->
         CASE ev.model \notin DOMAIN s.trained -> "AsksTheTrainedModel"
           [] ev.tops \notin DOMAIN s.states -> "StateOfTheDocuments"
           [] s.states[ev.tops] # <<ev.data, ev.model>> -> "StateOfTheDocuments"
           [] ~PlanOk(s, ev.plan, "query") -> "AskedAsPlanned"
           [] OTHER -> QueryPart(s, ev.data, ev.model)
    [] ev.op \in {"like", "dists"} -> ""
    [] ev.op = "floor" ->
         CASE ev.model \notin DOMAIN s.trained -> "AsksTheTrainedModel"
           [] s.trained[ev.model].tops # ev.train -> "LinksFromItsOwnTopics"
           [] OTHER -> ""
    [] ev.op = "links" ->
         CASE ev.model \notin DOMAIN s.trained -> "AsksTheTrainedModel"
           [] s.trained[ev.model].tops # ev.train -> "LinksFromItsOwnTopics"
           [] ev.floor \notin DOMAIN s.floors -> "FloorOfTheseLinks"
           [] LET f == s.floors[ev.floor] IN f.model # ev.model \/ f.query # ev.query \/ f.subset # ev.subset \/ f.all # ev.all -> "FloorOfTheseLinks"
           [] s.c.flow = "outsample" /\ ~(ev.query \in DOMAIN s.queried) -> "LinksOfTheDocumentsAsked"
           [] s.c.flow = "outsample" /\ s.queried[ev.query].model # ev.model -> "LinksOfTheDocumentsAsked"
           [] s.c.flow = "outsample" /\ s.floors[ev.floor].links # Set(s, s.queried[ev.query].data).links -> "ExpectsTheLinksHeldOut"
           [] s.c.flow # "outsample" /\ ev.query # ev.train -> "LinksOfTheDocumentsTrained"
           [] s.c.flow \in {"linkmap", "linkprec"} /\ ~ev.all -> "LinksOfAllDocuments"
           [] s.c.flow \in {"linkmap", "linkprec", "insample"} /\ ~LET x == Set(s, s.trained[ev.model].data)  q == s.floors[ev.floor].links
                       who == IF ev.all THEN 1..Len(x.docs) ELSE Range(ev.subset)
                       kept == [i \in 1..Len(x.docs) |-> [j \in 1..Len(x.docs) |-> LinkRow(s, x.docs[i])[j] - (IF i \in who THEN q[i][j] ELSE 0)]]
                   IN /\ \A i \in who : \A j \in 1..Len(x.docs) : q[i][j] \in {0, LinkRow(s, x.docs[i])[j]}
                      /\ x.links = IF s.c.undirected THEN BothWays(kept) ELSE kept -> "ExpectsTheLinksHeldOut"
           [] OTHER -> ""
    [] OTHER -> "UnknownEvent"

(* ---- what was to be ranked, in each round that came to its end ------------------------------------------- *)
\* held-out documents and their tags that were taken away
TagDocs(s, q) == LET x == Set(s, q.data) IN
  [i \in 1..Len(x.docs) |->
     [cands |-> {[id |-> t, score |-> s.c.vocab[q.z[i]][t]] : t \in Range(s.c.tags)},
      expected |-> {t \in Range(s.c.tags) : x.words[i][t] = 0 /\ s.c.words[x.docs[i]][t] # 0}]]
LinkDocs(s, k) == LET q == s.floors[k.floor].links
                      who == IF k.all THEN [i \in 1..Len(q) |-> i] ELSE k.subset IN
  [i \in 1..Len(who) |->
     [cands |-> {[id |-> j, score |-> k.scores[i][j]] : j \in 1..Len(k.scores[i])},
      expected |-> {j \in 1..Len(q[who[i]]) : q[who[i]][j] # 0}]]

Flat(seqs) == LET RECURSIVE F(_)
                  F(i) == IF i > Len(seqs) THEN <<>> ELSE seqs[i] \o F(i + 1) IN F(1)

Ranked(s) == IF s.c.flow = "tags" THEN [i \in 1..Len(s.asked) |-> TagDocs(s, s.queried[s.asked[i]])]
             ELSE [i \in 1..Len(s.linked) |-> LinkDocs(s, s.linked[i])]

Far(a, b, t) == Abs(a - b) > t
Bands == <<<<0, 3>>, <<3, 5>>, <<5, 10>>, <<10, 1000>>>>
AllBands == Range(Bands) \cup {Everything}

\* v is num / den in thousandths
Near(v, num, den) == Abs(v * den - 1000 * num) <= den
TableVerdict(docs, t, which) ==
  LET row(g) == t.rows[CHOOSE i \in 1..Len(t.rows) : t.rows[i].group = g]
      mem == [g \in AllBands |-> Members(docs, Bands, g)]
  IN CASE t.title # which -> "TablesReported"
       [] {t.rows[i].group : i \in 1..Len(t.rows)} # AllBands \/ Len(t.rows) # Cardinality(AllBands) -> "GroupsReported"
       [] \E g \in AllBands : Len(row(g).v) # Len(t.ms) -> "CutOffsReported"
       [] \E g \in AllBands : row(g).n # Cardinality(mem[g]) -> "DocumentsInGroup"
       [] \E g \in AllBands : \E i \in 1..Len(t.ms) :
            IF mem[g] = {} THEN row(g).v[i] # 0
            ELSE IF which = "Precision" THEN ~Near(row(g).v[i], HitSum(docs, mem[g], t.ms[i]), t.ms[i] * Cardinality(mem[g]))
            ELSE ~Near(row(g).v[i], RecallSum(docs, mem[g], t.ms[i]), DegUnits * Cardinality(mem[g])) -> which \o "AtM"
       [] OTHER -> ""
\* in ten-thousandths, up to t of them
MrrOf(docs, v) == LET n == RRCount(docs) IN ~Far(v * 20 * n, 10000 * (RRUnits(docs) \div 1386), 20 * n + 10000)
MapOf(docs, v, t) == LET n == Len(docs) IN ~Far(v * 1200 * n, 10000 * (APUnits(docs) \div 1386), 1200 * n * t + 10000)
NoLinks(docs) == RRCount(docs) = 0

RankVerdict(s, ev) ==
  LET R == Ranked(s)  n == Len(R)  all == Flat(R)
      T == ev.tables
      bad1 == {i \in 1..2 * n : TableVerdict(R[(i + 1) \div 2], T[i], IF i % 2 = 1 THEN "Precision" ELSE "Recall") # ""}
      lens == SumTo(n, LAMBDA i : Len(R[i]))
  IN CASE n # Rounds(s) -> "FoldsAttempted"
       [] Len(T) # 2 * n + 2 -> "TablesReported"
       [] bad1 # {} -> LET i == CHOOSE i \in bad1 : \A j \in bad1 : i <= j IN TableVerdict(R[(i + 1) \div 2], T[i], IF i % 2 = 1 THEN "Precision" ELSE "Recall")
       [] TableVerdict(all, T[2 * n + 1], "Precision") # "" -> "Overall" \o TableVerdict(all, T[2 * n + 1], "Precision")
       [] TableVerdict(all, T[2 * n + 2], "Recall") # "" -> "Overall" \o TableVerdict(all, T[2 * n + 2], "Recall")
       [] Len(ev.mrr) # n + 1 -> "MeanReciprocalRank"
       [] \E i \in 1..n : ~MrrOf(R[i], ev.mrr[i]) -> "MeanReciprocalRank"
       [] Far(ev.mrr[n + 1] * lens, SumTo(n, LAMBDA i : ev.mrr[i] * Len(R[i])), 2 * lens) -> "OverallMeanReciprocalRank"
       [] Len(ev.map) \notin (IF s.c.flow = "linkprec" THEN {n, n + 1} ELSE {n + 1}) -> "MeanAveragePrecision"
       [] \E i \in 1..n : ~MapOf(R[i], ev.map[i], 1) -> "MeanAveragePrecision"
       [] Len(ev.map) = n + 1 /\ Far(ev.map[n + 1] * lens, SumTo(n, LAMBDA i : ev.map[i] * Len(R[i])), 2 * lens) -> "OverallMeanAveragePrecision"
       [] OTHER -> ""

MapsVerdict(s, ev) == LET R == Ranked(s) IN
  CASE Len(R) # s.c.nfolds \/ Len(ev.foldmaps) # s.c.nfolds -> "FoldsAttempted"
    [] \E i \in 1..Len(R) : ev.foldmaps[i].fold # i - 1 -> "FoldsAttempted"
    [] \E i \in 1..Len(R) : ~MapOf(R[i], ev.foldmaps[i].v, 6) -> "MeanAveragePrecision"
    [] OTHER -> ""

(* ---- hashtags: which documents have a tag, rather than which tags a document has --------------------------- *)
TagHits(s, q, t, m) == LET x == Set(s, q.data)
                           sc(i) == s.c.vocab[q.z[i]][t]
                           top == {i \in 1..Len(x.docs) : Cardinality({j \in 1..Len(x.docs) : sc(j) > sc(i)}) < m}
                       IN Cardinality({i \in top : x.words[i][t] = 0 /\ s.c.words[x.docs[i]][t] # 0})
HashtagVerdict(s, ev) ==
  LET heads == SelectSeq([i \in 1..Len(ev.tags) |-> i], LAMBDA i : ev.tags[i].title = "")
      n == Len(s.asked)
      done == Len(heads)
      per == 2 * Len(s.c.tags) + 1
  IN CASE done # n -> "FoldsAttempted"
       [] Len(ev.tags) # n * per \/ \E i \in 1..n : heads[i] # (i - 1) * per + 1 -> "TagsReported"
       [] \E i \in 1..n : \E w \in {"Precision", "Recall"} : \E t \in Range(s.c.tags) :
            ~(\E j \in 1..per - 1 : LET r == ev.tags[heads[i] + j] IN r.title = w /\ r.tag = s.c.dict[t]) -> "TagsReported"
       [] \E i \in 1..n : \E j \in 1..per - 1 : \E t \in Range(s.c.tags) :
            LET r == ev.tags[heads[i] + j]  q == s.queried[s.asked[i]]  ms == ev.tags[heads[i]].v
                count == TagHits(s, q, t, 1000000) IN
            r.tag = s.c.dict[t] /\ (\/ r.n # count \/ Len(r.v) # Len(ms)
                                    \/ \E k \in 1..Len(ms) : ~Near(r.v[k], TagHits(s, q, t, ms[k]),
                                          IF r.title = "Precision" THEN ms[k] ELSE IF ms[k] < count THEN ms[k] ELSE IF count = 0 THEN 1 ELSE count)) -> "DocumentsWithTheTag"
       [] OTHER -> ""

(* ---- perplexity ------------------------------------------------------------------------------------------- *)
TrainLikes(s, f) == {i \in 1..Len(s.likes) : LET k == s.likes[i] IN
    /\ k.model \in DOMAIN s.trained /\ s.trained[k.model].data = k.data /\ s.trained[k.model].tops = k.tops
    /\ IF s.c.nfolds = 1 THEN TRUE ELSE f \in FoldsOf(s, k.data)}
Halves(s, e, v) == LET x == Set(s, e)  y == Set(s, v) IN
    /\ x.docs = y.docs
    /\ FeatsAsGiven(s, y)
    /\ IF HasF(s) THEN WordsAsGiven(s, y)
       ELSE Len(y.words) = Len(y.docs) /\ \A i \in 1..Len(x.docs) : \A j \in 1..Len(x.words[i]) : x.words[i][j] + y.words[i][j] = s.c.words[x.docs[i]][j]
QueryLikes(s, f) == {i \in 1..Len(s.likes) : LET k == s.likes[i] IN
    /\ k.tops \in DOMAIN s.queried /\ k.model = s.queried[k.tops].model
    /\ f \in FoldsOf(s, s.trained[k.model].data)
    /\ DocsAre(Set(s, k.data), HeldOut(s.base, s.c.nfolds, f))
    /\ Halves(s, s.queried[k.tops].data, k.data)}
\* the likelihoods of which the line for a fold speaks
Lines(s, line) == {<<i, j>> \in TrainLikes(s, line.fold) \X QueryLikes(s, line.fold) :
    /\ s.likes[i].model = s.likes[j].model
    /\ ~Far(line.train, 1000 * s.likes[i].bits, 2) /\ ~Far(line.query, 1000 * s.likes[j].bits, 2)}
Line(s, line) == CHOOSE p \in Lines(s, line) : TRUE
TotalOk(t, n, likes, idx) ==
  LET w == SumTo(Len(idx), LAMBDA i : likes[idx[i]].words)  b == SumTo(Len(idx), LAMBDA i : likes[idx[i]].words * likes[idx[i]].bits) IN
  t.n = n /\ t.bits = b /\ ~Far(t.perp * w, 1000 * b, 3 * w)

FoldNumbers(ev) == [i \in 1..Len(ev.folds) |-> ev.folds[i].fold]
PerplexityVerdict(s, ev) ==
  LET F == FoldNumbers(ev)  n == Len(F) IN
  IF s.c.nfolds = 1 THEN
    LET L == TrainLikes(s, 0) IN
    CASE ev.folds # <<>> \/ ev.totals # <<>> \/ Len(ev.whole) # 2 -> "WholeReported"
      [] ~(\E i \in L : \A j \in 1..2 : LET w == ev.whole[j] IN
             IF w.which = "Likelihood" THEN w.v = s.likes[i].bits * s.likes[i].words ELSE ~Far(w.v, 1000 * s.likes[i].bits, 2)) -> "WholePerplexity"
      [] ev.whole[1].which = ev.whole[2].which -> "WholeReported"
      [] OTHER -> ""
  ELSE CASE ~Rising(F) \/ \E i \in 1..n : F[i] \notin 0..s.c.nfolds - 1 -> "FoldsInOrder"
         [] n > Wanted(s.c.nfolds, s.c.stop) -> "NoMoreFoldsThanAskedFor"
         [] Attempted(F, s.c.nfolds, s.c.stop) # n + s.failed -> "FoldsAttempted"
         [] \E i \in 1..n : Lines(s, ev.folds[i]) = {} -> "PerplexityOfAFold"
         [] Len(ev.totals) # 2 \/ {ev.totals[i].which : i \in 1..Len(ev.totals)} # {"Train", "Query"} -> (IF n = 0 THEN "" ELSE "TotalsReported")
         [] \E i \in 1..2 : ~TotalOk(ev.totals[i], n, s.likes, [j \in 1..n |-> Line(s, ev.folds[j])[IF ev.totals[i].which = "Train" THEN 1 ELSE 2]]) -> "Totals"
         [] OTHER -> ""

(* ---- files ------------------------------------------------------------------------------------------------ *)
\* the model that was saved is one of this fold, with what belongs to it
FileOk(s, ev, x) ==
  LET t == s.trained[x.model] IN
  CASE ~x.ok -> "FilesCanBeRead"
    [] x.stem # Stem(s.c.name, s.c.K, s.c.P) -> "FileNames"
    [] ~x.returned -> "FilesReturned"
    [] x.order # s.base -> "SavedOrder"
    [] x.model \notin DOMAIN s.trained -> "SavedModel"
    [] s.c.nfolds > 1 /\ Folded(s) /\ x.fold \notin FoldsOf(s, t.data) -> "SavedModel"
    [] s.c.flow \in {"linkmap", "linkprec", "insample"} /\ (x.fold + 1 \notin 1..Len(s.linked) \/ s.linked[x.fold + 1].model # x.model) -> "SavedModel"
    [] s.c.flow = "outsample" /\ ~(\E i \in 1..Len(s.linked) : s.linked[i].model = x.model /\ s.c.mask[i] = x.fold + 1) -> "SavedModel"
    [] x.itrs # <<x.model, x.model + 1>> \/ x.vbs # <<-x.model>> \/ x.likes # <<-x.model - 1>> -> "SavedMeasurements"
    [] x.train # t.tops -> "SavedTopics"
    [] s.c.flow = "perplexity" /\ s.c.nfolds > 1 /\ ~(x.query \in DOMAIN s.queried) -> "SavedTopics"
    [] s.c.flow = "perplexity" /\ s.c.nfolds > 1 /\ s.queried[x.query].model # x.model -> "SavedTopics"
    [] ~(x.query \in {0, t.tops}) /\ ~(x.query \in DOMAIN s.queried) -> "SavedTopics"
    [] ~x.varcs \/ (s.c.name # "stm-yv/bohning" /\ ~x.exps) -> "SavedTopics"
    [] OTHER -> ""
FoldsToSave(s, ev) == CASE s.c.flow = "perplexity" -> IF s.c.nfolds = 1 THEN {0} ELSE Range(FoldNumbers(ev))
                        [] s.c.flow = "hashtags" -> {-9}
                        [] s.c.flow = "outsample" -> {m - 1 : m \in Range(s.c.mask)}
                        [] OTHER -> 0..Rounds(s) - 1
FilesVerdict(s, ev) ==
  LET X == ev.files  saved == {X[i].fold : i \in 1..Len(X)}
      wrong == {i \in 1..Len(X) : FileOk(s, ev, X[i]) # ""} IN
  CASE ~s.c.save -> (IF X # <<>> \/ ev.returned # 0 THEN "NoFilesUnlessAskedFor" ELSE "")
    [] wrong # {} -> LET i == CHOOSE i \in wrong : TRUE IN FileOk(s, ev, X[i])
    [] ev.returned # Len(X) -> "FilesReturned"
    [] Cardinality(saved) # Len(X) -> "AFileForEachFold"
    [] s.c.flow = "hashtags" /\ Len(X) # Len(s.asked) -> "AFileForEachFold"
    [] s.c.flow # "hashtags" /\ saved # FoldsToSave(s, ev) -> "AFileForEachFold"
    [] OTHER -> ""

ReportVerdict(s, ev) ==
  LET nothing == s.c.flow = "perplexity" /\ s.c.nfolds > 1 /\ ev.folds = <<>>
      unranked == s.c.flow \in {"tags", "linkprec", "insample", "outsample"} /\ \E i \in 1..Len(Ranked(s)) : NoLinks(Ranked(s)[i])
      missing == s.c.via = "run" /\ s.c.opts.misfit
  IN CASE missing -> (IF ev.exc = "ValueError" THEN "" ELSE "RefusesOtherDocuments")
       [] ev.exc # "" /\ nothing /\ s.failed = s.c.nfolds -> (IF ev.files # <<>> THEN "NoFilesOfFailures" ELSE "")
       [] ev.exc # "" /\ unranked -> ""
       [] ev.exc # "" -> "Raised" \o ev.exc
       [] ev.changed -> "SampleAndDocumentsUntouched"
       [] OTHER ->
          LET v == CASE s.c.flow = "perplexity" -> PerplexityVerdict(s, ev)
                     [] s.c.flow = "hashtags" -> (IF ~(\E a \in {Len(s.asked)} : (a = Wanted(s.c.nfolds, s.c.stop) \/ a + s.failed = s.c.nfolds)) THEN "FoldsAttempted" ELSE HashtagVerdict(s, ev))
                     [] s.c.flow = "linkmap" -> MapsVerdict(s, ev)
                     [] OTHER -> RankVerdict(s, ev)
          IN IF v # "" THEN v ELSE FilesVerdict(s, ev)

ExpVerdict(s, ev) == IF ev.op = "report" THEN ReportVerdict(s, ev) ELSE CallVerdict(s, ev)

ExpInit(c) == [c |-> c, base |-> IF c.via = "call" THEN [d \in 1..Len(c.words) |-> d] ELSE <<>>, plans |-> <<>>,
               copies |-> <<>>, spent |-> {}, states |-> <<>>, trained |-> <<>>, queried |-> <<>>, asked |-> <<>>,
               likes |-> <<>>, floors |-> <<>>, linked |-> <<>>, failed |-> 0, round |-> 1]

ExpNext(s, ev) ==
  IF ev.op # "report" /\ "failed" \in DOMAIN ev /\ ev.failed THEN [s EXCEPT !.failed = @ + 1]
  ELSE CASE ev.op = "new" -> [s EXCEPT !.base = Set(s, (CHOOSE a \in Arg(ev, "data") : TRUE).n).docs]
         [] ev.op = "plan" -> [s EXCEPT !.plans = Append(@, (CHOOSE a \in Arg(ev, "iterations") : TRUE).n \div 1000000)]
         [] ev.op = "copy" -> [s EXCEPT !.copies = (ev.new :> TRUE) @@ @]
         [] ev.op = "state" -> [s EXCEPT !.states = (ev.new :> <<ev.data, ev.model>>) @@ @]
         [] ev.op = "train" -> [s EXCEPT !.trained = (ev.new :> [data |-> ev.data, tops |-> ev.newTops]) @@ @, !.spent = @ \cup {ev.model}]
         [] ev.op = "query" -> [s EXCEPT !.queried = (ev.newTops :> [data |-> ev.data, model |-> ev.model, z |-> ev.z]) @@ @, !.asked = Append(@, ev.newTops)]
         [] ev.op = "like" -> [s EXCEPT !.likes = Append(@, [data |-> ev.data, model |-> ev.model, tops |-> ev.tops, bits |-> ev.bits, words |-> ev.words])]
         [] ev.op = "floor" -> [s EXCEPT !.floors = (ev.new :> [model |-> ev.model, query |-> ev.query, links |-> ev.links, subset |-> ev.subset, all |-> ev.all]) @@ @]
         [] ev.op = "links" -> [s EXCEPT !.linked = Append(@, [model |-> ev.model, floor |-> ev.floor, subset |-> ev.subset, all |-> ev.all, scores |-> ev.scores]), !.round = @ + 1]
         [] OTHER -> s
ExpEnd(s) == ""
INSTANCE TraceKit WITH TInit <- ExpInit, TVerdict <- ExpVerdict, TNext <- ExpNext, TEnd <- ExpEnd
=============================================================================
