---------------------------- MODULE T_Regression ----------------------------
(* Recorded runs of Dirichlet-multinomial regression against Regression. A run is recorded with every shorter
   run from the same topics and random numbers: rung n + 1 is the run of n sweeps after burning in. *)
EXTENDS Regression, TLC
VARIABLES ti, l, st, bad
Like == INSTANCE Likelihood

Near(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= e
NearM(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], e)
PlusM(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> a[i][j] + b[i][j]]]
ZeroM(n, m) == [i \in 1..n |-> Zero(m)]

Occurrences(words, lens, w) ==
  LET of == Doc(lens) IN
  /\ Len(lens) = Len(words) /\ Len(w) = SumFun(lens)
  /\ \A d \in 1..Len(words) : \A v \in 1..Len(words[d]) :
        Cardinality({i \in 1..Len(w) : of[i] = d /\ w[i] = v}) = words[d][v]

\* one run compared with those before: g is rung n + 1
Weights(ev, n) == IF ev.held THEN ev.W0 ELSE ev.rungs[n + 1].weights
RungClause(c, ev, A, n) ==
  LET g == ev.rungs[n + 1]
      thin == ev.plan.thin  update == IF ev.held THEN ev.plan.sweeps ELSE ev.plan.update
      at == Sampled(n, thin, update)
      D == Len(ev.lens)
      mix0 == IF n = 0 THEN ZeroM(D, c.K) ELSE ev.rungs[n].mix
      top0 == IF n = 0 THEN ZeroM(c.K, c.T) ELSE ev.rungs[n].topics
      mix == IF n \in at THEN PlusM(mix0, OwnMixtures(c.K, ev.lens, g.z, A[Since(n, update)])) ELSE mix0
      topics == IF n \in at THEN PlusM(top0, Topics(c.K, c.T, ev.w, g.z, c.b, c.bsum)) ELSE top0
      nth == SetToSortSeq(at, <)
  IN CASE g.n # n -> "Sweeps"
       [] Len(g.z) # Len(ev.w) \/ ~ Valid(c.K, g.z) -> "OneTopicPerToken"
       [] g.samples # Cardinality(at) -> "NumberOfSamples"
       [] ~ NearM(g.mix, mix, 20) -> "DocumentsPrior"
       [] ev.held -> ""
       [] ~ NearM(g.topics, topics, 3) -> "TopicTally"
       [] Len(g.counts) # Cardinality(at) -> "CountsOfSamples"
       [] \E i \in 1..Len(nth) : g.counts[i] # NDK(c.K, ev.lens, ev.rungs[nth[i] + 1].z) -> "CountsOfSamples"
       [] OTHER -> ""

\* weights made from the samples of rung n + 1
UpdateClause(X, lens, counts, old, new, all) ==
  IF counts = <<>> THEN IF new = old THEN "" ELSE "WeightsWithoutSamples"
  ELSE IF ~ (Len(new) = Len(old) /\ \A k \in 1..Len(new) : Len(new[k]) = Len(old[k]) /\ \A f \in 1..Len(new[k]) : Abs(new[k][f]) < 20000000) THEN "Weights"
  ELSE IF \E k \in 1..Len(new) : \E f \in 1..Len(new[k]) : Abs(Slope(X, lens, counts, old, k, new[k])[f]) > 4000 + 15 * Len(X) THEN "MostProbableWeights"
  ELSE IF all /\ \E k \in 1..Len(new) : Probable(X, lens, counts, old, k, new[k]) < Probable(X, lens, counts, old, k, old[k]) - 200 THEN "WeightsMadeWorse"
  ELSE ""

Score(ev) == LET want == Like!Bits2(FALSE, ev.words, ev.y, ev.c)
                 slack == 4 + Like!Slack2(FALSE, ev.words, ev.y, ev.c) + Abs(want) \div 20000
             IN ~ Like!AllClear(FALSE, ev.words, ev.y, ev.c) \/ Abs(ev.score - want) <= slack

Distributions(y) == \A i \in 1..Len(y) : (\A j \in 1..Len(y[i]) : y[i][j] >= 0) /\ Abs(SumFun(y[i]) - 100000000) <= 60

RunClause(c, ev) ==
  LET p == ev.plan
      D == Len(ev.lens)
      long == Len(ev.rungs) = p.sweeps + 1
      last == ev.rungs[Len(ev.rungs)]
  IN CASE p # [sweeps |-> RSweeps(ev.iterations, ev.burn), burn |-> RBurn(ev.iterations, ev.burn), thin |-> RThin(ev.iterations, ev.burn, ev.thin),
               update |-> RUpdate(ev.iterations, ev.burn, ev.thin, ev.update)] -> "Plan"
       [] ~ Occurrences(ev.words, ev.lens, ev.w) -> "Occurrences"
       [] ~ Valid(c.K, ev.z0) \/ Len(ev.z0) # Len(ev.w) -> "OneTopicPerToken"
       [] ~ ev.held /\ \E k \in 1..Len(ev.fresh) : \E f \in 1..Len(ev.fresh[k]) : ev.fresh[k][f] # ev.fresh[1][1] -> "FreshWeights"
       [] ev.before # ev.after -> "QueryChangedModel"
       [] ~ long -> IF last.samples # Cardinality(Sampled(p.sweeps, p.thin, p.update)) THEN "NumberOfSamples"
                    ELSE IF \E d \in 1..D : SumFun(last.counts[last.samples][d]) # ev.lens[d] THEN "CountsOfSamples"
                    ELSE UpdateClause(ev.X, ev.lens, last.counts, ev.W0, last.weights, FALSE)
       [] OTHER ->
          LET update == IF ev.held THEN p.sweeps ELSE p.update
              starts == {Since(n, update) : n \in 1..p.sweeps}
              A == [n \in starts |-> Priors(ev.X, IF n = 0 THEN ev.W0 ELSE ev.rungs[n + 1].weights)]
              wrong == {n \in 0..p.sweeps : RungClause(c, ev, IF n = 0 THEN 0 :> <<>> ELSE A, n) # ""}
              ends == {n \in 1..p.sweeps : n % update = 0 \/ n = p.sweeps}
              old(n) == IF Since(n, update) = 0 THEN ev.W0 ELSE ev.rungs[Since(n, update) + 1].weights
              upd(n) == UpdateClause(ev.X, ev.lens, ev.rungs[n + 1].counts, old(n), ev.rungs[n + 1].weights, TRUE)
              wrongU == IF ev.held THEN {} ELSE {n \in ends : upd(n) # ""}
          IN IF wrong # {} THEN RungClause(c, ev, IF Min(wrong) = 0 THEN 0 :> <<>> ELSE A, Min(wrong))
             ELSE IF ~ ev.held /\ ev.rungs[1].weights # ev.W0 THEN "WeightsWithoutSamples"
             ELSE IF wrongU # {} THEN upd(Min(wrongU))
             ELSE IF ~ Distributions(ev.y) \/ ~ Distributions(ev.c) THEN "Distributions"
             ELSE IF ~ NearM(ev.y, [d \in 1..D |-> [k \in 1..c.K |-> (100 * last.mix[d][k]) \div last.samples]], 300) THEN "MixturesAveraged"
             ELSE IF ~ Score(ev) THEN "Score" ELSE ""

(* ---- how often, over many sweeps --------------------------------------------------------------------- *)
\* six standard deviations, in units of 10^-4, of a mean of n values each worth 1/slow of an independent one
Within(got, want, var, n, slow) == LET off == Abs(got - want) \div 100 IN off <= 8 \/ (off - 8) * (off - 8) <= (36 * slow * (var \div (n \div 1000) + 1)) \div 1000
FrequencyClause(c, ev) ==
  LET A == Priors(ev.X, ev.W0)
      N == Len(ev.w)
      all == [i \in 1..Power(c.K, N) |-> Assignment(c.K, N, i - 1)]
      p == Normal([i \in DOMAIN all |-> IF ev.held THEN OwnHeldBits(c.K, ev.lens, ev.w, A, ev.phi, all[i]) ELSE OwnBits(c.K, c.T, ev.lens, ev.w, A, c.b, all[i])])
      D == Len(ev.lens)
      flat(m) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, m)
      tally == [i \in DOMAIN all |-> flat(NDK(c.K, ev.lens, all[i]))]
      tallies == {tally[i] : i \in DOMAIN all}
      likely(t) == SumSet({i \in DOMAIN all : tally[i] = t}, LAMBDA i : p[i])
      times(t) == SumSet({j \in 1..Len(ev.seen) : ev.seen[j][1] = t}, LAMBDA j : ev.seen[j][2])
      mixes == [i \in DOMAIN all |-> OwnMixtures(c.K, ev.lens, all[i], A)]
      tops == [i \in DOMAIN all |-> Topics(c.K, c.T, ev.w, all[i], c.b, c.bsum)]
      mean(d, k) == SumTo(Len(all), LAMBDA i : Mul6(p[i], mixes[i][d][k]))
      vmean(k, v) == SumTo(Len(all), LAMBDA i : Mul6(p[i], tops[i][k][v]))
      quarter == 25000000
      var(q) == (q \div 100) * (10000 - q \div 100)
  IN CASE ~ ev.held /\ \E j \in 1..Len(ev.seen) : ev.seen[j][1] \notin tallies -> "CountsOfSamples"
       [] ~ ev.held /\ \E t \in tallies : ~ Within(Frac(times(t), ev.n), likely(t), var(likely(t)), ev.n, ev.slow) -> "Posterior"
       [] \E d \in 1..D : \E k \in 1..c.K : ~ Within(ev.mean[d][k], mean(d, k) + Len(all) \div 2, quarter, ev.n, ev.slow) -> "PosteriorMixture"
       [] ~ ev.held /\ \E k \in 1..c.K : \E v \in 1..c.T : ~ Within(ev.vmean[k][v], vmean(k, v) + Len(all) \div 2, quarter, ev.n, ev.slow) -> "PosteriorTopics"
       [] OTHER -> ""

SInit(init) == init
SVerdict(c, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "often" -> FrequencyClause(c, ev)
    [] ev.op \in {"train", "query"} -> RunClause(c, ev)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
