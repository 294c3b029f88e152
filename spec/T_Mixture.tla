------------------------------ MODULE T_Mixture ------------------------------
(* Recorded runs of the mixtures of multinomials against Mixture, with the same steps made one at a time *)
EXTENDS Mixture, TLC
VARIABLES ti, l, st, bad

SInit(init) == init
Near(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= e
NearM(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], e)
Whole(words) == SumTo(Len(words), LAMBDA d : SumFun(words[d]))
\* memberships are found to this precision from logarithms
Blur(w, t) == Max({LET r == 700000 \div w[k][t] + 1 IN r * r : k \in 1..Len(w)})       \* the slope of Psi at small parameters is great
Loose(words, w) == 60 + Max({SumTo(Len(words[d]), LAMBDA t : words[d][t] * (20 + Blur(w, t))) : d \in 1..Len(words)})

(* ---- variational: steps [c, w, z], each with how things are after it ---------------------------------- *)
StepClause(q, words, old, new) ==
  LET e == Loose(words, old.w) D == Len(words)
      moved == Change(old.z, new.z) edge == Settled(q.K, D)
      learnt == /\ Near(new.c, Weights(q.K, q.a, new.z), D + 2) /\ NearM(new.w, WordParams(q.K, q.T, q.b, words, new.z), Whole(words) + 2)
      kept == new.c = old.c /\ new.w = old.w
  IN CASE ~ NearM(new.z, Members(old.c, old.w, words), e) -> "Memberships"
       [] moved > edge + 2 * D * q.K /\ ~ learnt -> "Learning"
       [] moved < edge - 2 * D * q.K /\ ~ kept -> "LearntWhenSettled"
       [] ~ learnt /\ ~ kept -> "Learning"
       [] learnt /\ Abs(SumFun(new.c) - SumFun(q.a) - D * One) > 20 -> "TopicMass"
       [] learnt /\ Abs(SumTo(q.K, LAMBDA k : SumFun(new.w[k])) - q.K * SumFun(q.b) - Whole(words) * One) > 20 + q.K * q.T -> "WordMass"
       [] OTHER -> ""
Steps1(q, ev, n) == StepClause(q, ev.words, ev.chain[n], ev.chain[n + 1])
LearnClause(q, ev) ==
  LET n == Len(ev.chain)
      wrong == {i \in 1..(n - 1) : Steps1(q, ev, i) # ""}
  IN CASE n # ev.iterations + 1 -> "Sweeps"
       [] wrong # {} -> Steps1(q, ev, Min(wrong))
       [] ~ (Near(ev.run.c, ev.chain[n].c, 2) /\ NearM(ev.run.w, ev.chain[n].w, 2) /\ NearM(ev.run.z, ev.chain[n].z, 2)) -> "SweepsMade"
       [] OTHER -> ""
AskClause(q, ev) ==
  CASE ~ NearM(ev.run.z, Members(ev.before.c, ev.before.w, ev.words), Loose(ev.words, ev.before.w)) -> "Memberships"
    [] ev.before # ev.after -> "QueryChangedModel"
    [] OTHER -> ""

(* ---- the sampler ----------------------------------------------------------------------------------------- *)
OneHot(z, K) == [d \in 1..Len(z) |-> [k \in 1..K |-> IF z[d] = k THEN One ELSE 0]]
Valid(K, D, z) == Len(z) = D /\ \A d \in 1..D : z[d] \in 1..K
Distributions(phi) == \A k \in 1..Len(phi) : Abs(SumFun(phi[k]) - 100000000) <= 100 + Len(phi[k]) /\ \A t \in 1..Len(phi[k]) : phi[k][t] >= 0
SampleClause(q, ev, held) ==
  LET D == Len(ev.words) n == Len(ev.chain)
      burn == Burn(ev.iterations, ev.burn) thin == Thin(ev.iterations, ev.thin)
      steps == Kept(ev.iterations, burn, thin)
      share(d, k) == Frac(Cardinality({s \in steps : ev.chain[s].z[d] = k}), Cardinality(steps))
  IN CASE ev.plan # [iterations |-> ev.iterations, burn |-> burn, thin |-> thin] -> "Plan"
       [] n # (IF held THEN ev.iterations ELSE ev.iterations + burn) -> "Sweeps"
       [] \E s \in 1..n : ~ Valid(q.K, D, ev.chain[s].z) -> "OneTopicPerDocument"
       [] ~ held /\ \E s \in 1..n : ~ Distributions(ev.chain[s].phi) -> "Topics"
       [] ~ held /\ ~ (NearM(ev.mix, OneHot(ev.chain[n].z, q.K), 1) /\ NearM(ev.phi, ev.chain[n].phi, 2)) -> "SweepsMade"
       [] held /\ ~ NearM(ev.mix, [d \in 1..D |-> [k \in 1..q.K |-> share(d, k)]], 2) -> "SamplesAveraged"
       [] held /\ ev.before # ev.after -> "QueryChangedModel"
       [] OTHER -> ""

\* as for Gibbs
FrequencyClause(q, ev) ==
  LET p == IF ev.op = "sweep" THEN Swept(q.K, q.T, ev.words, q.a, ev.phi, ev.z)
           ELSE IF ev.held THEN Held(q.K, q.T, ev.words, q.a, ev.phi) ELSE Posterior(q.K, q.T, ev.words, q.a, q.b)
      n == SumFun(ev.seen)
      freq(i) == Frac(ev.seen[i], n)
      var(i) == ((p[i] \div 100) * (10000 - p[i] \div 100)) \div (n \div 100)
      off(i) == Abs(freq(i) - p[i]) \div 100
  IN IF \A i \in 1..Len(p) : off(i) <= 8 \/ (off(i) - 8) * (off(i) - 8) <= (36 * ev.slow * (var(i) + 1)) \div 100 THEN "" ELSE "Posterior"
\* the mean of a topic's words' weights over so many draws, given assignments: (b + n) / (sum b + N)
TopicClause(q, ev) ==
  LET m == WordsOf(q.K, q.T, ev.words, ev.z)
      s == SumFun(q.b)
      mean(k, t) == Frac(q.b[t] + m[k][t] * One, s + SumFun(m[k]) * One)
      \* the variance of a weight, in units of 10^-6
      var(k, t) == Frac((mean(k, t) \div 1000) * (1000 - mean(k, t) \div 1000) + 500, s + (SumFun(m[k]) + 1) * One)
      off(k, t) == Abs(ev.mean[k][t] - mean(k, t)) \div 100
      \* the variance of the mean of so many, in units of 10^-8
      least(k, t) == (var(k, t) * 100) \div ev.draws + 1
  IN IF \A k \in 1..q.K, t \in 1..q.T : off(k, t) <= 8 \/ (off(k, t) - 8) * (off(k, t) - 8) <= 36 * least(k, t) THEN "" ELSE "TopicMeans"

SVerdict(q, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "learn" -> LearnClause(q, ev)
    [] ev.op = "ask" -> AskClause(q, ev)
    [] ev.op = "sample" -> SampleClause(q, ev, FALSE)
    [] ev.op = "query" -> SampleClause(q, ev, TRUE)
    [] ev.op \in {"often", "sweep"} -> FrequencyClause(q, ev)
    [] ev.op = "topics" -> TopicClause(q, ev)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
