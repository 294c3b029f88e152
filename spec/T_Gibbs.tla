------------------------------ MODULE T_Gibbs ------------------------------
(* Recorded runs of the Gibbs samplers against Gibbs. A run of a plan is recorded together with the same
   sweeps made one at a time, from the same topics and random numbers. *)
EXTENDS Gibbs, TLC
VARIABLES ti, l, st, bad

SInit(init) == init
Near(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= e
NearM(a, b, e) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], e)
PlusM(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> a[i][j] + b[i][j]]]

\* the tokens of a document are its words
Occurrences(words, lens, w) ==
  LET of == Doc(lens) IN
  /\ Len(lens) = Len(words) /\ Len(w) = SumFun(lens)
  /\ \A d \in 1..Len(words) : \A v \in 1..Len(words[d]) :
        Cardinality({i \in 1..Len(w) : of[i] = d /\ w[i] = v}) = words[d][v]

\* one sweep at a time
SweepClause(c, words, lens, w, o, held) ==
  CASE Len(o.z) # Len(w) \/ ~ Valid(c.K, o.z) -> "OneTopicPerToken"
    [] o.samples # 1 -> "OneSample"
    [] ~ NearM(o.mix, Mixtures(c.K, lens, o.z, c.a), 2) -> "MixtureTally"
    [] ~ held /\ o.topics # <<>> /\ ~ NearM(o.topics, Topics(c.K, c.cols, w, o.z, c.b, c.bsum), 2) -> "TopicTally"
    [] OTHER -> ""
ChainClause(c, ev, held) ==
  LET bad1 == {s \in 1..Len(ev.chain) : SweepClause(c, ev.words, ev.lens, ev.w, ev.chain[s], held) # ""}
  IN IF bad1 = {} THEN "" ELSE SweepClause(c, ev.words, ev.lens, ev.w, ev.chain[Min(bad1)], held)

RunClause(c, ev, held) ==
  LET it == ev.iterations
      burn == Burn(it, ev.burn) thin == Thin(it, ev.thin)
      steps == Taken(it, burn, thin)
      zero == [d \in 1..Len(ev.lens) |-> Zero(c.K)]
      total == FoldSet(LAMBDA s, acc : PlusM(acc, ev.chain[s].mix), zero, steps)
      topics == FoldSet(LAMBDA s, acc : PlusM(acc, ev.chain[s].topics), [k \in 1..c.K |-> Zero(c.cols)], steps)
  IN CASE ev.plan # [iterations |-> it + burn, burn |-> burn, thin |-> thin] -> "Plan"
       [] ~ Occurrences(ev.words, ev.lens, ev.w) -> "Occurrences"
       [] ~ Valid(c.K, ev.z0) \/ Len(ev.z0) # Len(ev.w) -> "OneTopicPerToken"
       [] Len(ev.chain) # it + burn -> "Sweeps"
       [] ChainClause(c, ev, held) # "" -> ChainClause(c, ev, held)
       [] ev.samples # Cardinality(steps) -> "NumberOfSamples"
       [] ev.z # ev.chain[Len(ev.chain)].z -> "SweepsMade"
       [] ~ NearM(ev.mix, total, 2 * Cardinality(steps)) -> "SamplesAveraged"
       [] ~ held /\ ev.chain[1].topics # <<>> /\ ~ NearM(ev.topics, topics, 2 * Cardinality(steps)) -> "TopicSamplesAveraged"
       [] OTHER -> ""

\* how often each assignment was seen in so many sweeps, to six standard deviations of a chain whose samples are each
\* worth 1/slow of an independent one
FrequencyClause(c, ev) ==
  LET p == IF ev.held THEN Held(c.K, ev.lens, ev.w, c.a, ev.phi) ELSE Posterior(c.K, c.cols, ev.lens, ev.w, c.a, c.b)
      n == SumFun(ev.seen)
      freq(i) == Frac(ev.seen[i], n)
      \* in units of 10^-4
      var(i) == ((p[i] \div 100) * (10000 - p[i] \div 100)) \div (n \div 1000)
      off(i) == Abs(freq(i) - p[i]) \div 100
  IN IF \A i \in 1..Len(p) : off(i) <= 8 \/ (off(i) - 8) * (off(i) - 8) <= (36 * ev.slow * (var(i) + 1)) \div 1000 THEN "" ELSE "Posterior"

SVerdict(c, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "train" -> RunClause(c, ev, FALSE)
    [] ev.op = "query" -> LET r == RunClause(c, ev, TRUE) IN
                          IF r # "" THEN r ELSE IF ev.before # ev.after THEN "QueryChangedModel" ELSE ""
    [] ev.op = "often" -> FrequencyClause(c, ev)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
