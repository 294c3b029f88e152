------------------------------ MODULE T_Pieces ------------------------------
(* What experiments are made of: choosing tags, moving them out, averaging over folds, reading settings *)
EXTENDS Experiment
VARIABLES ti, l, st, bad

Total(s, c) == SumTo(Len(s.words), LAMBDA d : s.words[d][c])
Chosen(s, cols, n, got) ==
  CASE ~IsInjective(got) \/ ~(Range(got) \subseteq cols) -> "ChoosesAmongTheGiven"
    [] Len(got) # (IF n < Cardinality(cols) THEN n ELSE Cardinality(cols)) -> "AsManyAsAskedFor"
    [] \E i, j \in 1..Len(got) : i < j /\ Total(s, got[i]) < Total(s, got[j]) -> "MostPopularFirst"
    [] \E c \in cols \ Range(got) : \E i \in 1..Len(got) : Total(s, got[i]) < Total(s, c) -> "MostPopularChosen"
    [] OTHER -> ""
SplitVerdict(s, ev) == LET W == s.words IN
  CASE Len(ev.rows) # Len(W) \/ Len(ev.rows2) # Len(W) -> "SplitIsOfAllDocuments"
    [] \E d \in 1..Len(W) : \E t \in 1..Len(W[d]) : ev.rows[d][t] + ev.rows2[d][t] # W[d][t] -> "NothingLost"
    [] \E d \in 1..Len(W) : \E t \in 1..Len(W[d]) : ev.rows[d][t] # 0 /\ ev.rows2[d][t] # 0 -> "MovedAsAWhole"
    [] \E d \in 1..Len(W) : \E t \in (1..Len(W[d])) \ Range(ev.cols) : ev.rows2[d][t] # 0 -> "OthersStay"
    [] ev.percent = 0 /\ \E d \in 1..Len(W) : \E t \in 1..Len(W[d]) : ev.rows2[d][t] # 0 -> "NoneMoved"
    [] ev.percent = 100 /\ \E d \in 1..Len(W) : \E t \in Range(ev.cols) : ev.rows[d][t] # 0 -> "AllMoved"
    [] OTHER -> ""
ClipVerdict(s, ev) == LET W == s.words  c(v) == IF v > ev.hi THEN ev.hi ELSE IF v < ev.lo THEN ev.lo ELSE v IN
  IF Len(ev.rows) = Len(W) /\ \A d \in 1..Len(W) : \A t \in 1..Len(W[d]) : ev.rows[d][t] = c(W[d][t]) THEN "" ELSE "Clipped"
CombineVerdict(ev) ==
  LET n == Len(ev.parts)
      count(g) == SumTo(n, LAMBDA p : ev.parts[p].counts[g])
      sum(g, i) == SumTo(n, LAMBDA p : ev.parts[p].counts[g] * ev.parts[p].avgs[g][i]) IN
  CASE \E g \in 1..Len(ev.groups) : ev.idx[g] # count(g) -> "DocumentsInGroup"
    [] \E g \in 1..Len(ev.groups) : count(g) > 0 /\ \E i \in 1..Len(ev.rows[g]) : Abs(ev.rows[g][i] * count(g) - 1000 * sum(g, i)) > count(g) -> "AverageOverDocuments"
    [] OTHER -> ""
Types == [g \in {"f4", "f32", "F32", "f8", "F8", "f64", "i4", "I32", "u2", "u16", "x", "q"} |->
  CASE g \in {"f4", "f32", "F32"} -> "float32" [] g \in {"f8", "F8", "f64"} -> "float64" [] g \in {"i4", "I32"} -> "int32" [] g \in {"u2", "u16"} -> "uint16" [] OTHER -> ""]
Parts(g) == CASE g = "f32:f64" -> <<"f32", "f64">> [] g = "f4:f8" -> <<"f4", "f8">> [] g = "f8:f4" -> <<"f8", "f4">> [] g = "i4:f8" -> <<"i4", "f8">>
              [] g = "u16:F32" -> <<"u16", "F32">> [] g = "I32 : f8" -> <<"I32", "f8">> [] g = "f4 : i4" -> <<"f4", "i4">> [] g = "f8:q" -> <<"f8", "q">>
              [] OTHER -> <<g, g>>
Pairs(g) == CASE g = "" -> <<>> [] g = "a:0" -> <<<<"a", 0>>>> [] g = "a:3,b:0" -> <<<<"a", 3>>, <<"b", 0>>>> [] OTHER -> <<<<"x y", 2>>, <<"z", 14>>, <<"q", 1>>>>
\* the library's own models: perplexities in thousandths of a bit
RealVerdict(ev) ==
  LET n == ev.n  F == ev.folds
      between(v, field) == (\E i \in 1..n : field[i] <= v + 2) /\ (\E i \in 1..n : field[i] >= v - 2) IN
  CASE ev.files # n -> "AFileForEachFold"
    \* the Gibbs sampler's generator lives as long as its process (see Reproducible)
    [] ~ev.same /\ ev.cmd # "lda_gibbs" -> "ExperimentsRepeatable"
    [] ev.eval = "perplexity" /\ (Len(F) # n \/ \E i \in 1..Len(F) : F[i].fold # i - 1) -> "NoFoldAbandoned"
    [] ev.eval = "perplexity" /\ Len(ev.totals) # 2 -> "TotalsReported"
    [] ev.eval = "perplexity" /\ \E i \in 1..n : F[i].train <= 0 \/ F[i].query <= 0 \/ F[i].train > 30000 \/ F[i].query > 30000 -> "PerplexityOfProbabilities"
    [] ev.eval = "perplexity" /\ ~(between(ev.totals[1], [i \in 1..n |-> F[i].train]) /\ between(ev.totals[2], [i \in 1..n |-> F[i].query])) -> "Totals"
    [] ev.eval \notin {"perplexity", "meanavgprec_all"} /\ ev.tables # 2 * n + 2 -> "TablesReported"
    [] ev.eval # "perplexity" /\ ev.maps < n -> "MeanAveragePrecision"
    [] OTHER -> ""
PieceVerdict(s, ev) ==
  CASE ev.touched -> "ArgumentsUntouched"
    [] ev.op = "dtypes" -> LET p == Parts(ev.given) IN
         IF Types[p[1]] = "" \/ Types[p[2]] = "" THEN (IF ev.exc = "" THEN "UnknownTypeRefused" ELSE "")
         ELSE IF ev.exc # "" THEN "Raised" \o ev.exc ELSE IF ev.pairs # <<Types[p[1]], Types[p[2]]>> THEN "TypesAsNamed" ELSE ""
    [] ev.op = "adapt" -> IF ev.saved = ev.order THEN (IF ev.exc # "" THEN "Raised" \o ev.exc ELSE IF ev.text # "model/tops" THEN "ModelAndItsTopics" ELSE "")
                          ELSE IF ev.exc = "" THEN "RefusesOtherDocuments" ELSE ""
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "real" -> RealVerdict(ev)
    [] ev.op = "popular" -> Chosen(s, Range(ev.cols), ev.count, ev.idx)
    [] ev.op = "hashtags" -> Chosen(s, {t \in 1..Len(s.tags) : s.tags[t]}, ev.count, ev.idx)
    [] ev.op = "split" -> SplitVerdict(s, ev)
    [] ev.op = "clip" -> ClipVerdict(s, ev)
    [] ev.op = "combine" -> CombineVerdict(ev)
    [] ev.op = "mask" -> LET p == Pairs(ev.given) IN IF Len(ev.pairs) = Len(p) /\ \A i \in 1..Len(p) : ev.pairs[i].label = p[i][1] /\ ev.pairs[i].n = p[i][2] THEN "" ELSE "FeaturesNamed"
    [] ev.op = "file" -> IF ev.text # Plain(ev.name) \o "_k_" \o ToString(ev.K) \o (IF ev.P < 0 THEN "" ELSE "_p_" \o ToString(ev.P)) THEN "FileNames"
                         ELSE IF ev.found # (IF ev.fold < 0 THEN -1 ELSE ev.fold) THEN "FileNames" ELSE ""
    [] OTHER -> "UnknownOperation"
PieceInit(c) == [words |-> c.words, tags |-> [t \in 1..Len(c.dict) |-> c.hash[t]]]
PieceNext(s, ev) == s
PieceEnd(s) == ""
INSTANCE TraceKit WITH TInit <- PieceInit, TVerdict <- PieceVerdict, TNext <- PieceNext, TEnd <- PieceEnd
=============================================================================
