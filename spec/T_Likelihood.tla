---------------------------- MODULE T_Likelihood ----------------------------
(* Recorded scores of fitted models against Likelihood. *)
EXTENDS Likelihood, TLC
VARIABLES ti, l, st, bad

Abs(x) == IF x < 0 THEN -x ELSE x
MaxNum(a, b) == IF a > b THEN a ELSE b

\* ev.value is in 1/10000 bits: of the likelihood, or of the perplexity
Judged(ev) ==
  LET want == Bits2(ev.mix, ev.words, ev.y, ev.c)
      slack == 4 + Slack2(ev.mix, ev.words, ev.y, ev.c) + Abs(want) \div 20000
      n == Count(ev.words)
  IN CASE Len(ev.y) # Len(ev.words) -> "OneMixturePerDocument"
       [] ~ AllClear(ev.mix, ev.words, ev.y, ev.c) -> ""
       [] ev.perp -> IF Abs(ev.value * n + want) <= slack + n THEN "" ELSE "Perplexity"
       [] Abs(ev.value - want) <= slack -> ""
       [] OTHER -> "Likelihood"

PerDocument(ev) ==
  IF Len(ev.values) # Len(ev.words) THEN "OneLikelihoodPerDocument"
  ELSE IF ~ AllClear(ev.mix, ev.words, ev.y, ev.c) THEN ""
  ELSE IF \A d \in 1..Len(ev.words) : LET w == DocBits(ev.mix, ev.words[d], ev.y[d], ev.c) IN
            Abs(ev.values[d] - w) <= 4 + DocSlack(ev.mix, ev.words[d], ev.y[d], ev.c) + Abs(w) \div 20000
       THEN "" ELSE "LikelihoodOfDocument"

\* a corpus all of whose n words have probability 2^-k
PerpFn(ev) == IF Abs(ev.value - 10000 * ev.k) <= 1 + ev.k THEN "" ELSE "PerplexityFromLikelihood"

Halves(ev) == Len(ev.words) = Len(ev.first) /\ Len(ev.words) = Len(ev.whole) /\
  \A d \in 1..Len(ev.whole) : \A t \in 1..Len(ev.whole[d]) :
     ev.words[d][t] >= 0 /\ ev.first[d][t] >= 0 /\ ev.words[d][t] + ev.first[d][t] = ev.whole[d][t]

SVerdict(s, ev) ==
  CASE ev.op = "refuse" ->
         (IF Refused(ev.method, ev.withy, ev.withqs) \/ (ev.withy /\ ev.kind = "LDA_GIBBS")
          THEN (IF ev.exc = "ValueError" THEN "" ELSE IF ev.exc = "" THEN "NotRefused" ELSE "Raised" \o ev.exc)
          ELSE IF ev.exc = "" THEN "" ELSE "Raised" \o ev.exc)
    [] ev.op = "name" -> IF ev.exc = "" /\ ev.got = ev.method THEN "" ELSE "MethodName"
    [] ev.op = "badname" -> IF ev.exc = "ValueError" THEN "" ELSE "UnknownMethodRefused"
    [] ev.may # "" /\ ev.exc = ev.may -> ""          \* inference itself refuses these documents
    [] ev.exc # "" -> "Raised" \o ev.exc
    [] ev.may # "" -> "NotRefused"
    [] ev.op = "score" -> Judged(ev)
    [] ev.op = "completion" -> IF ~ Halves(ev) THEN "CompletionHalves" ELSE Judged(ev)
    [] ev.op = "point" -> PerDocument(ev)
    [] ev.op = "perpfn" -> PerpFn(ev)
    [] OTHER -> "UnknownOperation"
SInit(init) == 0
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
