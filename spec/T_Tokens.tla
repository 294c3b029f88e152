------------------------------ MODULE T_Tokens ------------------------------
EXTENDS Tokens, TLC
VARIABLES ti, l, st, bad

Lens(ev) == [d \in 1..Len(ev.words) |-> RowTotal(ev.words[d])]

\* a row of tokens for each document
Jagged(ev) ==
  CASE ev.lens # Lens(ev) -> "DocumentLengths"
    [] Len(ev.toks) # Len(ev.words) -> "OneRowEach"
    [] \E d \in 1..Len(ev.words) : Len(ev.toks[d]) < ev.lens[d] -> "RoomForTokens"
    [] \E d \in 1..Len(ev.words) : ~ SameBag(ev.words[d], SubSeq(ev.toks[d], 1, ev.lens[d])) -> "BagKept"
    [] ev.touched -> "CorpusUntouched"
    [] OTHER -> ""

\* all the documents' tokens one after the other
Flat(ev) ==
  CASE ev.lens # Lens(ev) -> "DocumentLengths"
    [] Len(ev.flat) # Offset(ev.words, Len(ev.words) + 1) -> "TokenTotal"
    [] \E d \in 1..Len(ev.words) :
         ~ SameBag(ev.words[d], SubSeq(ev.flat, Offset(ev.words, d) + 1, Offset(ev.words, d) + ev.lens[d])) -> "BagKept"
    [] ev.touched -> "CorpusUntouched"
    [] OTHER -> ""

Abs(x) == IF x < 0 THEN -x ELSE x
S == 10000
Col(m, j) == SumFun([i \in 1..Len(m) |-> m[i][j]])
Row(m, i) == SumFun([j \in 1..Len(m[i]) |-> m[i][j]])

\* a fresh query state: tokens, with topics spread at random, and tallies that agree with them
Query(ev) ==
  IF ev.impl \in {"gibbs", "dmr"} THEN
    LET v == Flat(ev) IN
    IF v # "" THEN v
    ELSE IF Len(ev.z) # Len(ev.flat) \/ \E i \in 1..Len(ev.z) : ev.z[i] < 0 \/ ev.z[i] >= ev.K THEN "TopicOfEveryToken" ELSE ""
  ELSE
    LET v == Jagged(ev)  D == Len(ev.words)  slack == 2 + ev.K + Len(ev.words[1]) + D IN
    CASE v # "" -> v
      [] \E d \in 1..D : \E n \in 1..ev.lens[d] : Abs(ev.mass[d][n] - S) > 2 -> "TokenMassOne"
      [] \E d \in 1..D : Abs(Row(ev.ndk, d) - S * ev.lens[d]) > slack + ev.lens[d] -> "DocumentTally"
      [] \E t \in 1..Len(ev.words[1]) : Abs(Col(ev.nkt, t) - S * Col(ev.words, t)) > slack + Col(ev.words, t) -> "WordTally"
      [] \E k \in 1..ev.K : Abs(ev.nk[k] - Col(ev.ndk, k)) > slack \/ Abs(ev.nk[k] - Row(ev.nkt, k)) > slack -> "TopicTally"
      [] OTHER -> ""

Square(z) == [d \in 1..Len(z) |-> [n \in 1..Len(z[d]) |-> [k \in 1..Len(z[d][n]) |-> z[d][n][k] * (8 - z[d][n][k])]]]
Tallies(ev, z, dk, kt, ks) ==
  /\ dk = [d \in 1..Len(ev.toks) |-> [k \in 1..ev.K |-> DocTopic(ev.toks, z, d, k)]]
  /\ kt = [k \in 1..ev.K |-> [t \in 1..ev.T |-> TopicWord(ev.toks, z, k, t - 1)]]
  /\ ks = [k \in 1..ev.K |-> Topic(ev.toks, z, k)]
Counts(ev) ==
  CASE ~ Tallies(ev, ev.z, ev.ndk, ev.nkt, ev.nk) -> "TopicTallies"
    [] ev.impl = "cvb" /\ ~ Tallies(ev, Square(ev.z), ev.vdk, ev.vkt, ev.vk) -> "VarianceTallies"
    [] OTHER -> ""
OneHot(ev) == [d \in 1..Len(ev.toks) |-> [n \in 1..Len(ev.toks[d]) |-> [k \in 1..ev.K |-> IF ev.topic[d][n] = k - 1 THEN 1 ELSE 0]]]

TokVerdict(s, ev) ==
  IF ev.op \in {"wordlist", "query"} /\ ev.dtype = "int64" /\ ev.impl \in {"cvb", "cvb0"} /\ ev.exc = "ValueError"
    THEN ""                                   \* a representation which is not supported, and says so
  ELSE IF ev.exc # "" THEN "Raised" \o ev.exc
  ELSE CASE ev.op = "wordlist" -> Jagged(ev)
         [] ev.op = "flatten" -> Flat(ev)
         [] ev.op = "query" -> Query(ev)
         [] ev.op = "counts" -> Counts(ev)
         [] ev.op = "tally" -> IF Tallies(ev, OneHot(ev), ev.ndk, ev.nkt, ev.nk) THEN "" ELSE "TopicTallies"
         [] OTHER -> "UnknownOperation"
TokInit(init) == 0
TokNext(s, ev) == s
TokEnd(s) == ""
INSTANCE TraceKit WITH TInit <- TokInit, TVerdict <- TokVerdict, TNext <- TokNext, TEnd <- TokEnd
=============================================================================
