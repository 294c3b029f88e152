------------------------------ MODULE T_Corpus ------------------------------
(* Explains recorded calls of the corpus operations by the operators of Corpus *)
EXTENDS Corpus, TLC

VARIABLES ti, l, st, bad

Corp(o) == [order |-> o.order, words |-> o.words, feats |-> o.feats, links |-> o.links,
            cats |-> o.cats, dict |-> o.dict, hasF |-> o.hasF, hasL |-> o.hasL,
            hasC |-> o.hasC, hasD |-> o.hasD, ncols |-> o.ncols]

Plus1(s) == [i \in 1..Len(s) |-> s[i] + 1]

\* What the corpus says about itself tallies with its matrices
SelfConsistent(o) ==
  /\ Len(o.words) = Len(o.order)
  /\ o.len = Len(o.words) /\ o.docCount = Len(o.words)
  /\ o.lens = [d \in 1..Len(o.words) |-> SumSeq(o.words[d])]
  /\ o.wordCount = SumSeq(o.lens)
  /\ o.linkCount = IF o.hasL THEN SumSeq([d \in 1..Len(o.links) |-> SumSeq(o.links[d])]) ELSE 0
  /\ (o.hasF => Len(o.feats) = Len(o.words))
  /\ (o.hasL => Len(o.links) = Len(o.words))
  /\ (o.hasC => Len(o.cats) = Len(o.words))

\* names the first thing in which got differs from want
Differs(got, want, name) ==
  CASE got.order # want.order -> name \o "Order"
    [] got.words # want.words -> name \o "Words"
    [] got.hasF # want.hasF \/ got.feats # want.feats -> name \o "Features"
    [] got.hasL # want.hasL \/ got.links # want.links \/ got.ncols # want.ncols -> name \o "Links"
    [] got.hasC # want.hasC \/ got.cats # want.cats  -> name \o "Labels"
    [] got.hasD # want.hasD \/ got.dict # want.dict  -> name \o "Dictionary"
    [] OTHER -> ""

First(a, b) == IF a # "" THEN a ELSE b

Matches(o, want, name) ==
  First(Differs(Corp(o), want, name), IF SelfConsistent(o) THEN "" ELSE name \o "CountsAgree")

CutTo(c, limit) ==
  IF limit > 0 /\ limit < N(c) THEN Reordered(c, [i \in 1..limit |-> i]) ELSE c

Cut(s, limit) == IF limit > 0 /\ limit < Len(s) THEN SubSeq(s, 1, limit) ELSE s

Binary(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[i] |-> IF m[i][j] # 0 THEN 1 ELSE 0]]
Mutual(m) == {<<p[1], p[2]>> : p \in Links(m)} \cup {<<p[2], p[1]>> : p \in Links(m)}

(* ---- what each call should give ----------------------------------------------------- *)

NoFail(ev) == IF ev.exc = "" THEN "" ELSE "Raised" \o ev.exc

Construct(c, ev) ==
  LET given == IF ev.hasOrder THEN [c EXCEPT !.order = ev.order] ELSE c
  IN Matches(ev.out[1], CutTo(given, ev.limit), "Constructed")

Load(c, ev) ==
  LET ix == Cut(Plus1(ev.order), ev.limit)
  IN Matches(ev.out[1], IF ev.hasOrder THEN Reordered(c, ix) ELSE CutTo(c, ev.limit), "Loaded")

Prune(c, ev) ==
  LET live == Survivors(c, ev.minWords, ev.minLinks)
      o    == ev.out[1]
  IN IF live = {} THEN ""
     ELSE IF ev.exc # "" THEN NoFail(ev)
     ELSE CASE ~ IsInjective(o.order)   -> "PrunedNoDocumentTwice"
            [] Range(o.order) # live    -> "PrunedExactlyTheShortOnes"
            [] ev.ret # o.order         -> "PrunedReturnsOrder"
            [] OTHER -> Matches(o, Reordered(c, RowsFor(c, o.order)), "Pruned")

SplitFeature(c, ev) ==
  LET left == WithoutAny(c, Plus1(ev.features))
      right == WithFirst(c, Plus1(ev.features))
  IN IF left = <<>> \/ right = <<>> THEN ""      \* nothing to put in a corpus
     ELSE IF ev.exc # "" THEN NoFail(ev)
     ELSE First(Matches(ev.out[1], TakeRowsCols(c, left, left), "SplitLeft"),
          First(Matches(ev.out[2], TakeRowsCols(c, right, left), "SplitRight"),
                IF Plus1(ev.ret) = left THEN "" ELSE "SplitReportsLeft"))

Intercept(c, ev) ==
  LET want == WithIntercept(c)
  IN First(Matches(ev.out[1], want, "Intercept"),
           IF c.hasF /\ ev.ret # (want # c) THEN "InterceptReturn" ELSE "")

Undirected(c, ev) ==
  LET o == ev.out[1]
      masked == [Corp(o) EXCEPT !.links = c.links]
  IN First(Differs(masked, c, "Undirected"),
           IF Links(o.links) = Mutual(c.links) THEN "" ELSE "UndirectedLinks")

Fold(c, ev) ==
  IF N(c) < 2 \/ QuerySize(N(c), ev.k) = N(c) THEN ""
  ELSE IF ev.exc # "" THEN NoFail(ev)
  ELSE First(IsFold(c, Corp(ev.out[1]), Corp(ev.out[2]), ev.fold, ev.k),
             IF SelfConsistent(ev.out[1]) /\ SelfConsistent(ev.out[2]) THEN "" ELSE "FoldCountsAgree")

\* out[1], out[2]: the split. out[3], out[4]: the same again. full: with no minimum
Completion(c, ev) ==
  LET est == ev.full[1].words
      evl == ev.full[2].words
      kept == KeptByCompletion(est, evl, ev.min)
      want == TakeRows(c, kept)
      As(w) == [want EXCEPT !.words = w]
  IN IF c.hasF THEN
       IF ev.exc # "" THEN NoFail(ev)
       ELSE First(Matches(ev.out[1], c, "CompletionWithFeatures"), Matches(ev.out[2], c, "CompletionWithFeatures"))
     ELSE IF ev.excFull # "" THEN "Raised" \o ev.excFull
     ELSE CASE DOMAIN est # DOMAIN c.words \/ DOMAIN evl # DOMAIN c.words -> "CompletionAligned"
            [] ~ (AllIn(est, 0) /\ AllIn(evl, 0)) -> "CompletionNonNegative"
            [] ~ SumsTo(est, evl, c.words)        -> "CompletionConserves"
            [] \E d \in DOMAIN est : \E w \in DOMAIN est[d] :
                 /\ c.words[d][w] >= 50
                 /\ Abs(ev.propDen * est[d][w] - ev.propNum * c.words[d][w]) * 8 > ev.propDen * c.words[d][w]
                                                  -> "CompletionProportion"
            [] kept = <<>>                        -> ""
            [] Len(kept) < N(c) /\ c.hasL         -> IF ev.exc \in {"", "ValueError"} THEN "" ELSE NoFail(ev)
            [] ev.exc # ""                        -> NoFail(ev)
            [] ev.out[1] # ev.out[3] \/ ev.out[2] # ev.out[4] -> "CompletionSameSeed"
            [] OTHER -> First(Matches(ev.out[1], As(Pick(est, kept)), "CompletionFirst"),
                              Matches(ev.out[2], As(Pick(evl, kept)), "CompletionSecond"))

SplitLinks(c, ev) ==
  LET x == c.links  lt == ev.out[1].links  rt == ev.out[2].links
      masked(o) == [Corp(o) EXCEPT !.links = x]
      half(a, b) == Abs(Cardinality(a) - Cardinality(b)) <= 1
  IN CASE ev.exc # ""                             -> NoFail(ev)
       [] Differs(masked(ev.out[1]), c, "x") # "" -> Differs(masked(ev.out[1]), c, "LinkSplitKeeps")
       [] Differs(masked(ev.out[2]), c, "x") # "" -> Differs(masked(ev.out[2]), c, "LinkSplitKeeps")
       [] ~ (DOMAIN lt = DOMAIN x /\ DOMAIN rt = DOMAIN x) -> "LinkSplitShape"
       [] ~ (AllIn(lt, 0) /\ AllIn(rt, 0))        -> "LinkSplitNonNegative"
       [] ~ SumsTo(lt, rt, x)                     -> "LinkSplitConserves"
       [] Links(lt) \cap Links(rt) # {}           -> "LinkSplitWholeLinks"
       [] ev.symmetric /\ ~ (IsSymmetric(lt) /\ IsSymmetric(rt)) -> "LinkSplitSymmetric"
       [] ev.symmetric /\ ~ half(LowerTriangle(lt), LowerTriangle(rt)) -> "LinkSplitHalves"
       [] ~ ev.symmetric /\ ~ half(Links(lt), Links(rt)) -> "LinkSplitHalves"
       [] ev.out[1] # ev.out[3] \/ ev.out[2] # ev.out[4] -> "LinkSplitSameSeed"
       [] OTHER -> ""

FoldLinks(c, ev) ==
  LET masked(o) == [Corp(o) EXCEPT !.links = c.links]
  IN CASE ev.exc # ""                             -> NoFail(ev)
       [] Differs(masked(ev.out[1]), c, "x") # "" -> Differs(masked(ev.out[1]), c, "FoldedSplitKeeps")
       [] Differs(masked(ev.out[2]), c, "x") # "" -> Differs(masked(ev.out[2]), c, "FoldedSplitKeeps")
       [] OTHER -> IsFoldedSplit(c.links, ev.out[1].links, ev.out[2].links, Plus1(ev.ret), ev.k, ev.min)

Copy(c, ev) ==
  First(Matches(ev.out[1], c, "Copy"),
        IF ev.deep THEN Matches(ev.out[2], c, "CopyIndependentOriginal") ELSE "")

Changed(c, ev) ==
  Matches(ev.out[1], [c EXCEPT !.words = ev.words], "CopyWithChanges")

Gensim(c, ev) ==
  IF /\ ev.docs = N(c)
     /\ ev.dfs = [w \in 1..Len(c.words[1]) |-> DocFreq(c, w)]
  THEN "" ELSE "GensimDictionary"

Dtypes(c, ev) ==
  First(Matches(ev.out[1], c, "Converted"),
        IF ev.got = [i \in 1..3 |-> IF (i = 2 /\ ~c.hasF) \/ (i = 3 /\ ~c.hasL) THEN "" ELSE ev.want[i]]
        THEN "" ELSE "ConvertedType")

CorpusVerdict(s, ev) ==
  LET c == s.cur IN
  CASE N(c) = 0               -> ""     \* nothing was left: no more is promised
    [] ev.op = "prune"        -> Prune(c, ev)
    [] ev.op = "splitfeature" -> SplitFeature(c, ev)
    [] ev.op = "fold"         -> Fold(c, ev)
    [] ev.op = "completion"   -> Completion(c, ev)
    [] ev.op = "splitlinks"   -> SplitLinks(c, ev)
    [] ev.op = "foldlinks"    -> FoldLinks(c, ev)
    [] ev.exc # ""            -> NoFail(ev)
    [] ev.op = "construct"    -> Construct(c, ev)
    [] ev.op = "load"         -> Load(c, ev)
    [] ev.op = "words"        -> Matches(ev.out[1], TrimmedTo(c, FrequentWords(c, ev.min)), "Trimmed")
    [] ev.op = "intercept"    -> Intercept(c, ev)
    [] ev.op = "undirected"   -> Undirected(c, ev)
    [] ev.op = "binary"       -> Matches(ev.out[1], [c EXCEPT !.links = Binary(c.links)], "Binary")
    [] ev.op = "copy"         -> Copy(c, ev)
    [] ev.op = "changes"      -> Changed(c, ev)
    [] ev.op = "gensim"       -> Gensim(c, ev)
    [] ev.op = "dtypes"       -> Dtypes(c, ev)
    [] OTHER                  -> "UnknownOperation"

(* a split which could not be made (nothing to keep) leaves the corpus as it was *)
CorpusNext(s, ev) ==
  IF N(s.cur) = 0 THEN s ELSE
  [s EXCEPT !.cur = IF ev.exc = "" /\ ev.pick > 0 THEN Corp(ev.out[ev.pick]) ELSE @,
            !.queried = CASE ev.exc # "" -> @
                          [] ev.pick > 0 -> [d \in Range(ev.out[ev.pick].order) |-> 0]
                          [] ev.op = "fold" -> [d \in DOMAIN @ |-> @[d] + (IF d \in Range(ev.out[2].order) THEN 1 ELSE 0)]
                          [] OTHER -> @,
            !.folds = IF ev.op = "fold" /\ ev.exc = "" /\ ev.pick = 0 THEN <<ev.k, N(s.cur)>> ELSE @,
            !.movedLinks = IF ev.op = "foldlinks" /\ ev.exc = ""
                        THEN Append(@, {p \in Links(ev.out[2].links) :
                                          p[1] \in Foldable(s.cur.links, ev.min)})
                        ELSE @]

CorpusInit(init) ==
  [cur |-> Corp(init), queried |-> [d \in Range(init.order) |-> 0], folds |-> <<>>, movedLinks |-> <<>>]

CorpusEnd(s) ==
  CASE s.folds # <<>> /\ (\E d \in DOMAIN s.queried : s.queried[d] < 1) -> "EveryDocumentQueried"
    [] s.folds # <<>> /\ s.folds[2] % s.folds[1] = 0
         /\ (\E d \in DOMAIN s.queried : s.queried[d] # 1)              -> "QueriedExactlyOnce"
    [] \E a, b \in DOMAIN s.movedLinks : a # b /\ s.movedLinks[a] \cap s.movedLinks[b] # {} -> "NoLinkQueriedTwice"
    [] OTHER -> ""

INSTANCE TraceKit WITH TInit <- CorpusInit, TVerdict <- CorpusVerdict, TNext <- CorpusNext, TEnd <- CorpusEnd
=============================================================================
