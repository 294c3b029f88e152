------------------------------ MODULE MC_Corpus ------------------------------
(* Histories of corpus transformations over a few small corpora *)
EXTENDS Corpus, TLC, Json
CONSTANTS Depth, Emit
VARIABLES b, c, words, hist, colsOf
vars == <<b, c, words, hist, colsOf>>

\* four documents: words identify the document, one is short, one is unlinked
Bases == <<
  [order |-> <<0, 1, 2, 3>>,
   words |-> << <<1, 0, 2>>, <<0, 3, 0>>, <<4, 5, 6>>, <<7, 0, 8>> >>,
   feats |-> << <<1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 0>> >>,
   links |-> << <<0, 1, 1, 1>>, <<1, 0, 0, 0>>, <<1, 0, 0, 1>>, <<0, 0, 0, 0>> >>,
   cats  |-> <<10, 11, 12, 13>>, dict |-> <<0, 1, 2>>,
   hasF |-> TRUE, hasL |-> TRUE, hasC |-> TRUE, hasD |-> TRUE, ncols |-> 4],
  [order |-> <<0, 1, 2>>,
   words |-> << <<1, 2>>, <<0, 3>>, <<4, 5>> >>,
   feats |-> <<>>,
   links |-> << <<1, 1, 0, 0>>, <<1, 0, 1, 1>>, <<0, 0, 0, 1>> >>,
   cats  |-> <<>>, dict |-> <<0, 1>>,
   hasF |-> FALSE, hasL |-> TRUE, hasC |-> FALSE, hasD |-> TRUE, ncols |-> 4],
  [order |-> <<0, 1, 2>>,
   words |-> << <<1, 2>>, <<0, 3>>, <<4, 5>> >>,
   feats |-> << <<1, 3>>, <<1, 0>>, <<1, 2>> >>,
   links |-> <<>>,
   cats  |-> <<10, 11, 12>>, dict |-> <<>>,
   hasF |-> TRUE, hasL |-> FALSE, hasC |-> TRUE, hasD |-> FALSE, ncols |-> 0] >>

Init == /\ b \in 1..Len(Bases) /\ c = Bases[b] /\ words = [i \in 1..Len(Bases[b].words[1]) |-> i] /\ hist = <<>>
        /\ colsOf = IF Bases[b].hasL THEN [i \in 1..Bases[b].ncols |-> i] ELSE <<>>

Did(op) == hist' = Append(hist, op) /\ Len(hist) < Depth /\ b' = b

Perms(S) == {p \in [1..Cardinality(S) -> S] : IsInjective(p)}

Relabel(ix) == IF Square(c) THEN Pick(colsOf, ix) ELSE colsOf

Prune(mw, ml) ==
  /\ Did([op |-> "prune", minWords |-> mw, minLinks |-> ml])
  /\ LET live == Survivors(c, mw, ml) IN
     /\ live # {}
     /\ \E p \in Perms(live) :
          c' = Reordered(c, RowsFor(c, p)) /\ colsOf' = Relabel(RowsFor(c, p))
     /\ UNCHANGED words

Trim(min) ==
  /\ Did([op |-> "words", min |-> min])
  /\ FrequentWords(c, min) # <<>>
  /\ c' = TrimmedTo(c, FrequentWords(c, min)) /\ words' = Pick(words, FrequentWords(c, min))
  /\ UNCHANGED colsOf

TakeFold(k, K, side) ==
  /\ Did([op |-> "fold", fold |-> k, k |-> K, pick |-> side])
  /\ N(c) > QuerySize(N(c), K)
  /\ c' = TakeRows(c, IF side = 1 THEN TrainIdx(N(c), k, K) ELSE QueryIdx(N(c), k, K))
  /\ UNCHANGED <<words, colsOf>>

SplitOn(fs, side) ==
  /\ Did([op |-> "splitfeature", features |-> [i \in 1..Len(fs) |-> fs[i] - 1], pick |-> side])
  /\ c.hasF /\ WithoutAny(c, fs) # <<>> /\ WithFirst(c, fs) # <<>>
  /\ c.hasL => Square(c)
  /\ c' = TakeRowsCols(c, IF side = 1 THEN WithoutAny(c, fs) ELSE WithFirst(c, fs), WithoutAny(c, fs))
  /\ colsOf' = IF c.hasL THEN Pick(colsOf, WithoutAny(c, fs)) ELSE colsOf
  /\ UNCHANGED words

AddIntercept ==
  /\ Did([op |-> "intercept"]) /\ c.hasF /\ c' = WithIntercept(c) /\ UNCHANGED <<words, colsOf>>

Copy(deep) == Did([op |-> "copy", deep |-> deep]) /\ UNCHANGED <<c, words, colsOf>>

Retype == Did([op |-> "dtypes"]) /\ UNCHANGED <<c, words, colsOf>>

Next == \/ \E mw \in 1..2, ml \in 0..1 : Prune(mw, ml)
        \/ \E min \in 2..3 : Trim(min)
        \/ \E k \in 0..1, side \in 1..2 : TakeFold(k, 2, side)
        \/ \E fs \in {<<1>>, <<2>>, <<2, 1>>}, side \in 1..2 : SplitOn(fs, side)
        \/ AddIntercept \/ (\E d \in BOOLEAN : Copy(d)) \/ Retype

Spec == Init /\ [][Next]_vars

Base == Bases[b]

\* Every row is one whole document of the original, the one that the order says it is
Whole == \A i \in 1..N(c) : LET o == c.order[i] + 1 IN
           /\ c.words[i] = Pick(Base.words[o], words)
           /\ (c.hasC => c.cats[i] = Base.cats[o])
           /\ (c.hasF => \A f \in 1..Len(Base.feats[1]) : c.feats[i][f] = Base.feats[o][f])
           /\ (c.hasL => c.links[i] = Pick(Base.links[o], colsOf))
Injective == IsInjective(c.order)
DictOk == c.hasD => c.dict = Pick(Base.dict, words)

EmitHist == (Emit /\ Len(hist) = Depth) => PrintT("@@SCN " \o ToJson([b |-> b, base |-> Base, hist |-> hist]))
=============================================================================
