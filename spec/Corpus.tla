------------------------------- MODULE Corpus -------------------------------
(* The corpus and its transformations.

   A corpus is a record of aligned sequences, one element for each document:
     order : where each document came from (its index in the original corpus, 0-based)
     words : each document's word counts, one for each word of the vocabulary
     feats, links, cats : its features, out-links and label, <<>> when the corpus has none
     dict  : the name of each word, <<>> when there's no dictionary
   with flags hasF, hasL, hasC, hasD, and ncols the number of columns of the link matrix.
   Positions in the code are 0-based, here they are 1-based. *)
EXTENDS Integers, Sequences, FiniteSets

N(c) == Len(c.order)

Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Pick(s, ix) == [i \in 1..Len(ix) |-> s[ix[i]]]

Distinct(row) == Cardinality({i \in DOMAIN row : row[i] # 0})

IsInjective(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

Square(c) == c.hasL /\ c.ncols = N(c)

\* the positions p of s with Test(p), in order
Positions(n, Test(_)) == SelectSeq([i \in 1..n |-> i], Test)

(* ---- choosing rows ---------------------------------------------------------------- *)

\* Just the rows given, links keep their columns
TakeRows(c, ix) ==
  [c EXCEPT !.order = Pick(c.order, ix),
            !.words = Pick(c.words, ix),
            !.feats = IF c.hasF THEN Pick(c.feats, ix) ELSE <<>>,
            !.links = IF c.hasL THEN Pick(c.links, ix) ELSE <<>>,
            !.cats  = IF c.hasC THEN Pick(c.cats, ix)  ELSE <<>>]

\* Rows given, the columns of links being given separately
TakeRowsCols(c, ix, cols) ==
  LET t == TakeRows(c, ix)
  IN IF c.hasL THEN [t EXCEPT !.links = [i \in 1..Len(ix) |-> Pick(c.links[ix[i]], cols)],
                              !.ncols = Len(cols)]
     ELSE t

\* As documents are relabelled by a re-ordering, so are the ends of a square link matrix
Reordered(c, ix) == IF Square(c) THEN TakeRowsCols(c, ix, ix) ELSE TakeRows(c, ix)

(* ---- vocabulary ------------------------------------------------------------------- *)

DocFreq(c, w) == Cardinality({d \in 1..N(c) : c.words[d][w] # 0})

FrequentWords(c, min) ==
  Positions(Len(c.words[1]), LAMBDA w : DocFreq(c, w) >= min)

TrimmedTo(c, ws) ==
  [c EXCEPT !.words = [d \in 1..N(c) |-> Pick(c.words[d], ws)],
            !.dict = IF c.hasD THEN Pick(c.dict, ws) ELSE <<>>]

(* ---- intercept --------------------------------------------------------------------- *)

One == 1
HasIntercept(c) ==
  \E f \in 1..Len(c.feats[1]) : \A d \in 1..N(c) : c.feats[d][f] = One

WithIntercept(c) ==
  IF ~c.hasF \/ HasIntercept(c) THEN c
  ELSE [c EXCEPT !.feats = [d \in 1..N(c) |-> Append(c.feats[d], One)]]

(* ---- pruning ----------------------------------------------------------------------- *)

LongEnough(c, min) == Positions(N(c), LAMBDA d : Distinct(c.words[d]) >= min)

\* Documents are removed until each one left has enough links to those left
RECURSIVE LinkedEnough(_, _)
LinkedEnough(c, min) ==
  LET keep == Positions(N(c), LAMBDA d : SumSeq(c.links[d]) >= min)
  IN IF Len(keep) = N(c) \/ Len(keep) = 0 THEN Pick(c.order, keep)
     ELSE LinkedEnough(Reordered(c, keep), min)

\* The original positions of the documents that survive pruning
Survivors(c, minWords, minLinks) ==
  LET long == Reordered(c, LongEnough(c, minWords))
  IN IF minLinks = 0 \/ ~c.hasL THEN Range(long.order)
     ELSE Range(LinkedEnough(long, minLinks))

\* The rows of c, in the order in which the given original positions are listed
RowsFor(c, order) ==
  [i \in 1..Len(order) |-> CHOOSE d \in 1..N(c) : c.order[d] = order[i]]

(* ---- splitting on a feature -------------------------------------------------------- *)

WithoutAny(c, fs) == Positions(N(c), LAMBDA d : \A f \in Range(fs) : c.feats[d][f] = 0)
WithFirst(c, fs)  == Positions(N(c), LAMBDA d : c.feats[d][fs[1]] # 0)

(* ---- cross-validation -------------------------------------------------------------- *)

QuerySize(D, K) == (D + K - 1) \div K

\* The indices the design uses: K windows of equal size, wrapping round at the end
QueryIdx(D, k, K) ==
  [i \in 1..QuerySize(D, K) |-> ((QuerySize(D, K) * k + i - 1) % D) + 1]
TrainIdx(D, k, K) ==
  [i \in 1..(D - QuerySize(D, K)) |-> ((QuerySize(D, K) * (k + 1) + i - 1) % D) + 1]

IsFold(c, train, query, k, K) ==
  LET all == Range(c.order) IN
  CASE ~ (N(query) = QuerySize(N(c), K))                     -> "QuerySizeIsCeilDOverK"
    [] ~ (IsInjective(query.order) /\ IsInjective(train.order)) -> "NoDocumentTwice"
    [] ~ (Range(query.order) \cap Range(train.order) = {})   -> "TrainAndQueryDisjoint"
    [] ~ (Range(query.order) \cup Range(train.order) = all)  -> "NothingLost"
    [] ~ (train = TakeRows(c, RowsFor(c, train.order)))      -> "TrainDocumentsWhole"
    [] ~ (query = TakeRows(c, RowsFor(c, query.order)))      -> "QueryDocumentsWhole"
    [] OTHER -> ""

(* ---- document completion ------------------------------------------------------------ *)

SumsTo(a, b, c) == \A d \in DOMAIN c : \A w \in DOMAIN c[d] : a[d][w] + b[d][w] = c[d][w]
AllIn(m, lo)    == \A d \in DOMAIN m : \A w \in DOMAIN m[d] : m[d][w] >= lo

KeptByCompletion(est, evl, min) ==
  Positions(Len(est), LAMBDA d : Distinct(est[d]) >= min /\ Distinct(evl[d]) >= min)

(* ---- link splits ---------------------------------------------------------------------*)

Links(m) == {<<i, j>> \in (DOMAIN m) \X (1..(IF m = <<>> THEN 0 ELSE Len(m[1]))) : m[i][j] # 0}

IsSymmetric(m) == \A i, j \in DOMAIN m : m[i][j] = m[j][i]

Abs(x) == IF x < 0 THEN -x ELSE x

IsPartition(x, l, r) == /\ SumsTo(l, r, x)
                        /\ Links(l) \cap Links(r) = {}

LowerTriangle(m) == {p \in Links(m) : p[1] >= p[2]}

DegreeSeq(m) == [i \in DOMAIN m |-> Distinct(m[i])]

\* Rows with enough links, of which a fold's share is moved
Foldable(x, min) == {i \in DOMAIN x : Distinct(x[i]) >= min}

IsFoldedSplit(x, l, r, subset, K, min) ==
  CASE ~ (Range(subset) = Foldable(x, min) /\ IsInjective(subset)) -> "SplitDocumentsReported"
    [] ~ (\A i \in Foldable(x, min) : \A j \in DOMAIN x[i] :
            /\ l[i][j] + r[i][j] = x[i][j]
            /\ (l[i][j] = 0 \/ r[i][j] = 0))                       -> "LinksPartitioned"
    [] ~ (\A i \in Foldable(x, min) : Distinct(r[i]) = Distinct(x[i]) \div K) -> "FoldsShareOfLinksMoved"
    [] ~ (\A i \in (DOMAIN x) \ Foldable(x, min) : l[i] = x[i] /\ r[i] = x[i]) -> "SparselyLinkedDocumentsUntouched"
    [] OTHER -> ""
=============================================================================
