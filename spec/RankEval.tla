------------------------------ MODULE RankEval ------------------------------
(* Ranking scores. A document's candidates are a set of [id, score] with different scores; its
   expected links are a set of ids, all of them candidates. Scores are kept as whole numbers by
   measuring them in units of 1 over a common multiple of every possible denominator. *)
EXTENDS Integers, Sequences, FiniteSets, Sums

Units   == 27720        \* a multiple of 1..12: the positions in a ranking
MaxRank == 12
DegUnits == 60          \* a multiple of 1..6: the numbers of expected links
MaxDeg  == 6

Ids(cands) == {c.id : c \in cands}
ScoreOf(cands, id) == (CHOOSE c \in cands : c.id = id).score

\* 1 for the most probable
Rank(cands, id) == 1 + Cardinality({c \in cands : c.score > ScoreOf(cands, id)})

TopM(cands, m) == {c.id : c \in {c \in cands : Cardinality({x \in cands : x.score > c.score}) < m}}

Hits(doc, m) == Cardinality(TopM(doc.cands, m) \cap doc.expected)

Deg(doc) == Cardinality(doc.expected)

(* ---- mean reciprocal rank: RRUnits / (Units * RRCount) ---------------------------------- *)
RRUnits(docs) == SumTo(Len(docs), LAMBDA d : SumSet(docs[d].expected, LAMBDA e : Units \div Rank(docs[d].cands, e)))
RRCount(docs) == SumTo(Len(docs), LAMBDA d : Deg(docs[d]))

(* ---- mean average precision: APUnits / (Units * DegUnits * number of documents) ---------- *)
PrecUnits(doc, e) == LET r == Rank(doc.cands, e) IN Hits(doc, r) * (Units \div r)
APUnits(docs) == SumTo(Len(docs), LAMBDA d :
    IF docs[d].expected = {} THEN 0
    ELSE (DegUnits \div Deg(docs[d])) * SumSet(docs[d].expected, LAMBDA e : PrecUnits(docs[d], e)))

(* ---- precision and recall at m, for groups of documents ---------------------------------- *)
Everything == <<-1, -1>>
InRange(n, g) == g # Everything /\ n >= g[1] /\ n <= g[2]

\* the first group that has the document, or Everything
RECURSIVE GroupOf(_, _)
GroupOf(n, groups) == IF groups = <<>> THEN Everything
                      ELSE IF InRange(n, Head(groups)) THEN Head(groups)
                      ELSE GroupOf(n, Tail(groups))

Members(docs, groups, g) ==
  {d \in 1..Len(docs) : /\ docs[d].expected # {}
                        /\ g = Everything \/ GroupOf(Deg(docs[d]), groups) = g}

HitSum(docs, ms, m)    == SumSet(ms, LAMBDA d : Hits(docs[d], m))                             \* / m
RecallSum(docs, ms, m) == SumSet(ms, LAMBDA d : Hits(docs[d], m) * (DegUnits \div Deg(docs[d])))  \* / DegUnits
=============================================================================
