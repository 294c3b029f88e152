------------------------------- MODULE T_Rank -------------------------------
EXTENDS RankEval, TLC
VARIABLES ti, l, st, bad

Abs(x) == IF x < 0 THEN -x ELSE x

AsDocs(init) ==
  [d \in 1..Len(init.docs) |->
     [cands |-> {[id |-> c[1], score |-> c[2]] : c \in {init.docs[d].cands[i] : i \in 1..Len(init.docs[d].cands)}},
      expected |-> {init.docs[d].expected[i] : i \in 1..Len(init.docs[d].expected)}]]

\* ev.value is the mean reciprocal rank times 30 Units, rounded
Mrr(docs, ev) ==
  IF Abs(ev.value * RRCount(docs) - 30 * RRUnits(docs)) <= 2 * RRCount(docs) THEN "" ELSE "MeanReciprocalRank"

\* ev.value is the mean average precision times Units * DegUnits
Map(docs, ev) ==
  IF Abs(ev.value * Len(docs) - APUnits(docs)) <= 2 * Len(docs) THEN "" ELSE "MeanAveragePrecision"

GroupKeys(ev) == {ev.groups[i] : i \in 1..Len(ev.groups)} \cup {Everything}

RowFor(table, g) == (CHOOSE i \in 1..Len(table) : table[i].group = g)

\* ev.prec, ev.rec: for each group, values times 100000 for each m of ev.ms
PrecRec(docs, ev) ==
  LET keys(t) == {t[i].group : i \in 1..Len(t)}
      G == GroupKeys(ev)
      mem == [g \in G |-> Members(docs, ev.groups, g)]
      S == 100000
      ok(t, g, i, num, den) ==
        Abs(t[RowFor(t, g)].values[i] * den - S * num) <= den
  IN CASE keys(ev.prec) # G \/ keys(ev.rec) # G \/ keys(ev.counts) # G -> "GroupsReported"
       [] \E g \in G : ev.counts[RowFor(ev.counts, g)].n # Cardinality(mem[g]) -> "DocumentsInGroup"
       [] \E g \in G : Len(ev.prec[RowFor(ev.prec, g)].values) # Len(ev.ms)
                    \/ Len(ev.rec[RowFor(ev.rec, g)].values) # Len(ev.ms) -> "CutOffsReported"
       [] \E g \in G : mem[g] = {} /\ \E i \in 1..Len(ev.ms) :
            ev.prec[RowFor(ev.prec, g)].values[i] # 0 \/ ev.rec[RowFor(ev.rec, g)].values[i] # 0 -> "EmptyGroupIsZero"
       [] \E g \in G : mem[g] # {} /\ \E i \in 1..Len(ev.ms) :
            ~ ok(ev.prec, g, i, HitSum(docs, mem[g], ev.ms[i]), ev.ms[i] * Cardinality(mem[g])) -> "PrecisionAtM"
       [] \E g \in G : mem[g] # {} /\ \E i \in 1..Len(ev.ms) :
            ~ ok(ev.rec, g, i, RecallSum(docs, mem[g], ev.ms[i]), DegUnits * Cardinality(mem[g])) -> "RecallAtM"
       [] OTHER -> ""

RankVerdict(s, ev) ==
  IF ev.exc # "" THEN "Raised" \o ev.exc
  ELSE IF ev.touched THEN "ArgumentsUntouched"
  ELSE CASE ev.op = "mrr" -> Mrr(s, ev)
         [] ev.op = "map" -> Map(s, ev)
         [] ev.op = "precrec" -> PrecRec(s, ev)
         [] OTHER -> "UnknownOperation"
RankInit(init) == AsDocs(init)
RankNext(s, ev) == s
RankEnd(s) == ""
INSTANCE TraceKit WITH TInit <- RankInit, TVerdict <- RankVerdict, TNext <- RankNext, TEnd <- RankEnd
=============================================================================
