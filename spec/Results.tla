------------------------------- MODULE Results -------------------------------
(* Logs of experiments: a run's title, then what it reports, in this order: perplexity, a table of precisions,
   one of recalls, mean reciprocal rank and mean average precision. A table gives a number of documents, and
   a value for each cut-off, for each of some groups of documents; wider groups are averages of these. *)
EXTENDS Integers, Sequences, FiniteSets, Sums

Given  == <<"0->", "0->3", "3->5", "5->10", "10->">>           \* the rows of a table on file
Groups == <<"0->", "0->3", "3->", "3->5", "5->", "5->10", "10->">>
Cuts   == <<"10", "20", "30", "40", "50", "75", "100", "150", "250", "500">>
PartsOf(g) == CASE g = "3->" -> {3, 4, 5} [] g = "5->" -> {4, 5} [] OTHER -> {i \in 1..Len(Given) : Given[i] = g}

\* a table is a sequence of rows <<documents, value, value, ...>>; <<>> if there is none
Documents(t, g) == IF t = <<>> THEN 0 ELSE SumSet(PartsOf(g), LAMBDA i : t[i][1])
\* the documents' values, summed
Summed(t, g, c) == SumSet(PartsOf(g), LAMBDA i : t[i][1] * t[i][c + 1])
\* v is the average over the documents of g
Averages(t, g, c, v) == LET n == Documents(t, g) IN
  IF n = 0 THEN (t = <<>> \/ Cardinality(PartsOf(g)) > 1 => v = 0)
  ELSE LET d == v * n - Summed(t, g, c) IN d <= n /\ d >= -n

(* ---- which of its measures a run may leave out ------------------------------------------------------ *)
Fields == {"perp", "precs", "recs", "mrr", "map"}
MayHave(f) == /\ f \subseteq Fields
              /\ "perp" \in f \/ "precs" \in f
              /\ "precs" \in f \/ "recs" \in f
              /\ "recs" \in f \/ "mrr" \in f
              /\ "mrr" \in f \/ "map" \in f
=============================================================================
