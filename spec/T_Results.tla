------------------------------ MODULE T_Results ------------------------------
(* Recorded readings of logs, and the tables written from them, against Results. The state is what was logged. *)
EXTENDS Results, TLC
VARIABLES ti, l, st, bad

Same(t, got) == \A i \in 1..Len(Groups) : LET g == Groups[i] IN
  /\ got[i][1] = Documents(t, g)
  /\ \A c \in 1..Len(Cuts) : IF t # <<>> /\ Cardinality(PartsOf(g)) = 1
                              THEN got[i][c + 1] = t[(CHOOSE j \in PartsOf(g) : TRUE)][c + 1]
                              ELSE Averages(t, g, c, got[i][c + 1])
RunClause(r, g) ==
  CASE g.algorithm # r.algorithm \/ g.K # r.K \/ g.desc # r.desc -> "Settings"
    [] g.perp # r.perp -> "Perplexity"
    [] g.mrr # r.mrr -> "ReciprocalRank"
    [] g.map # r.map -> "AveragePrecision"
    [] ~ Same(r.precs, g.precs) -> "Precisions"
    [] ~ Same(r.recs, g.recs) -> "Recalls"
    [] g.plain # "" -> "Delimited" \o g.plain
    [] OTHER -> ""
ReadClause(runs, got) ==
  IF Len(got) # Len(runs) THEN "EveryRun"
  ELSE LET wrong == {i \in 1..Len(runs) : RunClause(runs[i], got[i]) # ""} IN
       IF wrong = {} THEN "" ELSE RunClause(runs[(CHOOSE i \in wrong : TRUE)], got[(CHOOSE i \in wrong : TRUE)])
\* for each run, group and cut-off a row
RowClause(runs, rows) ==
  LET nG == Len(Groups) nC == Len(Cuts) per == nG * nC
      ok(i) == LET r == runs[((i - 1) \div per) + 1] gi == (((i - 1) % per) \div nC) + 1 ci == ((i - 1) % nC) + 1 g == Groups[gi]
                   row == rows[i]
                   v(t, x) == IF t # <<>> /\ Cardinality(PartsOf(g)) = 1 THEN x = t[(CHOOSE j \in PartsOf(g) : TRUE)][ci + 1] ELSE Averages(t, g, ci, x)
               IN /\ row[1] = r.algorithm /\ row[2] = r.K /\ row[3] = r.desc /\ row[4] = r.mrr /\ row[5] = r.map /\ row[6] = r.perp
                  /\ row[7] = g /\ row[8] = Cuts[ci] /\ row[9] = Documents(r.precs, g) /\ v(r.precs, row[10]) /\ v(r.recs, row[11]) /\ row[12] = 11
  IN IF Len(rows) # Len(runs) * per THEN "EveryRow"
     ELSE IF \A i \in 1..Len(rows) : ok(i) THEN "" ELSE "Row"
SInit(init) == init
SVerdict(s, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "read" -> ReadClause(s, ev.got)
    [] ev.op = "write" -> RowClause(s, ev.rows)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
