------------------------------ MODULE T_Budget ------------------------------
(* Recorded training runs against Budget. init.chain[i+1] is how things are after i sweeps made one at a
   time, with the perplexity (in units of 1/1000) and bound measured after them, if they were. *)
EXTENDS Budget, TLC
VARIABLES ti, l, st, bad
Abs(x) == IF x < 0 THEN -x ELSE x
SInit(init) == init
Same(x, y, e) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= e

\* with so many points measured, is training given up? Undecided if it is close.
Gain(c, p, s) == c.chain[p[s - 1].after + 1].perp - c.chain[p[s].after + 1].perp
Quits(c, p, n, f, s)     == Tests(c.kind, n, f, s) /\ Gain(c, p, s) < 995
MayQuit(c, p, n, f, s)   == Tests(c.kind, n, f, s) /\ Gain(c, p, s) < 1005
\* the number of points there can be: a mixture that has settled measures no more
Settled(c, p) == {s \in 1..Len(p) : c.chain[p[s].after + 1].settled}
Ends(c, p, n, f) ==
  LET last == IF Settled(c, p) = {} THEN Len(p) ELSE Min(Settled(c, p)) - 1
      sure == {s \in 1..last : Quits(c, p, n, f, s)}
      stop == IF sure = {} THEN last ELSE Min(sure)
  IN {stop} \cup {s \in 1..stop : MayQuit(c, p, n, f, s)}
RunClause(c, ev) ==
  LET n == ev.n  f == IF ev.debug /\ c.kind \in Mixtures THEN 1 ELSE ev.f
      p == Points(c.kind, n, f)
      ends == Ends(c, p, n, f)
      got == Len(ev.points)
      quit == got > 0 /\ MayQuit(c, p, n, f, got) /\ got \in ends
      made == IF quit /\ got < Len(p) THEN p[got].after ELSE n
      made2 == n
  IN CASE ev.exc # "" -> "Raised" \o ev.exc
       [] c.kind \notin Silent /\ got \notin ends -> "NumberOfMeasurements"
       [] c.kind \notin Silent /\ \E s \in 1..got : ev.points[s].label # p[s].label -> "MeasuredWhere"
       [] c.kind \notin Silent /\ \E s \in 1..got : Abs(ev.points[s].perp - c.chain[p[s].after + 1].perp) > 3 + c.chain[p[s].after + 1].perp \div c.exact -> "MeasuredPerplexity"
       [] c.kind \notin Silent /\ \E s \in 1..got : Abs(ev.points[s].bound - c.chain[p[s].after + 1].bound) > 3 + Abs(c.chain[p[s].after + 1].bound) \div c.exact -> "MeasuredBound"
       [] ~ (Same(ev.seen, c.chain[made + 1].seen, c.tol) \/ (quit /\ Same(ev.seen, c.chain[made2 + 1].seen, c.tol))) -> "SweepsMade"
       [] OTHER -> ""
\* two estimators which differ in what they log
TwinClause(c, ev) == CASE ev.exc # "" -> "Raised" \o ev.exc
                       [] \E i \in 1..Len(ev.seen) : ~ Same(ev.seen[i], ev.seen[1], c.tol) -> "LoggingChangedModel"
                       [] OTHER -> ""
SVerdict(c, ev) == IF ev.op = "run" THEN RunClause(c, ev) ELSE TwinClause(c, ev)
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
