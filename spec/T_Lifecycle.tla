---------------------------- MODULE T_Lifecycle ----------------------------
(* Recorded histories of estimators, against Lifecycle. Judge says which of the clauses count;
   the outcomes of calls (accepted or refused) always do, as all the rest depends on them. *)
EXTENDS Lifecycle, Sums
CONSTANTS Judge
VARIABLES ti, l, st, bad

\* st = [w, s, seen: term number -> array number, results: terms of what calls returned]
LInit(init) == [w |-> [cfgs |-> init.cfgs, corpora |-> init.corpora], s |-> Fresh(init.handles),
                seen |-> [i \in {} |-> 0], results |-> <<>>]

Given(z, ev) == IF ev.ref = 0 THEN 0 ELSE z.results[ev.ref]

After(z, ev) ==       \* [s, res]
  LET s == z.s  w == z.w
      refused == ev.exc # ""
      plain(t) == [s |-> t, res |-> 0]
      c == IF ev.x = 0 THEN 0 ELSE w.corpora[ev.x].id
  IN IF refused THEN plain(Drew(w, s, ev.h, "refused " \o ev.op \o ev.how \o ev.method, c, IF ev.resume THEN 1 ELSE 0))
     ELSE CASE ev.op = "new" -> plain(New(w, s, ev.h, ev.cfg, ev.seed))
            [] ev.op = "reseed" -> plain(Reseed(w, s, ev.h, ev.seed))
            [] ev.op = "copy" -> plain(Copy(w, s, ev.h, ev.h2))
            [] ev.op = "fit" -> plain(Fit(w, s, ev.h, ev.x, ev.persist, ev.resume, ev.iters, w.corpora[ev.x].bare))
            [] ev.op = "transform" -> Transform(w, s, ev.h, ev.x, c, ev.persist, ev.resume, ev.iters, w.corpora[ev.x].bare)
            [] ev.op = "fit_transform" -> FitTransform(w, s, ev.h, ev.x, ev.persist, ev.resume, ev.iters)
            [] ev.op = "score" -> LET r == Score(w, s, ev.h, ev.x, ev.how, ev.method, Given(z, ev))
                                  IN [r EXCEPT !.s = Drew(w, r.s, ev.h, "score" \o ev.method, c, 0)]

\* <<term, array>> pairs that an event shows, given the state after it
Pairs(z, ev) ==
  LET a == After(z, ev)
      F[i \in 0..Len(ev.handles)] ==
        IF i = 0 THEN [tab |-> a.s.tab, ps |-> <<>>]
        ELSE LET o == ev.handles[i]  p == F[i - 1]
                 m == Intern(p.tab, <<"topics", a.s.h[o.h].model>>)
                 d == Intern(m.tab, <<"dists", a.s.h[o.h].q>>)
             IN [tab |-> d.tab,
                 ps |-> p.ps \o (IF o.fitted THEN << <<m.id, o.comp, "comp">> >> ELSE <<>>)
                             \o (IF o.kept THEN << <<d.id, o.dists, "dists">> >> ELSE <<>>)]
      G == F[Len(ev.handles)]
      own == (IF ev.op \in {"transform", "fit_transform"} /\ ev.exc = "" THEN << <<a.res, ev.res, "res">> >> ELSE <<>>)
             \o (IF ev.op = "score" /\ ev.exc = "" THEN << <<a.res, ev.score, "score">> >> ELSE <<>>)
  IN [s |-> [a.s EXCEPT !.tab = G.tab], res |-> a.res, ps |-> own \o G.ps]

Clash(seen, ps) ==   \* the kind of the first thing seen to differ from the same thing seen before
  LET bads == {i \in 1..Len(ps) : \/ ps[i][1] \in DOMAIN seen /\ seen[ps[i][1]] # ps[i][2]
                                  \/ \E j \in 1..(i - 1) : ps[j][1] = ps[i][1] /\ ps[j][2] # ps[i][2]}
  IN IF bads = {} THEN "" ELSE ps[CHOOSE i \in bads : \A j \in bads : i <= j][3]

Scale == 1000000
Tol(n) == 20 + n
Proportions(row) == /\ \A j \in 1..Len(row) : row[j] >= 0 /\ row[j] <= Scale + Tol(Len(row))
                    /\ SumFun(row) - Scale \in (0 - Tol(Len(row)))..Tol(Len(row))
AllProportions(rs, n, k) == Len(rs) = n /\ \A i \in 1..n : Len(rs[i]) = k /\ Proportions(rs[i])

Distributions(z, ev, a) ==
  LET w == z.w
      k(h) == w.cfgs[a.s.h[h].cfg].K
      hs == {i \in 1..Len(ev.handles) : TRUE}
      clean == ev.x = 0 \/ ~ w.corpora[ev.x].empty
  IN CASE ev.resultrows # <<>> /\ clean /\ ~ AllProportions(ev.resultrows, w.corpora[ev.x].D, k(ev.h)) -> "MixturesAreDistributions"
       [] \E i \in hs : ev.handles[i].comprows # <<>> /\ ~ AllProportions(ev.handles[i].comprows, k(ev.handles[i].h), w.corpora[ev.x].T) -> "TopicsAreDistributions"
       [] \E i \in hs : ev.handles[i].dists = -1 -> "KeptMixturesReadable"
       [] \E i \in hs : ev.handles[i].distrows # <<>> /\ clean /\ ~ AllProportions(ev.handles[i].distrows, w.corpora[ev.x].D, k(ev.handles[i].h)) -> "KeptMixturesAreDistributions"
       [] OTHER -> ""

Outcome(z, ev) ==
  LET s == z.s w == z.w IN
  IF ev.op \in {"new", "reseed", "copy"} THEN (IF ev.exc = "" THEN "" ELSE "Raised" \o ev.exc)
  ELSE LET r == Refusal(w, s, ev.h, ev.op, ev.x, ev.resume, ev.how, ev.method) IN
       IF ev.exc \in r THEN "" ELSE IF ev.exc = "" THEN "NotRefused" ELSE "Raised" \o ev.exc

HandleOk(s, o) == o.fitted = (s.h[o.h].model # 0) /\ o.kept = (s.h[o.h].kx # 0)

Why(kind, ev) ==
  CASE kind = "comp" -> IF ev.op \in {"transform", "score"} \/ ev.exc # "" THEN "TopicsChangedByQuery" ELSE "TopicsNotRepeated"
    [] kind = "score" -> "ScoreNotRepeated"
    [] OTHER -> "MixturesNotRepeated"
Counts(kind, ev) ==
  \/ "repeat" \in Judge
  \/ "score" \in Judge /\ kind = "score"
  \/ "model" \in Judge /\ kind = "comp" /\ (ev.op \in {"transform", "score"} \/ ev.exc # "")
  \/ "model" \in Judge /\ kind \in {"res", "score"}

LVerdict(z, ev) ==
  LET o == Outcome(z, ev) IN
  IF o # "" THEN o
  ELSE LET a == Pairs(z, ev)
           cl == Clash(z.seen, a.ps)
           d == Distributions(z, ev, a)
       IN CASE "touched" \in Judge /\ ev.touched # <<>> -> "CallerDataChanged"
            [] "kept" \in Judge /\ ~ ev.self -> "FitReturnsSelf"
            [] "kept" \in Judge /\ \E i \in 1..Len(ev.handles) : ~ HandleOk(a.s, ev.handles[i]) -> "KeptOrForgotten"
            [] \E i \in 1..Len(ev.handles) : ~ HandleOk(a.s, ev.handles[i]) -> "KeptOrForgotten"
            [] cl # "" /\ Counts(cl, ev) -> Why(cl, ev)
            [] "dist" \in Judge /\ d # "" -> d
            [] "dist" \in Judge /\ ~ ev.finite -> "ScoreFinite"
            [] OTHER -> ""

LNext(z, ev) ==
  LET a == Pairs(z, ev)
      new == {i \in 1..Len(a.ps) : a.ps[i][1] \notin DOMAIN z.seen}
      ids == {a.ps[i][1] : i \in new}
      val(t) == a.ps[CHOOSE i \in new : a.ps[i][1] = t][2]
  IN [z EXCEPT !.s = a.s, !.seen = [t \in ids |-> val(t)] @@ @,
               !.results = IF ev.op \in {"fit", "transform", "fit_transform", "score"} THEN Append(@, a.res) ELSE @]
LEnd(z) == ""
INSTANCE TraceKit WITH TInit <- LInit, TVerdict <- LVerdict, TNext <- LNext, TEnd <- LEnd
=============================================================================
