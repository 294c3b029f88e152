---------------------------- MODULE MC_Lifecycle ----------------------------
(* Histories of Calls calls by one estimator, some of them refused; then perhaps calls by another,
   unrelated, estimator; then the same calls by a second estimator with the same settings and seed.
   Corpora 1 and 2 are equal but different objects, 3 is another, handed over as a bare matrix. *)
EXTENDS Lifecycle, Json
CONSTANTS Calls, Noises, Kinds, Emit
VARIABLES w, s, hist, results, phase, noises, redo, keeps
vars == <<w, s, hist, results, phase, noises, redo, keeps>>

Corpora == << [id |-> 1, D |-> 3, T |-> 4, bare |-> FALSE, empty |-> FALSE],
              [id |-> 1, D |-> 3, T |-> 4, bare |-> FALSE, empty |-> FALSE],
              [id |-> 2, D |-> 2, T |-> 4, bare |-> TRUE, empty |-> FALSE] >>

Init == \E k \in Kinds :
  /\ w = [cfgs |-> <<[id |-> 1, kind |-> k, K |-> 2, iters |-> 3, qiters |-> 2],
                     [id |-> 2, kind |-> "LDA_GIBBS", K |-> 2, iters |-> 2, qiters |-> 2]>>,
          corpora |-> Corpora]
  /\ s = New(w, Fresh(3), 1, 1, 7)
  /\ hist = <<>> /\ results = <<>> /\ phase = "first" /\ noises = 0 /\ redo = 0
  /\ keeps = [i \in 1..3 |-> 0]

Ops == [op : {"fit", "transform"}, x : {1, 3}, persist : BOOLEAN, resume : BOOLEAN, how : {""}, method : {""}]
       \cup [op : {"fit_transform"}, x : {1, 3}, persist : BOOLEAN, resume : {FALSE}, how : {""}, method : {""}]
       \cup [op : {"score"}, x : {1}, persist : {FALSE}, resume : {FALSE}, how : {"none"}, method : {"ll", "dcperp"}]
       \cup [op : {"score"}, x : {1}, persist : {FALSE}, resume : {FALSE}, how : {"qs", "both"}, method : {"ll"}]

Possible(t, h, o) == o.op = "score" /\ o.how \in {"qs", "both"} => t.h[h].kx = o.x

\* [s, res] after handle h makes call o on corpus object x
Do(t, h, o, x) ==
  IF "" \notin Refusal(w, t, h, o.op, x, o.resume, o.how, o.method)
    THEN [s |-> Drew(w, t, h, "refused " \o o.op \o o.how \o o.method, w.corpora[x].id, IF o.resume THEN 1 ELSE 0), res |-> -1]
  ELSE CASE o.op = "fit" -> [s |-> Fit(w, t, h, x, o.persist, o.resume, 0, w.corpora[x].bare), res |-> 0]
         [] o.op = "transform" -> Transform(w, t, h, x, w.corpora[x].id, o.persist, o.resume, 0, w.corpora[x].bare)
         [] o.op = "fit_transform" -> FitTransform(w, t, h, x, o.persist, o.resume, 0)
         [] o.op = "score" -> LET r == Score(w, t, h, x, o.how, o.method, 0)
                              IN [r EXCEPT !.s = Drew(w, r.s, h, "score" \o o.method, w.corpora[x].id, 0)]

\* what should be kept after a call, told without looking at the state: by the last accepted call that isn't a look-up
KeepRule(h, o, x, ok) ==
  IF ~ ok \/ (o.op = "score" /\ o.how # "none") THEN keeps[h]
  ELSE IF o.persist THEN (IF w.corpora[x].bare THEN -1 ELSE x) ELSE 0

Made(h, o, x) ==
  LET r == Do(s, h, o, x) IN
  /\ s' = r.s
  /\ keeps' = [keeps EXCEPT ![h] = KeepRule(h, o, x, r.res # -1)]
  /\ UNCHANGED w

Call(o) == /\ phase = "first" /\ Len(hist) < Calls /\ Possible(s, 1, o) /\ Made(1, o, o.x)
           /\ hist' = Append(hist, o) /\ results' = Append(results, <<Do(s, 1, o, o.x).res, Do(s, 1, o, o.x).s.h[1].model, Do(s, 1, o, o.x).s.h[1].q>>)
           /\ UNCHANGED <<phase, noises, redo>>

Turn == /\ phase = "first" /\ Len(hist) = Calls /\ phase' = "noise"
        /\ (Emit => PrintT("@@SCN " \o ToJson([kind |-> w.cfgs[1].kind, calls |-> hist])))
        /\ UNCHANGED <<w, s, hist, results, noises, redo, keeps>>

NoiseCreated == /\ phase = "noise" /\ noises = 0 /\ Noises > 0 /\ noises' = 1
                /\ s' = New(w, s, 3, 2, 9) /\ UNCHANGED <<w, hist, results, phase, redo, keeps>>
NoiseTrained == /\ phase = "noise" /\ noises >= 1 /\ noises < Noises /\ noises' = noises + 1
                /\ Made(3, [op |-> "fit", x |-> 1, persist |-> TRUE, resume |-> FALSE, how |-> "", method |-> ""], 1)
                /\ UNCHANGED <<hist, results, phase, redo>>

Again == /\ phase = "noise" /\ phase' = "second" /\ s' = New(w, s, 2, 1, 7)
         /\ UNCHANGED <<w, hist, results, noises, redo, keeps>>
\* the second estimator is given the equal corpus
Repeat == /\ phase = "second" /\ redo < Calls /\ redo' = redo + 1
          /\ LET o == hist[redo + 1] IN Made(2, o, IF o.x = 1 THEN 2 ELSE o.x)
          /\ UNCHANGED <<hist, results, phase, noises>>

Next == (\E o \in Ops : Call(o)) \/ Turn \/ NoiseCreated \/ NoiseTrained \/ Again \/ Repeat
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
KeptAsAsked == \A h \in 1..3 : s.h[h].kx = keeps[h] /\ ((s.h[h].q # 0) = (keeps[h] # 0))
\* the last call of the second estimator computes what the same call of the first did
Repeats == redo > 0 => LET o == hist[redo] IN
             /\ s.h[2].model = results[redo][2]
             /\ s.h[2].q = results[redo][3]
TermsUnique == \A i, j \in 1..Len(s.tab) : s.tab[i] = s.tab[j] => i = j
FitTransformIsBoth ==
  phase = "first" /\ Len(hist) < Calls => \A x \in {1}, p \in BOOLEAN :
     LET a == FitTransform(w, s, 1, x, p, FALSE, 0)
         b == Transform(w, Fit(w, s, 1, x, TRUE, FALSE, 0, FALSE), 1, x, w.corpora[x].id, p, TRUE, 0, FALSE)
     IN a = b
\* what a mixture that is asked for gets scored at is what asking for both at once gives
ScoreIsTransformThenScore ==
  phase = "first" /\ Trained(s, 1) /\ Len(hist) < Calls =>
     LET a == Score(w, s, 1, 1, "none", "ll", 0)
         t == Transform(w, s, 1, 1, 1, FALSE, FALSE, 0, FALSE)
         b == Score(w, t.s, 1, 1, "y", "ll", t.res)
     IN a.res = b.res

OnlyFitsChangeModels == [][\A h \in 1..3 : s.h[h].live /\ s'.h[h].model # s.h[h].model =>
                             \/ phase = "second" /\ hist[redo + 1].op \in {"fit", "fit_transform"}
                             \/ phase = "noise"
                             \/ phase = "first" /\ hist'[Len(hist')].op \in {"fit", "fit_transform"}]_vars
RefusedChangesNothing == [][phase = "first" /\ Len(hist') > Len(hist) /\ results'[Len(results')][1] = -1 => s'.h = s.h]_vars
=============================================================================
