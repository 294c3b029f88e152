------------------------------ MODULE Lifecycle ------------------------------
(* The life of a set of estimators which share one process.

   What a call computes is written down symbolically, as a term: the name of the computation
   and the numbers of the terms it depends on. Terms are numbered (hash-consed) in tab, so that
   two computations have the same number exactly if they are the same function of the same
   inputs, and must therefore have the same result. The two random generators of the process
   (numpy's, and the C one used by the Gibbs sampler) are inputs too: np and cr are the terms of
   everything that may have advanced them since they were last seeded.

   A handle's state is [live, cfg, seed, model, kx, q]: the term of its model (0 untrained), the
   corpus object which its kept query state belongs to (0 nothing kept, -1 an object that the
   caller has no reference to) and the term of that query state. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh(nh) == [tab |-> <<>>, h |-> [i \in 1..nh |-> [live |-> FALSE, cfg |-> 0, seed |-> 0, model |-> 0, kx |-> 0, q |-> 0]],
              np |-> 0, cr |-> 0]

Find(tab, t) == IF \E i \in 1..Len(tab) : tab[i] = t THEN CHOOSE i \in 1..Len(tab) : tab[i] = t ELSE 0
\* the table with the term, and the term's number
Intern(tab, t) == LET i == Find(tab, t) IN IF i # 0 THEN [tab |-> tab, id |-> i] ELSE [tab |-> Append(tab, t), id |-> Len(tab) + 1]

Collapsed == {"LDA_CVB0", "LDA_CVB"}
NeedsWords == {"LDA_CVB0", "LDA_CVB", "LDA_VB_PYTHON_IMPL"}     \* refuse documents without a word

(* cfgs[c] = [id, kind, K, iters, qiters] ; corpora[x] = [id, D, T, bare, empty] *)
Kind(w, s, h) == w.cfgs[s.h[h].cfg].kind
CfgId(w, s, h) == w.cfgs[s.h[h].cfg].id

Trained(s, h) == s.h[h].model # 0
CanResume(w, s, h, x) == s.h[h].kx = x /\ ~ w.corpora[x].bare

-----------------------------------------------------------------------------
\* everything which a call by handle h on corpus content c may have drawn. What is drawn from numpy
\* depends on the other generator only by way of the model and the kept state.
Drew(w, s, h, what, c, n) ==
  LET args == <<what, CfgId(w, s, h), s.h[h].model, s.h[h].q, c, n, s.np>>
      a == Intern(s.tab, <<"drew">> \o args)
      b == Intern(a.tab, <<"cdrew">> \o args \o <<s.cr>>)
  IN [s EXCEPT !.tab = b.tab, !.np = a.id, !.cr = b.id]

Seeded(w, s, h, seed) ==
  LET a == Intern(s.tab, <<"seed", seed>>)
      b == Intern(a.tab, <<"cseed", seed>>)
  IN [s EXCEPT !.tab = b.tab, !.np = a.id, !.cr = IF Kind(w, s, h) = "LDA_GIBBS" THEN b.id ELSE @]

New(w, s, h, cfg, seed) ==
  Seeded(w, [s EXCEPT !.h[h] = [live |-> TRUE, cfg |-> cfg, seed |-> seed, model |-> 0, kx |-> 0, q |-> 0]], h, seed)
Reseed(w, s, h, seed) == [Seeded(w, s, h, seed) EXCEPT !.h[h].seed = seed]
Copy(w, s, h, h2) == Seeded(w, [s EXCEPT !.h[h2] = s.h[h]], h2, s.h[h].seed)

-----------------------------------------------------------------------------
FitIters(w, s, h, n) == IF n = 0 THEN w.cfgs[s.h[h].cfg].iters ELSE n
QueryIters(w, s, h, n) == IF n = 0 THEN w.cfgs[s.h[h].cfg].qiters ELSE n

Keep(s, h, persist, x, bare, q) ==
  [s EXCEPT !.h[h].kx = IF persist THEN (IF bare THEN -1 ELSE x) ELSE 0,
            !.h[h].q = IF persist THEN q ELSE 0]

\* The random state that a training run depends on
FitRandom(w, s, h, resume) ==
  <<IF resume /\ Trained(s, h) /\ Kind(w, s, h) # "MOM_GIBBS" THEN 0 ELSE s.np,
    IF Kind(w, s, h) = "LDA_GIBBS" THEN s.cr ELSE 0>>

Fit(w, s, h, x, persist, resume, n, bare) ==
  LET c == w.corpora[x].id
      i == FitIters(w, s, h, n)
      r == FitRandom(w, s, h, resume)
      q0 == IF resume THEN s.h[h].q ELSE 0
      args == <<CfgId(w, s, h), s.h[h].model, q0, c, i, r[1], r[2]>>
      a == Intern(s.tab, <<"model">> \o args)
      b == Intern(a.tab, <<"state">> \o args)
      t == [s EXCEPT !.tab = b.tab, !.h[h].model = a.id]
      u == Drew(w, t, h, "fit", c, i)
  IN Keep(u, h, persist, x, bare, b.id)

\* The posterior over the topics of the documents: of a variational mixture it is a closed form
\* of model and documents, others start at random, or from what was kept
Posterior(w, s, h, c, resume, i) ==
  IF Kind(w, s, h) = "MOM_VB" THEN <<"posterior", CfgId(w, s, h), s.h[h].model, c>>
  ELSE <<"posterior", CfgId(w, s, h), s.h[h].model, c,
         IF resume THEN s.h[h].q ELSE 0, i,
         IF resume /\ Kind(w, s, h) # "MOM_GIBBS" THEN 0 ELSE s.np,
         IF Kind(w, s, h) = "LDA_GIBBS" THEN s.cr ELSE 0>>

\* [s, res]: the state after, and the term of the mixtures returned
Transform(w, s, h, x, c, persist, resume, n, bare) ==
  LET i == QueryIters(w, s, h, n)
      a == Intern(s.tab, Posterior(w, s, h, c, resume, i))
      b == Intern(a.tab, <<"dists", a.id>>)
      u == Drew(w, [s EXCEPT !.tab = b.tab], h, "transform", c, i)
  IN [s |-> Keep(u, h, persist, x, bare, a.id), res |-> b.id]

FitTransform(w, s, h, x, persist, resume, n) ==
  LET t == Fit(w, s, h, x, TRUE, resume, n, FALSE)
      u == Transform(w, t, h, x, w.corpora[x].id, persist, TRUE, n, FALSE)
  IN IF persist /\ w.corpora[x].bare THEN [u EXCEPT !.s.h[h].kx = -1] ELSE u

-----------------------------------------------------------------------------
Point == {"ll", "perp", "dcll", "dcperp"}
Completion == {"dcll", "dcperp"}
Perplexity == {"perp", "eperp", "dcperp"}

\* <<"halves">> of a corpus, for document completion
Halves(s, c) == LET a == Intern(s.tab, <<"first", c>>)  b == Intern(a.tab, <<"second", c>>)
                IN [s |-> [s EXCEPT !.tab = b.tab], first |-> a.id, second |-> b.id]
\* content numbers are kept apart from term numbers
Half(i) == 1000000 + i

\* [s, res] for the four ways of asking; y is the term of the mixtures given, if any
Score(w, s, h, x, how, method, y) ==
  LET c == w.corpora[x].id
      value(t, e, d) == LET m == IF method \in Perplexity THEN "perplexity" ELSE "likelihood"
                            a == Intern(t.tab, <<m, t.h[h].model, e, d>>) IN [s |-> [t EXCEPT !.tab = a.tab], res |-> a.id]
      expect(t, q) == LET m == IF method \in Perplexity THEN "eperplexity" ELSE "elikelihood"
                          a == Intern(t.tab, <<m, t.h[h].model, c, q>>) IN [s |-> [t EXCEPT !.tab = a.tab], res |-> a.id]
  IN CASE how = "none" /\ method \in Completion ->
            LET hv == Halves(s, c)
                u == Transform(w, hv.s, h, x, Half(hv.first), FALSE, FALSE, 0, FALSE)
            IN value(u.s, Half(hv.second), u.res)
       [] how = "none" /\ method \in Point ->
            LET u == Transform(w, s, h, x, c, FALSE, FALSE, 0, FALSE) IN value(u.s, c, u.res)
       [] how = "none" ->
            LET u == Transform(w, s, h, x, c, TRUE, FALSE, 0, FALSE)
                q == u.s.h[h].q
                t == [u.s EXCEPT !.h[h].kx = s.h[h].kx, !.h[h].q = s.h[h].q]
            IN expect(t, q)
       [] how = "y" -> value(s, c, y)
       [] how = "qs" /\ method \in Point ->
            LET a == Intern(s.tab, <<"dists", s.h[h].q>>) IN value([s EXCEPT !.tab = a.tab], c, a.id)
       [] OTHER -> expect(s, s.h[h].q)

-----------------------------------------------------------------------------
(* Which calls are refused: the exceptions allowed, and if none, {""} *)
Refusal(w, s, h, op, x, resume, how, method) ==
  LET empty == w.corpora[x].empty
      maybe == IF empty THEN {"", "ValueError"} ELSE {""}
      any == {"ValueError", "AttributeError", "TypeError"}
  IN CASE op = "fit" \/ op = "fit_transform" ->
            IF resume /\ ~ CanResume(w, s, h, x) THEN {"ValueError"} ELSE maybe
       [] op = "transform" ->
            IF ~ Trained(s, h) THEN {"ValueError"}
            ELSE IF resume /\ ~ CanResume(w, s, h, x) THEN {"ValueError"} ELSE maybe
       [] op = "score" ->
            IF how = "both" THEN {"ValueError"}
            ELSE IF ~ Trained(s, h) THEN any
            ELSE IF how = "y" /\ method \notin Point THEN {"ValueError"}
            ELSE IF how = "y" /\ Kind(w, s, h) = "LDA_GIBBS" THEN {"ValueError"}
            ELSE IF how = "none" /\ method \in Completion /\ Kind(w, s, h) \in NeedsWords THEN {"", "ValueError"}
            ELSE IF empty /\ Kind(w, s, h) \in NeedsWords THEN {"", "ValueError"} ELSE {""}
       [] OTHER -> {""}
=============================================================================
