---------------------------- MODULE Variational ----------------------------
(* Variational training of latent Dirichlet allocation. w[k] are the Dirichlet parameters of the words of
   topic k, m[d] those of the topics of document d, in units of 10^-6. Visiting a document
   gives each of its words memberships in the topics by the present parameters, and replaces m[d] by the
   prior and the sum of these. After a batch of visits the topics move a step towards the prior plus what
   was assigned in the batch: all the way, if the batch is the whole corpus.
   As parameters can be minute, w may come with finer values f in units of 10^-9 (0 if not known). *)
EXTENDS Digamma

\* 1/x in bits, for x in units of 10^-9
Inv9(x) == Digits(144269504 \div x, 144269504 % x, x, 6)
FinePsi(x, x9) == IF x9 > 0 /\ x9 < 100000000 THEN Psi(One + x9 \div 1000) - Inv9(x9) ELSE Psi(x)
Rows(w, f) == [k \in 1..Len(w) |-> LET total == Psi(SumFun(w[k])) IN [t \in 1..Len(w[k]) |-> FinePsi(w[k][t], f[k][t]) - total]]
Coarse(w) == [k \in 1..Len(w) |-> Zero(Len(w[k]))]

\* the memberships of word t in a document with parameters md
WordBits(rows, md, t) == [k \in 1..Len(md) |-> rows[k][t] + Psi(md[k])]
Nothing(K, T) == [k \in 1..K |-> Zero(T)]
PlusM(x, y) == [k \in 1..Len(x) |-> Plus(x[k], y[k])]
\* a visit: n are the counts of the document
Visit(rows, a, n, md) ==
  LET z == [t \in 1..Len(n) |-> IF n[t] = 0 THEN Zero(Len(a)) ELSE Normal(WordBits(rows, md, t))]
  IN [m |-> [k \in 1..Len(a) |-> a[k] + SumTo(Len(n), LAMBDA t : n[t] * z[t][k])],
      g |-> [k \in 1..Len(a) |-> [t \in 1..Len(n) |-> n[t] * z[t][k]]]]
\* visits to documents ds one after another
Visits(rows, a, words, m, ds) ==
  FoldLeft(LAMBDA acc, d : LET v == Visit(rows, a, words[d], acc.m[d]) IN [m |-> [acc.m EXCEPT ![d] = v.m], g |-> PlusM(acc.g, v.g)],
           [m |-> m, g |-> Nothing(Len(a), Len(words[1]))], ds)

(* ---- the schedule ------------------------------------------------------------------------------------- *)
\* size 0: the whole corpus at once
Size(D, size) == IF size = 0 THEN D ELSE size
Batches(D, size) == IF size = 0 THEN 1 ELSE D \div size + 1        \* in an iteration
Docs(D, size, b) == [s \in 1..Size(D, size) |-> ((b * Size(D, size) + s - 1) % D) + 1]      \* b = 0, 1, ...
\* how far to go, with delay and forgetting in units of 1/100
StepSize(size, b, delay, forget) ==
  LET bits == (forget * (Log2(100 * b + delay) - Log2(100))) \div 100
  IN IF size = 0 \/ bits <= 0 THEN One ELSE LET e == Exp2Neg(bits) IN Digits(e \div 1048576, e % 1048576, 1048576, 6)
\* x (any size) times a fraction
Part(x, s) == (x \div One) * s + (LET f == x % One IN ((f \div 1000) * s) \div 1000 + ((f % 1000) * (s \div 1000)) \div 1000)
Towards(x, y, s) == IF s = One THEN y ELSE IF y >= x THEN x + Part(y - x, s) ELSE x - Part(x - y, s)

\* batch b of a run, in state [w, f, m]
Batch(a, bp, words, p, st0, b, learning) ==
  LET D == Len(words) K == Len(a) T == Len(words[1])
      v == Visits(Rows(st0.w, st0.f), a, words, st0.m, Docs(D, p.size, b))
      s == StepSize(p.size, b, p.delay, p.forget)
  IN IF ~ learning THEN [st0 EXCEPT !.m = v.m]
     ELSE [m |-> v.m, f |-> Coarse(st0.w), w |-> [k \in 1..K |-> [t \in 1..T |-> Towards(st0.w[k][t], bp[t] + v.g[k][t], s)]]]
RECURSIVE Run(_, _, _, _, _, _, _, _)
Run(a, bp, words, p, st0, b, n, learning) ==
  IF n = 0 THEN st0 ELSE Run(a, bp, words, p, Batch(a, bp, words, p, st0, b, learning), b + 1, n - 1, learning)
\* iteration i = 0, 1, ... of a run
Iteration(a, bp, words, p, st0, i, learning) == LET n == Batches(Len(words), p.size) IN Run(a, bp, words, p, st0, i * n, n, learning)

(* ---- the bound on the evidence, with the best memberships for these parameters ----------------------------- *)
Bound(a, bp, words, w, m) ==
  LET rows == Rows(w, Coarse(w))
      doc(d) == LET all == Psi(SumFun(m[d])) IN SumTo(Len(words[d]), LAMBDA t : IF words[d][t] = 0 THEN 0 ELSE words[d][t] * (LogSum(WordBits(rows, m[d], t)) - all))
  IN SumTo(Len(words), LAMBDA d : doc(d) - Divergence(m[d], a)) - SumTo(Len(w), LAMBDA k : Divergence(w[k], bp))
=============================================================================
