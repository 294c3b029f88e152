------------------------------- MODULE Mixture -------------------------------
(* Mixtures of multinomials: every document has one topic. Parameters, priors and memberships are in
   units of 10^-6.
   Variational training keeps Dirichlet parameters c of the topics and w[k] of the words of each. In turn, every
   document is given memberships z[d], and then the parameters become the priors plus what was assigned.
   The sampler keeps the topic of every document, and draws it from its distribution given those
   of the other documents, and the topics' words; then the topics' words given the documents of each. *)
EXTENDS Digamma

(* ---- variational -------------------------------------------------------------------------------- *)
Row(wk) == LET total == Psi(SumFun(wk)) IN [t \in 1..Len(wk) |-> Psi(wk[t]) - total]
Rows(w) == [k \in 1..Len(w) |-> Row(w[k])]
Bits2(c, rows, n) == LET all == Psi(SumFun(c))
                     IN [k \in 1..Len(c) |-> Psi(c[k]) - all + SumTo(Len(n), LAMBDA t : n[t] * rows[k][t])]
Members(c, w, words) == LET rows == Rows(w) IN [d \in 1..Len(words) |-> Normal(Bits2(c, rows, words[d]))]
Weights(K, a, z) == [k \in 1..K |-> a[k] + SumTo(Len(z), LAMBDA d : z[d][k])]
WordParams(K, T, b, words, z) == [k \in 1..K |-> [t \in 1..T |-> b[t] + SumTo(Len(z), LAMBDA d : words[d][t] * z[d][k])]]
Change(z, y) == SumTo(Len(z), LAMBDA d : SumTo(Len(z[d]), LAMBDA k : Abs(z[d][k] - y[d][k])))
\* the bound on the evidence, with the best memberships for these parameters
Bound(a, b, c, w, words) ==
  LET rows == Rows(w)
  IN SumTo(Len(words), LAMBDA d : LogSum(Bits2(c, rows, words[d]))) - Divergence(c, a) - SumTo(Len(w), LAMBDA k : Divergence(w[k], b))
\* training stops when memberships move less than this
Settled(K, D) == (One \div 1000) * D * K

(* ---- the sampler ------------------------------------------------------------------------------------ *)
Averaged(iterations, burn, thin) == {s \in 1..iterations : s > 1 /\ s - 1 > burn /\ (s - 1) % thin = 0}
Burn(iterations, burn) == IF burn < 0 THEN iterations \div 4 ELSE burn
Thin(iterations, thin) == IF thin >= 0 THEN thin ELSE IF iterations < 10 THEN 1 ELSE iterations \div 10
Kept(iterations, burn, thin) == LET s == Averaged(iterations, burn, thin) IN IF s = {} THEN {iterations} ELSE s

Size(K, z) == [k \in 1..K |-> Cardinality({d \in 1..Len(z) : z[d] = k})]
WordsOf(K, T, words, z) == [k \in 1..K |-> [t \in 1..T |-> SumTo(Len(z), LAMBDA d : IF z[d] = k THEN words[d][t] ELSE 0)]]
\* the posterior, up to a constant, in bits
PostBits(K, T, words, a, b, z) ==
  LET n == Size(K, z) m == WordsOf(K, T, words, z) s == SumFun(b)
  IN SumTo(K, LAMBDA k : Rising(a[k], n[k]) + SumTo(T, LAMBDA t : Rising(b[t], m[k][t])) - Rising(s, SumFun(m[k])))
\* and with topics that are held fixed (in units of 10^-8)
HeldBits(K, T, words, a, phi, z) ==
  LET n == Size(K, z)
  IN SumTo(K, LAMBDA k : Rising(a[k], n[k])) + SumTo(Len(z), LAMBDA d : SumTo(T, LAMBDA t : words[d][t] * Log2(phi[z[d]][t])))
Posterior(K, T, words, a, b) == Normal([c \in 1..Power(K, Len(words)) |-> PostBits(K, T, words, a, b, Assignment(K, Len(words), c - 1))])
Held(K, T, words, a, phi) == Normal([c \in 1..Power(K, Len(words)) |-> HeldBits(K, T, words, a, phi, Assignment(K, Len(words), c - 1))])
\* the topic of document d given the topics of the others, and the topics' words
Conditional(K, T, words, a, phi, z, d) ==
  LET n == Size(K, z)
  IN Normal([k \in 1..K |-> Log2(a[k] + (n[k] - (IF z[d] = k THEN 1 ELSE 0)) * One) + SumTo(T, LAMBDA t : words[d][t] * Log2(phi[k][t]))])
\* where a sweep over the documents goes from z with the topics' words held: the chance of each assignment
Mul(x, y) == LET x1 == x \div 1000 x0 == x % 1000 IN (x1 * y) \div 1000 + (x0 * (y \div 1000)) \div 1000     \* both in units of 10^-6, at most one
SweepChance(K, T, words, a, phi, z, y) ==
  FoldLeft(LAMBDA p, d : Mul(p, Conditional(K, T, words, a, phi, [i \in 1..Len(z) |-> IF i < d THEN y[i] ELSE z[i]], d)[y[d]]), One, [d \in 1..Len(z) |-> d])
Swept(K, T, words, a, phi, z) == [c \in 1..Power(K, Len(z)) |-> SweepChance(K, T, words, a, phi, z, Assignment(K, Len(z), c - 1))]
=============================================================================
