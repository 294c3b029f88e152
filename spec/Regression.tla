----------------------------- MODULE Regression -----------------------------
(* Dirichlet-multinomial regression: topics are sampled as in Gibbs, but every document has its own prior over
   topics, the exponential of its features weighted per topic. After every so many sweeps the weights of
   each topic are replaced by the most probable given the samples so far. All reals are in units of 10^-6. *)
EXTENDS Gibbs, Digamma

\* a b
Mul6(a, b) == LET s == IF (a < 0) = (b < 0) THEN 1 ELSE -1
                  p == Abs(a) q == Abs(b)
                  p1 == p \div 1000 p0 == p % 1000 q1 == q \div 1000 q0 == q % 1000
              IN s * (p1 * q1 + (p1 * q0 + p0 * q1 + (p0 * q0) \div 1000) \div 1000)
Dot(x, w) == SumTo(Len(x), LAMBDA f : Mul6(x[f], w[f]))
\* e^x
Exp6(x) == LET b == Mul6(x, 144270)
               n == IF b <= 0 THEN 0 ELSE (b + U - 1) \div U
           IN Frac(Exp2Neg(n * U - b) * Two(n), 1048576)
Priors(X, W) == [d \in 1..Len(X) |-> [k \in 1..Len(W) |-> Exp6(Dot(X[d], W[k]))]]

(* ---- what one sample says ------------------------------------------------------------------------ *)
OwnMixtures(K, lens, z, A) == LET n == NDK(K, lens, z)
  IN [d \in 1..Len(lens) |-> LET s == SumFun(A[d]) IN [k \in 1..K |-> Frac(n[d][k] * One + A[d][k], lens[d] * One + s)]]

(* ---- plans: the sweeps made between updates of the weights each count their samples from one -------- *)
RBurn(iterations, burn) == IF burn < 0 THEN iterations \div 4 ELSE burn
RSweeps(iterations, burn) == IF burn < 0 THEN iterations ELSE iterations - burn       \* made after burning in
RThin(iterations, burn, thin) ==
  LET t == IF thin >= 0 THEN thin ELSE IF iterations <= 500 THEN 5 ELSE IF iterations <= 1000 THEN 10 ELSE 50
      n == RSweeps(iterations, burn)
      u == IF t < n THEN t ELSE n
  IN IF u < 1 THEN 1 ELSE u
RUpdate(iterations, burn, thin, update) == IF update < 0 THEN 10 * RThin(iterations, burn, thin) ELSE update
\* which of n sweeps are sampled, and the last sweep before which the weights were updated
Sampled(n, thin, update) == {m \in 1..n : (((m - 1) % update) + 1) % thin = 0}
Since(n, update) == ((n - 1) \div update) * update

(* ---- the posterior ------------------------------------------------------------------------------------ *)
DocTerms(K, lens, A, dk) == SumTo(Len(lens), LAMBDA d : SumTo(K, LAMBDA k : Rising(A[d][k], dk[d][k])))
OwnBits(K, T, lens, w, A, b, z) ==
  LET kv == NKV(K, T, w, z) nk == NK(K, z) s == SumFun(b)
  IN DocTerms(K, lens, A, NDK(K, lens, z)) + SumTo(K, LAMBDA k : SumTo(T, LAMBDA v : Rising(b[v], kv[k][v])) - Rising(s, nk[k]))
OwnHeldBits(K, lens, w, A, phi, z) == DocTerms(K, lens, A, NDK(K, lens, z)) + SumTo(Len(w), LAMBDA i : Log2(phi[z[i]][w[i]]))
OwnConditional(K, T, lens, w, A, b, z, i) ==
  LET dk == NDK(K, lens, z) kv == NKV(K, T, w, z) nk == NK(K, z) d == Doc(lens)[i] v == w[i] s == SumFun(b)
      own(k) == IF z[i] = k THEN 1 ELSE 0
  IN Normal([k \in 1..K |-> Log2((dk[d][k] - own(k)) * One + A[d][k]) + Log2((kv[k][v] - own(k)) * One + b[v]) - Log2((nk[k] - own(k)) * One + s)])

(* ---- the weights of topic k: old are all the weights before, w the new ones of k ------------------------- *)
\* (the variance of their prior is 1/100)
WithRow(old, k, w) == [old EXCEPT ![k] = w]
Average(s, n) == s \div n
\* the logarithm of their probability, in units of 10^-5 bits; counts are those of each sample
Probable(X, lens, counts, old, k, w) ==
  LET A == Priors(X, WithRow(old, k, w)) S == Len(counts)
      doc(d) == LET t == SumFun(A[d]) IN
                LogGamma(t) - LogGamma(t + lens[d] * One) - LogGamma(A[d][k])
                + Average(SumTo(S, LAMBDA s : LogGamma(A[d][k] + counts[s][d][k] * One)), S)
  IN SumTo(Len(X), doc) - SumTo(Len(w), LAMBDA f : Mul6(Mul6(w[f], w[f]), 7213475))
\* its gradient, in 10^-5 bits
Slope(X, lens, counts, old, k, w) ==
  LET A == Priors(X, WithRow(old, k, w)) S == Len(counts)
      pull == [d \in 1..Len(X) |-> LET t == SumFun(A[d]) IN
                Mul6(A[d][k], Psi(t) - Psi(t + lens[d] * One) - Psi(A[d][k])
                              + Average(SumTo(S, LAMBDA s : Psi(A[d][k] + counts[s][d][k] * One)), S))]
  IN [f \in 1..Len(w) |-> SumTo(Len(X), LAMBDA d : Mul6(X[d][f], pull[d])) - Mul6(w[f], 14426950)]
=============================================================================
