------------------------------- MODULE Gibbs -------------------------------
(* Collapsed Gibbs sampling for latent Dirichlet allocation. Every token has one topic; a sweep draws the
   topic of each token from its distribution given the topics of all the others. A plan says how many
   sweeps are burnt in and which of those that follow are averaged. Priors and averages are in units
   of 10^-6. *)
EXTENDS Units

(* ---- tallies: w and z are the words and topics of all tokens, document after document -------- *)
Doc(lens) == FoldLeft(LAMBDA acc, d : acc \o [i \in 1..lens[d] |-> d], <<>>, [d \in 1..Len(lens) |-> d])
NDK(K, lens, z) == LET of == Doc(lens) IN
  FoldLeft(LAMBDA acc, i : [acc EXCEPT ![of[i]][z[i]] = @ + 1], [d \in 1..Len(lens) |-> Zero(K)], [i \in 1..Len(z) |-> i])
NKV(K, T, w, z) == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![z[i]][w[i]] = @ + 1], [k \in 1..K |-> Zero(T)], [i \in 1..Len(z) |-> i])
NK(K, z) == FoldLeft(LAMBDA acc, k : [acc EXCEPT ![k] = @ + 1], Zero(K), z)
Valid(K, z) == \A i \in 1..Len(z) : z[i] \in 1..K

(* ---- what one sample says --------------------------------------------------------------------- *)
Mixtures(K, lens, z, a) == LET n == NDK(K, lens, z) s == SumFun(a)
                           IN [d \in 1..Len(lens) |-> [k \in 1..K |-> Frac(n[d][k] * One + a[k], lens[d] * One + s)]]
\* cols of T words have tokens
Topics(K, cols, w, z, b, bsum) == LET n == NKV(K, cols, w, z) m == NK(K, z)
                           IN [k \in 1..K |-> [v \in 1..cols |-> Frac(n[k][v] * One + b[v], m[k] * One + bsum)]]

(* ---- plans ------------------------------------------------------------------------------------- *)
Burn(iterations, burn) == IF burn < 0 THEN iterations \div 2 ELSE burn
Thin(iterations, thin) == LET t == IF thin >= 0 THEN thin ELSE IF iterations <= 100 THEN 5 ELSE IF iterations <= 1000 THEN 10 ELSE 50
                              u == IF t < iterations THEN t ELSE iterations
                          IN IF u < 1 THEN 1 ELSE u
Taken(iterations, burn, thin) == {s \in (burn + 1)..(burn + iterations) : (s - burn) % thin = 0}

(* ---- the posterior, up to a constant, in bits ------------------------------------------------------ *)
PostBits(K, T, lens, w, a, b, z) ==
  LET dk == NDK(K, lens, z) kv == NKV(K, T, w, z) nk == NK(K, z) s == SumFun(b)
  IN SumTo(Len(lens), LAMBDA d : SumTo(K, LAMBDA k : Rising(a[k], dk[d][k])))
     + SumTo(K, LAMBDA k : SumTo(T, LAMBDA v : Rising(b[v], kv[k][v])) - Rising(s, nk[k]))
\* with topics that are held fixed (in units of 10^-8)
HeldBits(K, lens, w, a, phi, z) ==
  LET dk == NDK(K, lens, z)
  IN SumTo(Len(lens), LAMBDA d : SumTo(K, LAMBDA k : Rising(a[k], dk[d][k]))) + SumTo(Len(w), LAMBDA i : Log2(phi[z[i]][w[i]]))

Posterior(K, T, lens, w, a, b) == Normal([c \in 1..Power(K, Len(w)) |-> PostBits(K, T, lens, w, a, b, Assignment(K, Len(w), c - 1))])
Held(K, lens, w, a, phi) == Normal([c \in 1..Power(K, Len(w)) |-> HeldBits(K, lens, w, a, phi, Assignment(K, Len(w), c - 1))])

\* the distribution of token i given the others
Conditional(K, T, lens, w, a, b, z, i) ==
  LET dk == NDK(K, lens, z) kv == NKV(K, T, w, z) nk == NK(K, z) d == Doc(lens)[i] v == w[i] s == SumFun(b)
      own(k) == IF z[i] = k THEN 1 ELSE 0
  IN Normal([k \in 1..K |-> Log2((dk[d][k] - own(k)) * One + a[k]) + Log2((kv[k][v] - own(k)) * One + b[v]) - Log2((nk[k] - own(k)) * One + s)])
=============================================================================
