----------------------------- MODULE Collapsed -----------------------------
(* Collapsed variational training. Every occurrence n of a word in a document d has a distribution
   z[d][n] over the topics (in units of 10^-7). The totals
       dk[d][k]  of a document and topic,   kt[k][t]  of a topic and word,   k[k]  of a topic
   are sums of these, and a sweep moves each occurrence in turn to
       z[k]  proportional to  (alpha + dk) (beta + kt) / (T beta + k)
   with the occurrence itself taken out of the totals. The second order variant also keeps the sums
   v of z (1-z), and multiplies by exp of  - vdk/2(alpha+dk)^2 - vkt/2(beta+kt)^2 + vk/2(T beta+k)^2.
   Documents that were trained on before stay in kt and k, and are never moved again. *)
EXTENDS Logs, FiniteSets, FiniteSetsExt, SequencesExt

One == 10000000                \* a whole token

Abs(x) == IF x < 0 THEN -x ELSE x

\* a b / One, for 0 <= a, b <= One
Times(a, b) == LET a1 == a \div 10000 a0 == a % 10000 b1 == b \div 10000 b0 == b % 10000
               IN 10 * a1 * b1 + (a1 * b0 + a0 * b1) \div 1000 + (a0 * b0) \div One
Spread(a) == IF a <= 0 \/ a >= One THEN 0 ELSE Times(a, One - a)

(* ---- totals ------------------------------------------------------------------------------- *)
Zero(K) == [k \in 1..K |-> 0]
Plus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Minus(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
SumSeq(K, s) == FoldLeft(Plus, Zero(K), s)
Spreads(a) == [k \in 1..Len(a) |-> Spread(a[k])]

TotalDK(K, z) == [d \in 1..Len(z) |-> SumSeq(K, z[d])]
TotalK(K, z)  == SumSeq(K, TotalDK(K, z))
\* kt from w, the words of the occurrences; T of them
TotalKT(K, T, w, z) ==
  LET add(acc, p) == [k \in 1..K |-> [acc[k] EXCEPT ![p.t] = @ + p.z[k]]]
      doc(d) == [n \in 1..Len(z[d]) |-> [t |-> w[d][n], z |-> z[d][n]]]
  IN FoldLeft(LAMBDA acc, d : FoldLeft(add, acc, doc(d)), [k \in 1..K |-> Zero(T)], [d \in 1..Len(z) |-> d])
Totals(K, T, w, z) == [dk |-> TotalDK(K, z), kt |-> TotalKT(K, T, w, z), k |-> TotalK(K, z)]
SpreadOf(z) == [d \in 1..Len(z) |-> [n \in 1..Len(z[d]) |-> Spreads(z[d][n])]]

PlusM(a, b) == [k \in 1..Len(a) |-> Plus(a[k], b[k])]
MinusM(a, b) == [k \in 1..Len(a) |-> Minus(a[k], b[k])]
Nothing(K, T) == [kt |-> [k \in 1..K |-> Zero(T)], k |-> Zero(K)]
AddCounts(a, b) == [kt |-> PlusM(a.kt, b.kt), k |-> Plus(a.k, b.k)]

\* the occurrences of a document are those it counts
Occurrences(w, counts) ==
  /\ Len(w) = Len(counts)
  /\ \A d \in 1..Len(w) : \A t \in 1..Len(counts[d]) : Cardinality({n \in 1..Len(w[d]) : w[d][n] = t}) = counts[d][t]
  /\ \A d \in 1..Len(w) : Len(w[d]) = SumFun(counts[d])

(* ---- where an occurrence moves ------------------------------------------------------------------ *)
\* a / b in units of 10^-5
Digit(q, r, b) == q * 10 + (10 * r) \div b
RECURSIVE Digits(_, _, _, _)
Digits(q, r, b, n) == IF n = 0 THEN q ELSE Digits(10 * q + (10 * r) \div b, (10 * r) % b, b, n - 1)
Ratio(a, b) == LET x == IF b > 200000000 THEN a \div 10 ELSE a
                   y == IF b > 200000000 THEN b \div 10 ELSE b
               IN IF x \div y > 20000 THEN 2000000000 ELSE Digits(x \div y, x % y, y, 5)
\* half of v / m^2 in bits, units of 10^-5. (Greater ones are cut off at 20000, and a moderate one known to 0.1%.)
Correction(v, m) == LET a == Ratio(IF v < 0 THEN 0 ELSE v, m)
                        b == IF a >= 2000000000 THEN a ELSE IF m < 10000 THEN 2000000000 ELSE Ratio(a, m \div 100)
                    IN IF b > 200000000 THEN 200000000 ELSE (b \div 2) + Tenth(b \div 2, 4) + Tenth(b \div 20, 4) + Tenth(b \div 200, 3)


Normal(bits) == LET top == Max({bits[k] : k \in DOMAIN bits})
                    e == [k \in DOMAIN bits |-> IF top - bits[k] > 2500000 THEN 0 ELSE Exp2Neg(top - bits[k])]
                    s == SumFun(e)
                IN [k \in DOMAIN bits |-> Digits(e[k] \div s, e[k] % s, s, 7)]

FirstBits(alpha, beta, T, dk, kt, nk, own) ==
  [k \in 1..Len(dk) |-> Log2(alpha + dk[k] - own[k]) + Log2(beta + kt[k] - own[k]) - Log2(T * beta + nk[k] - own[k])]
\* v: the spreads, [dk, kt, k]; not told whether the occurrence's own is part of them
SecondBits(alpha, beta, T, dk, kt, nk, own, vdk, vkt, vk) ==
  LET f == FirstBits(alpha, beta, T, dk, kt, nk, own)
  IN [k \in 1..Len(dk) |-> f[k] - Correction(vdk[k], alpha + dk[k] - own[k]) - Correction(vkt[k], beta + kt[k] - own[k])
                                + Correction(vk[k], T * beta + nk[k] - own[k])]
\* beyond this the correction is cut off
Extreme(alpha, beta, T, dk, kt, nk, own, vdk, vkt, vk) ==
  \E k \in 1..Len(dk) : \/ Correction(vdk[k], alpha + dk[k] - own[k]) > 5000000
                        \/ Correction(vkt[k], beta + kt[k] - own[k]) > 5000000
Positive(alpha, beta, dk, kt, own) == \A k \in 1..Len(dk) : alpha + dk[k] - own[k] > 0 /\ beta + kt[k] - own[k] > 0
Column(kt, t) == [k \in 1..Len(kt) |-> kt[k][t]]

(* ---- one sweep, told by the distributions before and after it ------------------------------------- *)
\* p: [K, T, alpha, beta, second, fine]; base: the counts underneath; returns the first occurrence that is not
\* where it should be, as <<d, n>>, or <<>>
Sweep(p, base, vbase, w, before, after) ==
  LET own == Totals(p.K, p.T, w, before)
      vown == Totals(p.K, p.T, w, SpreadOf(before))
      first == [dk |-> own.dk, kt |-> PlusM(own.kt, base.kt), k |-> Plus(own.k, base.k), vdk |-> <<>>, vkt |-> <<>>, vk |-> <<>>, wrong |-> <<>>]
      init == IF p.second THEN [first EXCEPT !.vdk = vown.dk, !.vkt = PlusM(vown.kt, vbase.kt), !.vk = Plus(vown.k, vbase.k)] ELSE first
      all == FoldLeft(LAMBDA acc, d : acc \o [n \in 1..Len(w[d]) |-> <<d, n>>], <<>>, [d \in 1..Len(w) |-> d])
      move(acc, at) ==
        LET d == at[1] n == at[2] t == w[d][n]
            b == before[d][n] a == after[d][n]
            diff == Minus(a, b) vdiff == Minus(Spreads(a), Spreads(b))
            kt == Column(acc.kt, t) vkt == Column(acc.vkt, t)
            into(m, x) == [k \in 1..p.K |-> [m[k] EXCEPT ![t] = @ + x[k]]]
            ok == ~ Positive(p.alpha, p.beta, acc.dk[d], kt, b) \/
                  IF p.second
                    THEN Extreme(p.alpha, p.beta, p.T, acc.dk[d], kt, acc.k, b, acc.vdk[d], vkt, acc.vk) \/
                         LET e == Normal(SecondBits(p.alpha, p.beta, p.T, acc.dk[d], kt, acc.k, b, acc.vdk[d], vkt, acc.vk))
                         \* the exponential is approximate
                         IN \A k \in 1..p.K : Abs(e[k] - a[k]) <= 20000 + Spread(e[k]) \div 12
                    ELSE LET e == Normal(FirstBits(p.alpha, p.beta, p.T, acc.dk[d], kt, acc.k, b))
                         IN \A k \in 1..p.K : Abs(e[k] - a[k]) <= p.fine
        IN [dk |-> [acc.dk EXCEPT ![d] = Plus(@, diff)], kt |-> into(acc.kt, diff), k |-> Plus(acc.k, diff),
            vdk |-> IF p.second THEN [acc.vdk EXCEPT ![d] = Plus(@, vdiff)] ELSE <<>>,
            vkt |-> IF p.second THEN into(acc.vkt, vdiff) ELSE <<>>,
            vk |-> IF p.second THEN Plus(acc.vk, vdiff) ELSE <<>>,
            wrong |-> IF acc.wrong # <<>> \/ ok THEN acc.wrong ELSE at]
  IN FoldLeft(move, init, all).wrong
=============================================================================
