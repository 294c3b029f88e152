----------------------------- MODULE Likelihood -----------------------------
(* What a score is: the logarithm of the probability of documents under given topic mixtures and
   topics, in units of 1/10000 of a bit. Mixtures y and topics c are in units of 10^-8. *)
EXTENDS Logs, FiniteSets

B == U \div 10
MaxOf(S) == CHOOSE x \in S : \A z \in S : z <= x

(* ---- admixtures: every word has its own topic ------------------------------------------ *)
WordProb(y, c, t) == SumTo(Len(y), LAMBDA k : Mul8(y[k], c[k][t]))
WordBits(y, c, t) == Log2(WordProb(y, c, t)) - Log2(E8)
AdmixtureBits(ns, y, c) == SumTo(Len(ns), LAMBDA t : IF ns[t] = 0 THEN 0 ELSE Tenth(ns[t], WordBits(y, c, t)))
\* how far off that may be, given the precision of y and c
AdmixtureSlack(ns, y, c) == SumTo(Len(ns), LAMBDA t : IF ns[t] = 0 THEN 0
                               ELSE LET p == WordProb(y, c, t) IN 1 + ns[t] + ns[t] * ((14427 * 4 * Len(y)) \div p))

(* ---- mixtures: every document has one topic ---------------------------------------------- *)
TopicBits(ns, y, c, k) == (Log2(y[k]) - Log2(E8)) \div 10
                          + SumTo(Len(ns), LAMBDA t : IF ns[t] = 0 THEN 0 ELSE Tenth(ns[t], Log2(c[k][t]) - Log2(E8)))
Least == 2000        \* less is not known exactly enough
MixtureBits(ns, y, c) ==
  LET ks == {k \in 1..Len(y) : y[k] >= Least}
      b == [k \in ks |-> TopicBits(ns, y, c, k)]
      top == MaxOf({b[k] : k \in ks})
      \* anything 25 bits below the greatest is lost in its rounding
      part == [k \in ks |-> IF top - b[k] > 25 * B THEN 0 ELSE Exp2Neg(10 * (top - b[k]))]
  IN top + (Log2(SumFun(part)) - 20 * U) \div 10
MixtureSlack(ns, y, c) == 3 + SumTo(Len(ns), LAMBDA t : IF ns[t] = 0 THEN 0
                               ELSE MaxOf({1 + ns[t] + ns[t] * (14427 \div c[k][t]) : k \in 1..Len(y)}))

DocBits(mix, ns, y, c)  == IF mix THEN MixtureBits(ns, y, c) ELSE AdmixtureBits(ns, y, c)
DocSlack(mix, ns, y, c) == IF mix THEN MixtureSlack(ns, y, c) ELSE AdmixtureSlack(ns, y, c)

(* can it be decided with whole numbers of this size at all? *)
Clear(mix, ns, y, c) ==
  /\ \A t \in 1..Len(ns) : ns[t] = 0 \/ IF mix THEN \A k \in 1..Len(y) : c[k][t] > 2000 ELSE WordProb(y, c, t) > 2000
  \* topics with the least of weights, or none, must not matter whatever their weight really is
  /\ mix => LET top == MixtureBits(ns, y, c)
                small == [k \in 1..Len(y) |-> Least]
            IN \A k \in 1..Len(y) : y[k] >= Least \/ TopicBits(ns, small, c, k) < top - 25 * B

Bits2(mix, words, y, c)  == SumTo(Len(words), LAMBDA d : DocBits(mix, words[d], y[d], c))
Slack2(mix, words, y, c) == SumTo(Len(words), LAMBDA d : DocSlack(mix, words[d], y[d], c))
AllClear(mix, words, y, c) == \A d \in 1..Len(words) : Clear(mix, words[d], y[d], c)
Count(words) == SumTo(Len(words), LAMBDA d : SumFun(words[d]))

(* ---- what may be asked ----------------------------------------------------------------------- *)
Methods     == {"ll", "perp", "ell", "eperp", "dcll", "dcperp"}
Perplexity  == {"perp", "eperp", "dcperp"}
Expectation == {"ell", "eperp"}
Completion  == {"dcll", "dcperp"}
Refused(method, y, qs) == (y /\ qs) \/ (y /\ method \in Expectation)
=============================================================================
