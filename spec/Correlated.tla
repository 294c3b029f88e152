----------------------------- MODULE Correlated -----------------------------
(* Correlated topic models and those driven by features. However they come by the mean of every
   document's topics, they say which share of the document each topic has (the softmax of the means),
   and every sweep gives each topic the words it is expected to account for.
   Shares and topics are in units of 10^-8, priors in 10^-6. *)
EXTENDS Units, Likelihood

Kinds == {"CTM", "CTM_BOHNING", "CTM_GRAD", "STM", "STM_BOHNING", "STM_UV"}
\* STM_BOHNING makes many updates in a sweep, and queries make at least a hundred
Stepwise == Kinds \ {"STM_BOHNING"}
\* CTM measures every topic from the first, so the first is special
Exchangeable == Kinds \ {"CTM"}

\* the shares of topics, whose logarithms (in bits, but for a constant) these are
Shares(bits) == Normal(bits)

\* how much of the occurrences of word t in document d topic k accounts for, in units of 10^-6
Account(y, c, d, k, t) == Frac(Mul8(y[d][k], c[k][t]), WordProb(y[d], c, t))
Expected(words, y, c, k, t) == SumTo(Len(words), LAMBDA d : IF words[d][t] = 0 THEN 0 ELSE words[d][t] * Account(y, c, d, k, t))
\* the words of topic k after a sweep, in units of 10^-6
Relearnt(words, y, c, prior, k) ==
  LET n == [t \in 1..Len(c[k]) |-> prior + Expected(words, y, c, k, t)]
      all == SumFun(n)
  IN [t \in 1..Len(c[k]) |-> Frac(n[t], all)]
\* how far off that may be: what a unit of y, c or a count can do
Unsure(words, y, c, prior, k) ==
  LET all == prior * Len(c[k]) + SumTo(Len(c[k]), LAMBDA t : Expected(words, y, c, k, t))
      least(d, t) == WordProb(y[d], c, t)
      off == SumTo(Len(words), LAMBDA d : SumTo(Len(c[k]), LAMBDA t :
                IF words[d][t] = 0 THEN 0 ELSE words[d][t] * (2 + (4 * One) \div (1 + least(d, t)))))
  IN 3 + Frac(2 * off, all + 1)
\* can that be told with numbers of this size?
Plain(words, y, c) == \A d \in 1..Len(words) : \A t \in 1..Len(words[d]) : words[d][t] = 0 \/ WordProb(y[d], c, t) > 20000

\* where measurements are taken, asked for n sweeps and one measurement every f (0: none)
Measured(n, f) == IF f = 0 THEN <<>> ELSE [i \in 1..((n + f - 1) \div f) |-> (i - 1) * f]
\* Training may be given up at a measurement, if perplexity has not fallen by one since the last. It does not say so of the first
\* measurements (called by the numbers of sweeps before them).
Patience(kind) == CASE kind = "CTM" -> 29 [] kind = "STM" -> 50 [] kind \in {"CTM_BOHNING", "CTM_GRAD"} -> 100 [] OTHER -> 20
MayQuit(kind, label, gain) == label > Patience(kind) /\ gain < 1005
=============================================================================
