----------------------------- MODULE Similarity -----------------------------
(* Recommending the documents most similar to a document: how similar two documents are, which
   documents are worth ranking for one, and what must not be lost among them.

   Similarities are cosines of tf-idf vectors, in units of 10^-4, or distances between the square
   roots of topic mixtures, in units of 10^-8 (where less is more similar). *)
EXTENDS Logs, FiniteSets

ONE == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Most(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt(n) == LET r == Root(n, 0, 46340) IN IF n - r * r > r THEN r + 1 ELSE r       \* to the nearest

(* ---- words -------------------------------------------------------------------------------- *)
Users(words, t) == Cardinality({d \in 1..Len(words) : words[d][t] > 0})
\* how telling a word is: the fewer documents use it the more so, and one all but one of them use isn't at all
Telling(words, t) == Log2(Len(words)) - Log2(Users(words, t) + 1)
Raw(words, d) == [t \in 1..Len(words[d]) |-> words[d][t] * Telling(words, t)]
\* a w / m in units of 1/ONE, without passing the largest of integers
Part(w, m) == LET q == (w * 100) \div m  r == (w * 100) % m IN q * 100 + (r * 100) \div m
\* the weights of a document's words, the greatest of them ONE
Weights(words, d) == LET r == Raw(words, d)  m == Most({Abs(r[t]) : t \in DOMAIN r})
                     IN IF m < 5 THEN [t \in DOMAIN r |-> 0]
                        ELSE [t \in DOMAIN r |-> IF r[t] < 0 THEN -Part(-r[t], m) ELSE Part(r[t], m)]
Dot(a, b) == SumTo(Len(a), LAMBDA t : a[t] * b[t])
Cosine(a, b) == LET na == Sqrt(Dot(a, a)) nb == Sqrt(Dot(b, b)) x == Dot(a, b)
                    up == (Abs(x) \div na) * ONE
                IN IF na = 0 \/ nb = 0 THEN 0 ELSE IF x < 0 THEN -(up \div nb) ELSE up \div nb
CosineSlack == 12
\* of every document of one corpus with every one of another
Cosines(from, to) == LET a == [d \in 1..Len(from) |-> Weights(from, d)] b == [d \in 1..Len(to) |-> Weights(to, d)]
                     IN [d \in 1..Len(from) |-> [e \in 1..Len(to) |-> Cosine(a[d], b[e])]]

(* ---- topics: vectors in units of 10^-8 ------------------------------------------------------ *)
Distance(a, b) ==
  LET diff == [k \in 1..Len(a) |-> Abs(a[k] - b[k])]
      m == Most({diff[k] : k \in DOMAIN diff})
      unit == IF m <= 10000 THEN 1 ELSE m \div 10000 + 1
      s == [k \in DOMAIN diff |-> (diff[k] + unit \div 2) \div unit]
  IN unit * Sqrt(SumTo(Len(s), LAMBDA k : s[k] * s[k]))
DistanceSlack(w) == 20 + w \div 1500

(* ---- candidates: score is a function of documents; better(a, b) how much better a is than b ------ *)
\* the threshold of a document is the score of the worst of its links
Threshold(near, score, links) == IF near THEN Most({score[e] : e \in links}) ELSE Least({score[e] : e \in links})
Passes(near, x, thr) == IF near THEN x <= thr ELSE x >= thr
Candidates(near, score, thr) == {e \in DOMAIN score : Passes(near, score[e], thr)}
\* kept may hold anything within slack of the threshold, must hold what passes, and every link thresholds were made for
WellKept(near, score, thr, slack, kept) ==
  /\ \A e \in DOMAIN score : Passes(near, score[e], IF near THEN thr - slack ELSE thr + slack) => e \in kept
  /\ \A e \in kept : Passes(near, score[e], IF near THEN thr + slack ELSE thr - slack)
=============================================================================
