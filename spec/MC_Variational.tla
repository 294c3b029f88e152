--------------------------- MODULE MC_Variational ---------------------------
(* Learning: whole-corpus iterations from several starts conserve mass and never lower the bound; small
   batches keep every parameter positive. Visiting: the order of visits, for all sizes of corpus and batch. *)
EXTENDS Variational, TLC, Json
CONSTANTS MaxDocs, MaxIter, Depth, Emit
VARIABLES phase, corpus, now, b, was, visits
vars == <<phase, corpus, now, b, was, visits>>

Half == One \div 2
Corpora == { [K |-> 2, T |-> 2, words |-> <<<<2, 1>>, <<0, 3>>>>, a |-> <<Half, One>>, b |-> <<Half, Half>>],
             [K |-> 2, T |-> 3, words |-> <<<<1, 0, 1>>, <<1, 1, 0>>, <<0, 2, 1>>>>, a |-> <<3 * One, 2 * One>>, b |-> <<One, Half, One \div 10>>],
             [K |-> 3, T |-> 2, words |-> <<<<4, 0>>, <<0, 3>>>>, a |-> <<One, Half, Half>>, b |-> <<One + 100000, One + 100000>>] }
Plans == { [size |-> 0, delay |-> 60, forget |-> 60], [size |-> 1, delay |-> 60, forget |-> 60], [size |-> 2, delay |-> 100, forget |-> 90], [size |-> 3, delay |-> 1000, forget |-> 51] }
Starts(T) == { [t \in 1..T |-> One \div T], [t \in 1..T |-> (One * 2 * t) \div (T * (T + 1))] }
Mixed(q) == [d \in 1..Len(q.words) |-> [k \in 1..q.K |-> q.a[k] + (IF k = 1 + (d % q.K) THEN SumFun(q.words[d]) * One ELSE 0)]]
NoCorpus == [K |-> 0]
Init == \/ \E q \in Corpora, p \in Plans : \E w0 \in [1..q.K -> Starts(q.T)] :
             /\ phase = "learning" /\ corpus = [q |-> q, p |-> p]
             /\ now = [w |-> w0, f |-> Coarse(w0), m |-> Mixed(q)] /\ b = 0 /\ was = <<>> /\ visits = <<>>
        \/ \E D \in 1..MaxDocs, size \in 0..(MaxDocs + 1) :
             /\ phase = "visiting" /\ corpus = [D |-> D, size |-> size] /\ now = <<>> /\ b = 0 /\ was = <<>> /\ visits = Zero(D)
Learn == /\ phase = "learning" /\ b < Depth
         /\ was' = now /\ now' = Batch(corpus.q.a, corpus.q.b, corpus.q.words, corpus.p, now, b, TRUE) /\ b' = b + 1
         /\ UNCHANGED <<phase, corpus, visits>>
Go == /\ phase = "visiting" /\ b < MaxIter * Batches(corpus.D, corpus.size)
      /\ (Emit /\ b = 0 => PrintT("@@SCN " \o ToJson(corpus)))
      /\ b' = b + 1
      /\ visits' = FoldLeft(LAMBDA acc, d : [acc EXCEPT ![d] = @ + 1], visits, Docs(corpus.D, corpus.size, b))
      /\ UNCHANGED <<phase, corpus, now, was>>
Next == Learn \/ Go
Spec == Init /\ [][Next]_vars

q == corpus.q
N == SumTo(Len(q.words), LAMBDA d : SumFun(q.words[d]))
Whole == phase = "learning" /\ b > 0 /\ corpus.p.size = 0
WordMass == Whole => Abs(SumTo(q.K, LAMBDA k : SumFun(now.w[k])) - q.K * SumFun(q.b) - N * One) <= 20 * N
DocMass == phase = "learning" => \A d \in 1..Len(q.words) : Abs(SumFun(now.m[d]) - SumFun(q.a) - SumFun(q.words[d]) * One) <= 5 * N
Climbs == Whole => Bound(q.a, q.b, q.words, now.w, now.m) >= Bound(q.a, q.b, q.words, was.w, was.m) - 300
Below == phase = "learning" => Bound(q.a, q.b, q.words, now.w, now.m) <= 300
Positive == phase = "learning" => \A k \in 1..q.K, t \in 1..q.T : now.w[k][t] > 0
\* the topics stay between where they were and where the batch would have them
Between == phase = "learning" /\ b > 0 => \A k \in 1..q.K : SumFun(now.w[k]) <= SumFun(was.w[k]) + SumFun(q.b) + N * One
\* asking leaves the topics alone
Asked == phase = "learning" => LET r == Batch(q.a, q.b, q.words, corpus.p, now, b, FALSE) IN r.w = now.w /\ r.f = now.f
\* no document is ever two visits ahead of another
Fair == phase = "visiting" => \A d \in 1..corpus.D, e \in 1..corpus.D : visits[d] <= visits[e] + 1 /\ (d < e => visits[d] >= visits[e])
\* an iteration visits them all
Visited == phase = "visiting" /\ b % Batches(corpus.D, corpus.size) = 0 => \A d \in 1..corpus.D : visits[d] >= b \div Batches(corpus.D, corpus.size)
Exactly == phase = "visiting" => SumFun(visits) = b * Size(corpus.D, corpus.size)
=============================================================================
