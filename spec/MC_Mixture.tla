----------------------------- MODULE MC_Mixture -----------------------------
(* Learning: variational steps from several starts conserve mass, never lower the bound, and settle. Drawing:
   for every assignment of documents, the conditionals drawn from are those of the posterior. Asked: the
   draws that are averaged under every plan. *)
EXTENDS Mixture, TLC, Json
CONSTANTS MaxIter, Depth, Emit
VARIABLES phase, corpus, c, w, z, plan, sweep, taken, was
vars == <<phase, corpus, c, w, z, plan, sweep, taken, was>>

Half == One \div 2
Corpora == { [K |-> 2, T |-> 2, words |-> <<<<2, 1>>, <<0, 3>>>>, a |-> <<Half, One>>, b |-> <<Half, Half>>],
             [K |-> 2, T |-> 3, words |-> <<<<1, 0, 1>>, <<1, 1, 0>>, <<0, 2, 1>>>>, a |-> <<3 * One, 2 * One>>, b |-> <<One, Half, One \div 10>>],
             [K |-> 3, T |-> 2, words |-> <<<<4, 0>>, <<0, 3>>, <<1, 1>>>>, a |-> <<One, Half, Half>>, b |-> <<One + 100000, One + 100000>>] }
\* topics to start from
Starts(T) == { [t \in 1..T |-> One], [t \in 1..T |-> t * One], [t \in 1..T |-> (T + 1 - t) * 3 * One + Half] }
NoPlan == [iterations |-> 0, burn |-> 0, thin |-> 0]
Phi(q) == {[k \in 1..q.K |-> [t \in 1..q.T |-> 100000000 \div q.T]], [k \in 1..q.K |-> [t \in 1..q.T |-> (2 * (1 + ((k + t) % q.T)) * (100000000 \div (q.T + 1))) \div q.T]]}

Init == \/ /\ phase = "learning" /\ corpus \in Corpora /\ c = corpus.a /\ w \in [1..corpus.K -> Starts(corpus.T)]
           /\ z = <<>> /\ plan = NoPlan /\ sweep = 0 /\ taken = <<>> /\ was = -2000000000
        \/ /\ phase = "drawing" /\ corpus \in Corpora /\ c = <<>> /\ w \in Phi(corpus) /\ z = Assignment(corpus.K, Len(corpus.words), 0)
           /\ plan = NoPlan /\ sweep = 0 /\ taken = <<>> /\ was = 0
        \/ /\ phase = "asked" /\ corpus = (CHOOSE q \in Corpora : TRUE) /\ c = <<>> /\ w = <<>> /\ z = <<>> /\ sweep = 0 /\ taken = <<>> /\ was = 0
           /\ plan \in [iterations : 1..MaxIter, burn : -1..3, thin : {-1} \cup (1..(MaxIter + 1))]
Now == Bound(corpus.a, corpus.b, c, w, corpus.words)
Learn == /\ phase = "learning" /\ sweep < Depth
         /\ z' = Members(c, w, corpus.words)
         /\ was' = Now /\ sweep' = sweep + 1
         /\ c' = Weights(corpus.K, corpus.a, z')
         /\ w' = WordParams(corpus.K, corpus.T, corpus.b, corpus.words, z')
         /\ UNCHANGED <<phase, corpus, plan, taken>>
Draw == phase = "drawing" /\ \E d \in 1..Len(z), k \in 1..corpus.K : k # z[d] /\ z' = [z EXCEPT ![d] = k] /\ UNCHANGED <<phase, corpus, c, w, plan, sweep, taken, was>>
Ask == /\ phase = "asked" /\ phase' = "running"
       /\ plan' = [iterations |-> plan.iterations, burn |-> Burn(plan.iterations, plan.burn), thin |-> Thin(plan.iterations, plan.thin)]
       /\ (Emit => PrintT("@@SCN " \o ToJson(plan)))
       /\ UNCHANGED <<corpus, c, w, z, sweep, taken, was>>
\* the sampler counts from zero
Sweep == /\ phase = "running" /\ sweep < plan.iterations /\ sweep' = sweep + 1
         /\ taken' = IF sweep > plan.burn /\ sweep > 0 /\ sweep % plan.thin = 0 THEN Append(taken, sweep + 1) ELSE taken
         /\ UNCHANGED <<phase, corpus, c, w, z, plan, was>>
Next == Learn \/ Draw \/ Ask \/ Sweep
Spec == Init /\ [][Next]_vars

Words == SumTo(Len(corpus.words), LAMBDA d : SumFun(corpus.words[d]))
Mass == phase = "learning" /\ sweep > 0 =>
  /\ Abs(SumFun(c) - SumFun(corpus.a) - Len(corpus.words) * One) <= 20
  /\ Abs(SumTo(corpus.K, LAMBDA k : SumFun(w[k])) - corpus.K * SumFun(corpus.b) - Words * One) <= 20 * Words
  /\ \A d \in 1..Len(z) : Abs(SumFun(z[d]) - One) <= corpus.K
Climbs == phase = "learning" => Now >= was - 200
Below == phase = "learning" => Now <= 200
\* relabelling the topics relabels the memberships
Swap(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Relabelled == phase = "learning" =>
  LET x == Members(c, w, corpus.words) y == Members(Swap(c), Swap(w), corpus.words)
  IN \A d \in 1..Len(x) : \A k \in 1..corpus.K : Abs(x[d][k] - Swap(y[d])[k]) <= 3
Stationary == phase = "drawing" =>
  \A d \in 1..Len(z) :
    LET q == Conditional(corpus.K, corpus.T, corpus.words, corpus.a, w, z, d)
        p == Normal([k \in 1..corpus.K |-> HeldBits(corpus.K, corpus.T, corpus.words, corpus.a, w, [z EXCEPT ![d] = k])])
    IN \A k \in 1..corpus.K : Abs(q[k] - p[k]) <= 60
\* the posterior, one document after another
Ahead(d) == [i \in 1..(d - 1) |-> z[i]]
Sequential == phase = "drawing" =>
  LET part(d) == LET m == WordsOf(corpus.K, corpus.T, corpus.words, Ahead(d)) n == Size(corpus.K, Ahead(d)) k == z[d]
                 IN Log2(corpus.a[k] + n[k] * One) + SumTo(corpus.T, LAMBDA t : Rising(corpus.b[t] + m[k][t] * One, corpus.words[d][t]))
                    - Rising(SumFun(corpus.b) + SumFun(m[k]) * One, SumFun(corpus.words[d]))
  IN Abs(PostBits(corpus.K, corpus.T, corpus.words, corpus.a, corpus.b, z) - SumTo(Len(z), part)) <= 2
Code(t) == SumTo(Len(t), LAMBDA i : (t[i] - 1) * Power(corpus.K, i - 1))
Numbered == phase = "drawing" => Assignment(corpus.K, Len(z), Code(z)) = z
Total1 == phase = "drawing" => Abs(SumFun(Posterior(corpus.K, corpus.T, corpus.words, corpus.a, corpus.b)) - One) <= Power(corpus.K, Len(z))
\* a sweep leaves the posterior, with the topics held, as it is
SweepKeeps == phase = "drawing" /\ z = Assignment(corpus.K, Len(corpus.words), 0) =>
  LET n == Power(corpus.K, Len(z))
      p == Held(corpus.K, corpus.T, corpus.words, corpus.a, w)
      go == [c1 \in 1..n |-> Swept(corpus.K, corpus.T, corpus.words, corpus.a, w, Assignment(corpus.K, Len(z), c1 - 1))]
  IN \A c2 \in 1..n : Abs(SumTo(n, LAMBDA c1 : Mul(p[c1], go[c1][c2])) - p[c2]) <= 40 + 4 * n
Prescribed == phase = "running" /\ sweep = plan.iterations =>
  /\ {taken[i] : i \in 1..Len(taken)} = Averaged(plan.iterations, plan.burn, plan.thin)
  /\ \A i \in 1..Len(taken) : taken[i] > plan.burn + 1
  /\ Kept(plan.iterations, plan.burn, plan.thin) # {}
=============================================================================
