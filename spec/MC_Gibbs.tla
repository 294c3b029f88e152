------------------------------ MODULE MC_Gibbs ------------------------------
(* First: for every assignment of the tokens of some small corpora, the conditionals that a sweep draws from
   are those of the posterior, so that drawing leaves the posterior as it is. Second: running plans, the
   samples that are averaged are those of the plan. *)
EXTENDS Gibbs, TLC, Json
CONSTANTS MaxIter, Emit
VARIABLES phase, corpus, z, plan, sweep, taken
vars == <<phase, corpus, z, plan, sweep, taken>>

Half == One \div 2
Corpora == { [K |-> 2, T |-> 2, lens |-> <<2, 1>>, w |-> <<1, 2, 1>>, a |-> <<Half, One>>, b |-> <<Half, Half>>],
             [K |-> 2, T |-> 2, lens |-> <<2, 2>>, w |-> <<1, 1, 1, 2>>, a |-> <<One \div 10, 2 * One>>, b |-> <<One, Half>>],
             [K |-> 3, T |-> 2, lens |-> <<3>>, w |-> <<1, 1, 2>>, a |-> <<One, Half, Half>>, b |-> <<Half, Half>>] }
Total(c) == Power(c.K, Len(c.w))
Post(c) == Posterior(c.K, c.T, c.lens, c.w, c.a, c.b)
NoPlan == [iterations |-> 0, burn |-> 0, thin |-> 0]

Init == \/ phase = "sweeping" /\ corpus \in Corpora /\ z = Assignment(corpus.K, Len(corpus.w), 0) /\ plan = NoPlan /\ sweep = 0 /\ taken = <<>>
        \/ phase = "asked" /\ corpus = (CHOOSE c \in Corpora : TRUE) /\ z = <<>> /\ sweep = 0 /\ taken = <<>>
           /\ plan \in [iterations : 1..MaxIter, burn : -1..3, thin : -1..(MaxIter + 1)]
Draw == phase = "sweeping" /\ \E i \in 1..Len(z), k \in 1..corpus.K : k # z[i] /\ z' = [z EXCEPT ![i] = k] /\ UNCHANGED <<phase, corpus, plan, sweep, taken>>
Ask == /\ phase = "asked" /\ phase' = "running"
       /\ plan' = [iterations |-> plan.iterations, burn |-> Burn(plan.iterations, plan.burn), thin |-> Thin(plan.iterations, plan.thin)]
       /\ (Emit => PrintT("@@SCN " \o ToJson(plan)))
       /\ UNCHANGED <<corpus, z, sweep, taken>>
\* the sampler counts the sweeps of each of its two phases from one
Burning == phase = "running" /\ sweep < plan.burn /\ sweep' = sweep + 1 /\ UNCHANGED <<phase, corpus, z, plan, taken>>
Sampling == /\ phase = "running" /\ sweep >= plan.burn /\ sweep < plan.burn + plan.iterations /\ sweep' = sweep + 1
            /\ taken' = IF (sweep + 1 - plan.burn) % plan.thin = 0 THEN Append(taken, sweep + 1) ELSE taken
            /\ UNCHANGED <<phase, corpus, z, plan>>
Next == Draw \/ Ask \/ Burning \/ Sampling
Spec == Init /\ [][Next]_vars

\* p(z) moved to z[i] = k is p(z) (1 - own part) ... : p(z with i at k) = p(i at k | others) sum over j of p(z with i at j)
Stationary == phase = "sweeping" =>
  LET bits(t) == PostBits(corpus.K, corpus.T, corpus.lens, corpus.w, corpus.a, corpus.b, t)
  IN \A i \in 1..Len(z) :
    LET c == Conditional(corpus.K, corpus.T, corpus.lens, corpus.w, corpus.a, corpus.b, z, i)
        p == Normal([k \in 1..corpus.K |-> bits([z EXCEPT ![i] = k])])
    IN \A k \in 1..corpus.K : Abs(c[k] - p[k]) <= 60
Code(t) == SumTo(Len(t), LAMBDA i : (t[i] - 1) * Power(corpus.K, i - 1))
Numbered == phase = "sweeping" => Assignment(corpus.K, Len(z), Code(z)) = z
Total1 == phase = "sweeping" => Abs(SumFun(Post(corpus)) - One) <= Total(corpus)
Tallies == phase = "sweeping" =>
  LET dk == NDK(corpus.K, corpus.lens, z) kv == NKV(corpus.K, corpus.T, corpus.w, z) nk == NK(corpus.K, z)
  IN /\ \A d \in 1..Len(corpus.lens) : SumFun(dk[d]) = corpus.lens[d]
     /\ \A k \in 1..corpus.K : SumFun(kv[k]) = nk[k] /\ SumTo(Len(dk), LAMBDA d : dk[d][k]) = nk[k]
     /\ \A v \in 1..corpus.T : SumTo(corpus.K, LAMBDA k : kv[k][v]) = Cardinality({i \in 1..Len(z) : corpus.w[i] = v})
     /\ \A d \in 1..Len(dk) : Abs(SumFun(Mixtures(corpus.K, corpus.lens, z, corpus.a)[d]) - One) <= corpus.K
Distinct == phase = "running" => \A i, j \in 1..Len(taken) : i < j => taken[i] < taken[j]
Prescribed == phase = "running" /\ sweep = plan.burn + plan.iterations =>
  /\ {taken[i] : i \in 1..Len(taken)} = Taken(plan.iterations, plan.burn, plan.thin)
  /\ Len(taken) = plan.iterations \div plan.thin /\ Len(taken) >= 1
NoneBurnt == phase = "running" => \A i \in 1..Len(taken) : taken[i] > plan.burn
=============================================================================
