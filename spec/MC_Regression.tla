---------------------------- MODULE MC_Regression ----------------------------
(* First: drawing topics from the conditionals of documents with priors of their own leaves the posterior as it
   is. Second: the slope of the weights is that of their probability, and a topic whose counts exceed what
   its prior expects has its weights raised. Third: what a plan's sweeps see and which of them are sampled. *)
EXTENDS Regression, TLC, Json
CONSTANTS MaxIter, Emit
VARIABLES phase, corpus, z, w, plan, sweep, taken, updates, kept
vars == <<phase, corpus, z, w, plan, sweep, taken, updates, kept>>

Half == One \div 2
Corpora == { [K |-> 2, T |-> 2, lens |-> <<2, 1>>, w |-> <<1, 2, 1>>, A |-> <<<<Half, One>>, <<2 * One, Half>>>>, b |-> <<Half, Half>>],
             [K |-> 3, T |-> 2, lens |-> <<2, 1>>, w |-> <<1, 1, 2>>, A |-> <<<<One, Half, Half>>, <<Half, Half, 3 * One>>>>, b |-> <<Half, One>>] }
X == << <<One, 0>>, <<One, One>>, <<-Half, 2 * One>> >>
Lens == <<3, 2, 4>>
Counts == << << <<2, 1>>, <<0, 2>>, <<4, 0>> >>, << <<3, 0>>, <<1, 1>>, <<3, 1>> >> >>
Old == << <<One \div 10, -One \div 5>>, <<Half, One \div 20>> >>
Grid == {-600000, -100000, 0, 250000, 700000}
NoPlan == [iterations |-> 0, burn |-> 0, thin |-> 0, update |-> 0]
c0 == CHOOSE c \in Corpora : TRUE

Init == \/ phase = "sweeping" /\ corpus \in Corpora /\ z = Assignment(corpus.K, Len(corpus.w), 0) /\ w = <<0, 0>> /\ plan = NoPlan /\ sweep = 0 /\ taken = <<>> /\ updates = <<>> /\ kept = 0
        \/ phase = "weights" /\ corpus = c0 /\ z = <<>> /\ w = <<-600000, -600000>> /\ plan = NoPlan /\ sweep = 0 /\ taken = <<>> /\ updates = <<>> /\ kept = 0
        \/ phase = "asked" /\ corpus = c0 /\ z = <<>> /\ w = <<0, 0>> /\ sweep = 0 /\ taken = <<>> /\ updates = <<>> /\ kept = 0
           /\ plan \in {p \in [iterations : 1..MaxIter, burn : -1..3, thin : {-1, 1, 2, 3}, update : {-1, 2, 3, 5}] :
                           /\ p.burn < p.iterations
                           /\ RThin(p.iterations, p.burn, p.thin) <= RUpdate(p.iterations, p.burn, p.thin, p.update)}
Draw == phase = "sweeping" /\ \E i \in 1..Len(z), k \in 1..corpus.K : k # z[i] /\ z' = [z EXCEPT ![i] = k] /\ UNCHANGED <<phase, corpus, w, plan, sweep, taken, updates, kept>>
Weigh == phase = "weights" /\ \E f \in 1..2, v \in Grid : v # w[f] /\ w' = [w EXCEPT ![f] = v] /\ UNCHANGED <<phase, corpus, z, plan, sweep, taken, updates, kept>>
Ask == /\ phase = "asked" /\ phase' = "burning"
       /\ plan' = [iterations |-> RSweeps(plan.iterations, plan.burn), burn |-> RBurn(plan.iterations, plan.burn),
                   thin |-> RThin(plan.iterations, plan.burn, plan.thin), update |-> RUpdate(plan.iterations, plan.burn, plan.thin, plan.update)]
       /\ (Emit => PrintT("@@SCN " \o ToJson(plan)))
       /\ UNCHANGED <<corpus, z, w, sweep, taken, updates, kept>>
Burning == phase = "burning" /\ kept < plan.burn /\ kept' = kept + 1 /\ UNCHANGED <<phase, corpus, z, w, plan, sweep, taken, updates>>
Burnt == phase = "burning" /\ kept = plan.burn /\ phase' = "running" /\ kept' = 0 /\ UNCHANGED <<corpus, z, w, plan, sweep, taken, updates>>
\* kept counts the sweeps since the last update
Sampling == /\ phase = "running" /\ sweep < plan.iterations /\ kept < plan.update
            /\ sweep' = sweep + 1 /\ kept' = kept + 1
            /\ taken' = IF (kept + 1) % plan.thin = 0 THEN Append(taken, sweep + 1) ELSE taken
            /\ UNCHANGED <<phase, corpus, z, w, plan, updates>>
Update == /\ phase = "running" /\ kept > 0 /\ (kept = plan.update \/ sweep = plan.iterations)
          /\ kept' = 0 /\ updates' = Append(updates, [at |-> sweep, from |-> taken])
          /\ UNCHANGED <<phase, corpus, z, w, plan, sweep, taken>>
Next == Draw \/ Weigh \/ Ask \/ Burning \/ Burnt \/ Sampling \/ Update
Spec == Init /\ [][Next]_vars

Stationary == phase = "sweeping" =>
  LET bits(t) == OwnBits(corpus.K, corpus.T, corpus.lens, corpus.w, corpus.A, corpus.b, t)
  IN \A i \in 1..Len(z) :
    LET c == OwnConditional(corpus.K, corpus.T, corpus.lens, corpus.w, corpus.A, corpus.b, z, i)
        p == Normal([k \in 1..corpus.K |-> bits([z EXCEPT ![i] = k])])
    IN \A k \in 1..corpus.K : Abs(c[k] - p[k]) <= 60
Whole == phase = "sweeping" => \A d \in 1..Len(corpus.lens) : Abs(SumFun(OwnMixtures(corpus.K, corpus.lens, z, corpus.A)[d]) - One) <= corpus.K

P(k, v) == Probable(X, Lens, Counts, Old, k, v)
h == 20000
\* in 10^-5 bits for a step of 0.04
Derivative == phase = "weights" => \A k \in 1..2 : LET g == Slope(X, Lens, Counts, Old, k, w) IN
  \A f \in 1..2 : LET d == P(k, [w EXCEPT ![f] = @ + h]) - P(k, [w EXCEPT ![f] = @ - h]) IN
     Abs(d * 25 - g[f]) <= 3000 + Abs(g[f]) \div 400
\* exponentials: of a sum, and of zero
Exponentials == phase = "weights" =>
  /\ Exp6(0) = One
  /\ Abs(Mul6(Exp6(w[1]), Exp6(w[2])) - Exp6(w[1] + w[2])) <= 60
  /\ w[1] > 0 => Exp6(w[1]) > One + w[1]
  /\ w[1] < 0 => Exp6(w[1]) < One /\ Exp6(w[1]) > One + w[1]
Prescribed == phase = "running" => {taken[i] : i \in 1..Len(taken)} = Sampled(sweep, plan.thin, plan.update)
Allotted == phase = "running" => Len(taken) <= plan.iterations \div plan.thin
Ends == phase = "running" /\ sweep = plan.iterations => Len(taken) >= 1
\* the weights seen by a sweep were made from all the samples taken before
Fresh == phase = "running" /\ sweep > 0 /\ kept > 0 =>
  IF Since(sweep, plan.update) = 0 THEN updates = <<>>
  ELSE /\ updates[Len(updates)].at = Since(sweep, plan.update)
       /\ updates[Len(updates)].from = SelectSeq(taken, LAMBDA m : m <= Since(sweep, plan.update))
=============================================================================
