--------------------------- MODULE MC_Correlated ---------------------------
(* Learning: from every start, and whatever the documents' shares, sweeps make topics distributions, never
   lower the likelihood (where there is no prior), and don't mind how documents, words and topics are numbered.
   Asked: where the loop takes measurements, and when it may give up. *)
EXTENDS Correlated, TLC, Json
CONSTANTS MaxIter, MaxEvery, Depth, Priors, Heavy, Emit
VARIABLES phase, words, y, c, prior, plan, sweep, taken
vars == <<phase, words, y, c, prior, plan, sweep, taken>>

Corpora == { <<<<2, 1>>, <<0, 3>>>>, <<<<1, 0, 1>>, <<1, 1, 0>>, <<0, 2, 1>>>>, <<<<4, 0, 1>>, <<0, 0, 0>>>>, <<<<3, 1>>>> }
K == 2
Share == {<<h, E8 - h>> : h \in Heavy}
Starts(T) == { [t \in 1..T |-> E8 \div T], [t \in 1..T |-> (2 * t * (E8 \div T)) \div (T + 1)], [t \in 1..T |-> (2 * (T + 1 - t) * (E8 \div T)) \div (T + 1)] }

Init == \/ /\ phase = "learning" /\ words \in Corpora /\ y \in [1..Len(words) -> Share] /\ c \in [1..K -> Starts(Len(words[1]))]
           /\ prior \in Priors /\ plan = [n |-> 0, f |-> 0] /\ sweep = 0 /\ taken = <<>>
        \/ /\ phase = "asked" /\ words = <<>> /\ y = <<>> /\ c = <<>> /\ prior = 0 /\ sweep = 0 /\ taken = <<>>
           /\ plan \in [n : 1..MaxIter, f : 0..MaxEvery]
After(w, yy, cc) == [k \in 1..K |-> Relearnt(w, yy, cc, prior, k)]
Wide(rows) == [k \in DOMAIN rows |-> [t \in DOMAIN rows[k] |-> 100 * rows[k][t]]]
Learn == /\ phase = "learning" /\ sweep < Depth /\ Plain(words, y, c)
         /\ c' = Wide(After(words, y, c)) /\ sweep' = sweep + 1 /\ UNCHANGED <<phase, words, y, prior, plan, taken>>
Ask == /\ phase = "asked" /\ phase' = "running" /\ (Emit => PrintT("@@SCN " \o ToJson(plan))) /\ UNCHANGED <<words, y, c, prior, plan, sweep, taken>>
Sweep == /\ phase = "running" /\ sweep < plan.n /\ sweep' = sweep + 1
         /\ taken' = IF plan.f > 0 /\ sweep % plan.f = 0 THEN Append(taken, sweep) ELSE taken
         /\ UNCHANGED <<phase, words, y, c, prior, plan>>
Next == Learn \/ Ask \/ Sweep
Spec == Init /\ [][Next]_vars

Near(a, b, e) == \A k \in 1..Len(a) : \A t \in 1..Len(a[k]) : Abs(a[k][t] - b[k][t]) <= e
Swap(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SwapAll(r) == [k \in 1..Len(r) |-> Swap(r[k])]
Learning == phase = "learning" /\ Plain(words, y, c)
\* a topic that accounts for nothing, with no prior, is left with nothing
Live(k) == prior > 0 \/ SumTo(Len(words[1]), LAMBDA t : Expected(words, y, c, k, t)) > 1000
Distributions == Learning => \A k \in 1..K : Live(k) =>
  /\ Abs(SumFun(Relearnt(words, y, c, prior, k)) - One) <= Len(words[1])
  /\ \A t \in 1..Len(words[1]) : Relearnt(words, y, c, prior, k)[t] >= 0
\* every occurrence is accounted for, once
Accounted == Learning => \A d \in 1..Len(words) : \A t \in 1..Len(words[d]) :
  words[d][t] > 0 => Abs(SumTo(K, LAMBDA k : Account(y, c, d, k, t)) - One) <= K + (4 * One) \div WordProb(y[d], c, t)
Climbs == Learning /\ prior = 0 /\ (\A k \in 1..K : Live(k)) =>
  LET n == Wide(After(words, y, c)) IN
  AllClear(FALSE, words, y, n) => Bits2(FALSE, words, y, n) >= Bits2(FALSE, words, y, c) - 8 - Slack2(FALSE, words, y, c) - Slack2(FALSE, words, y, n)
\* numbering
Topics    == Learning => Near(After(words, [d \in 1..Len(y) |-> Swap(y[d])], Swap(c)), Swap(After(words, y, c)), 3)
Documents == Learning => Near(After(Swap(words), Swap(y), c), After(words, y, c), 3)
Words     == Learning => Near(After(SwapAll(words), y, SwapAll(c)), SwapAll(After(words, y, c)), 3)
\* what two documents with the same shares contain may as well be one document
Joined == Learning /\ Len(words) > 1 /\ y[1] = y[2] =>
  LET w == <<[t \in 1..Len(words[1]) |-> words[1][t] + words[2][t]]>> \o SubSeq(words, 3, Len(words))
  IN Near(After(w, Tail(y), c), After(words, y, c), 3)
\* the prior is what is learnt from nothing
Nothing == Learning /\ prior > 0 => \A k \in 1..K :
  LET none == [d \in 1..Len(words) |-> [t \in 1..Len(words[d]) |-> 0]]
  IN \A t \in 1..Len(words[1]) : Abs(Relearnt(none, y, c, prior, k)[t] - One \div Len(words[1])) <= 1
Taken == phase = "running" /\ sweep = plan.n => taken = Measured(plan.n, plan.f)
Further == phase = "asked" => LET p == Measured(plan.n, plan.f) q == Measured(plan.n + 1, plan.f)
                              IN Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p)) /\ Len(q) <= Len(p) + 1
Proportions == phase = "learning" => \A b \in {<<0, 0>>, <<100000, 0>>, <<-250000, 30000>>, <<0, 2000000>>} :
  /\ Abs(SumFun(Shares(b)) - One) <= 2
  /\ \A s \in {-700000, 0, 1234567} : Shares([i \in 1..2 |-> b[i] + s]) = Shares(b)
  /\ Shares(Swap(b)) = Swap(Shares(b))
=============================================================================
