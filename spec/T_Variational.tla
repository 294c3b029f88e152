--------------------------- MODULE T_Variational ---------------------------
(* Recorded variational training of LDA against Variational. states[i+1] is how things are after a run of
   i iterations from the same start *)
EXTENDS Variational, TLC
VARIABLES ti, l, st, bad

SInit(init) == init
Near(x, y, e) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Abs(x[i] - y[i]) <= e
NearM(x, y, e) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], e)
Whole(words) == SumTo(Len(words), LAMBDA d : SumFun(words[d]))
Longest(words) == Max({SumFun(words[d]) : d \in 1..Len(words)})

\* how exactly memberships are known, in units of 10^-6: Psi is steep at small parameters
Square(x) == IF x > 1000 THEN 1000000 ELSE x * x
Blur(w, f) == Max({IF f[k][t] > 0 /\ f[k][t] < 100000000 THEN Square(22360680 \div f[k][t] + 1) ELSE Square(700000 \div w[k][t] + 1)
                   : k \in 1..Len(w), t \in 1..Len(w[1])})
Least(a) == Max({Square(700000 \div a[k] + 1) : k \in 1..Len(a)})
Loose(q, s) == 40 + Blur(s.w, s.f) + Least(q.a)
\* in small batches errors grow on the way
Growth(q, p, words) == IF p.size = 0 THEN 1 ELSE 4 * Batches(Len(words), p.size) + Least(q.b) \div 4

IterationClause(q, ev, i, learning) ==
  LET old == ev.states[i] new == ev.states[i + 1]
      s == Iteration(q.a, q.b, ev.words, ev.plan, old, i - 1, learning)
      e == Loose(q, old) * Growth(q, ev.plan, ev.words)
      N == Whole(ev.words) D == Len(ev.words)
  IN CASE \E d \in 1..D : Abs(SumFun(new.m[d]) - SumFun(q.a) - SumFun(ev.words[d]) * One) > 5 + q.K -> "DocumentMass"
       [] learning /\ ev.plan.size = 0 /\ Abs(SumTo(q.K, LAMBDA k : SumFun(new.w[k])) - q.K * SumFun(q.b) - N * One) > 5 + q.K * q.T -> "WordMass"
       [] ~ learning /\ (new.w # old.w \/ new.f # old.f) -> "QueryChangedModel"
       [] e < 20000 /\ ~ NearM(new.m, s.m, e * Longest(ev.words)) -> "Documents"
       [] e < 20000 /\ ~ NearM(new.w, s.w, e * N) -> "Topics"
       [] OTHER -> ""
RunClause(q, ev, learning) ==
  LET n == Len(ev.states) - 1
      wrong == {i \in 1..n : IterationClause(q, ev, i, learning) # ""}
  IN CASE n # ev.iterations -> "Sweeps"
       [] wrong # {} -> IterationClause(q, ev, Min(wrong), learning)
       [] OTHER -> ""
\* whole corpus iterations: the bound they report, in units of 10^-3 bits, and that it does not fall
BoundClause(q, ev) ==
  LET n == Len(ev.bounds)
      ours(i) == Bound(q.a, q.b, ev.words, ev.states[i].w, ev.states[i].m) \div 100
      slack(i) == 10 + (Whole(ev.words) + q.K * q.T + Len(ev.words) * q.K) + (Blur(ev.states[i].w, ev.states[i].f) * q.K * q.T) \div 500
  IN CASE \E i \in 2..n : Abs(ev.bounds[i] - ours(i)) > slack(i) -> "Bound"
       [] ev.plan.size = 0 /\ \E i \in 3..n : ev.bounds[i] < ev.bounds[i - 1] - 1 -> "BoundFell"
       [] OTHER -> ""

SVerdict(q, ev) ==
  CASE ev.exc # "" -> "Raised" \o ev.exc
    [] ev.op = "learn" -> LET r == RunClause(q, ev, TRUE) IN IF r # "" THEN r ELSE BoundClause(q, ev)
    [] ev.op = "ask" -> RunClause(q, ev, FALSE)
    [] OTHER -> "UnknownOperation"
SNext(s, ev) == s
SEnd(s) == ""
INSTANCE TraceKit WITH TInit <- SInit, TVerdict <- SVerdict, TNext <- SNext, TEnd <- SEnd
=============================================================================
