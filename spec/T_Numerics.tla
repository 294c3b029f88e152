----------------------------- MODULE T_Numerics -----------------------------
(* Overflow-safe numerics. Inputs are chosen so that the exact answers are rational: x = ln(n) + shift
   for whole n, or multiples of ln 2; results are recorded as proportions, in units of ln 2, or after
   exponentiation, in fixed point. *)
EXTENDS Integers, Sequences, Sums, TLC
VARIABLES ti, l, st, bad

S == 100000
GONE == -1000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow(_)
Pow(n) == IF n <= 0 THEN 1 ELSE 2 * Pow(n - 1)
Sum(q) == SumFun([i \in 1..Len(q) |-> q[i]])
Single(ev) == ev.dtype = "float32"

\* got (in units of 1/scale) is want up to rounding: one unit, plus a part of it
Close(got, want, ev) == LET t == Abs(got - want) IN t <= 2 + (IF Single(ev) THEN Abs(want) \div 10000 ELSE Abs(want) \div 10000000)

\* res / S = n / total
Proportions(ev) == \A i \in 1..Len(ev.n) : Len(ev.res[i]) = Len(ev.n[i]) /\
  \A j \in 1..Len(ev.n[i]) : Abs(ev.res[i][j] * Sum(ev.n[i]) - S * ev.n[i][j]) <= (IF Single(ev) THEN 6 ELSE 1) * Sum(ev.n[i])

Softmax(ev) ==
  CASE Len(ev.res) # Len(ev.n) -> "SoftmaxShape"
    [] ~ Proportions(ev) -> "SoftmaxProportions"
    [] ev.touched -> "SoftmaxInputUntouched"
    [] ~ ev.returnsOut -> "SoftmaxOutput"
    [] OTHER -> ""

Lse(ev) == IF Len(ev.res) = Len(ev.n) /\ \A i \in 1..Len(ev.n) : Close(ev.res[i], 1000 * Sum(ev.n[i]), ev) THEN "" ELSE "LogSumExp"

MinLog(ev) == IF Single(ev) THEN -110 ELSE -990
\* nothing, or less than the least number whose logarithm is promised
Vanishes(ev, i, j) == ev.e[i][j] = GONE \/ (ev.op = "safelog" /\ ev.e[i][j] < MinLog(ev))
SafeLog(ev) ==
  CASE \E i \in 1..Len(ev.e) : \E j \in 1..Len(ev.e[i]) :
         ~ Vanishes(ev, i, j) /\ ~ Close(ev.res[i][j], 1000 * ev.e[i][j], ev) -> "LogOfPositive"
    [] ev.op = "safelog" /\ \E i \in 1..Len(ev.e) : \E j \in 1..Len(ev.e[i]) :
         Vanishes(ev, i, j) /\ (ev.res[i][j] > 1000 * MinLog(ev) \/ ev.res[i][j] < -1100000) -> "LogOfZeroFiniteAndLeast"
    [] ev.op = "xlogx" /\ \E i \in 1..Len(ev.e) : \E j \in 1..Len(ev.e[i]) : ev.e[i][j] = GONE /\ ev.res[i][j] # 0 -> "ZeroTimesLogZero"
    [] ev.touched -> "LogInputUntouched"
    [] ~ ev.returnsOut -> "LogOutput"
    [] OTHER -> ""

LogOnePlus(ev) ==
  LET ok(i) == LET g == ev.res[i]  v == ev.v[i] IN
        CASE ev.regime \in {"exact", "big"} -> Close(g, 1000 * v, ev)
          [] ev.regime = "half"   -> Close(g, -1000 * v, ev)
          [] ev.regime = "middle" -> Close(g, 1000 * (v + 1), ev)
          [] ev.regime = "small"  -> Abs(g - 1000) <= 2
          [] ev.regime = "tiny"   -> g = 0
          [] OTHER -> FALSE
  IN CASE Len(ev.res) # Len(ev.v) -> "LogOnePlusShape"
       [] \E i \in 1..Len(ev.v) : ~ ok(i) -> "LogOnePlus" \o ev.regime
       [] ev.touched -> "LogOnePlusInputUntouched"
       [] OTHER -> ""

\* k < 1 stands for an element so negative that it contributes nothing
ScaledSum(ev) ==
  LET want == SumFun([i \in 1..Len(ev.k) |-> ev.w[i] * SumFun([j \in 1..Len(ev.k[i]) |-> IF ev.k[i][j] < 1 THEN 0 ELSE ev.k[i][j]])])
  IN IF Close(ev.res, 100 * want, ev) THEN "" ELSE "ScaledSumOfLogs"

(* every row's exponentials sum to a power of two; in 64ths *)
RowDot(row, shift) ==
  LET tot == SumFun([j \in 1..Len(row) |-> IF row[j] = GONE THEN 0 ELSE Pow(row[j])])
  IN SumFun([j \in 1..Len(row) |-> IF row[j] = GONE THEN 0 ELSE (row[j] + shift) * Pow(row[j]) * (64 \div tot)])
SoftDot(ev) ==
  LET want == SumFun([i \in 1..Len(ev.e) |-> (IF ev.scale = <<>> THEN 1 ELSE ev.scale[i]) * RowDot(ev.e[i], ev.shift[i])])
      \* size of what is added up, for rounding
      mag == SumFun([i \in 1..Len(ev.e) |-> (IF ev.scale = <<>> THEN 1 ELSE Abs(ev.scale[i])) * Abs(RowDot(ev.e[i], ev.shift[i]))])
  IN CASE Abs(64 * ev.res - 100 * want) > 128 + (IF Single(ev) THEN mag \div 50 ELSE 0) -> "SelfSoftDot"
       [] ev.touched -> "SelfSoftDotInputUntouched"
       [] OTHER -> ""

(* topics: rows of powers of two which sum to one; vocabulary 2^-v: sum of (a + v) 2^-(a + v), in 4096ths *)
Entropy(ev) ==
  LET tot(d) == SumFun([k \in 1..Len(ev.t[d]) |-> Pow(ev.t[d][k])])
      a(d, k) == CHOOSE m \in 0..12 : Pow(m) * Pow(ev.t[d][k]) = tot(d)
      want == SumFun([d \in 1..Len(ev.t) |-> SumFun([k \in 1..Len(ev.t[d]) |-> SumFun([w \in 1..Len(ev.v[k]) |->
                LET m == a(d, k) + ev.v[k][w] IN m * Pow(12 - m)])])])
  IN IF Abs(4096 * (ev.res \div 10) - 100 * want) <= 2 * 4096 + (IF Single(ev) THEN want \div 50 ELSE 0) THEN "" ELSE "EntropyOfDot"

NormRows(ev) ==
  CASE ~ Proportions(ev) -> "RowsNormalised"
    [] ~ ev.inplace -> "RowsNormalisedInPlace"
    [] OTHER -> ""

\* tangent of the angle, in 100000ths
Tan(eps) == CASE eps = 0 -> 0 [] eps = 10 -> 17633 [] eps = 45 -> 100000 [] eps = 1 -> 1746 [] OTHER -> 0
Converged(ev) ==
  LET want == /\ ev.idx >= 2 /\ ev.iters[ev.idx] >= ev.min
              /\ (ev.vals[ev.idx] - ev.vals[ev.idx - 1]) * 100000 < Tan(ev.eps) * (ev.iters[ev.idx] - ev.iters[ev.idx - 1])
  IN IF ev.res = want THEN "" ELSE "Convergence"

Clamp(ev) ==
  CASE ev.res # [i \in 1..3 |-> SubSeq(ev.arrs[i], 1, ev.length)] -> "ClampedPrefixes"
    [] ~ ev.dtypeSame -> "ClampedTypes"
    [] ev.touched -> "ClampCopies"
    [] OTHER -> ""

Det(ev) ==
  CASE ev.fn = "safe" /\ ~ ev.positive -> "SafeDetPositive"
    [] ev.fn = "safe" /\ ev.sign # 1 -> IF ev.minute THEN "" ELSE "SafeDetOfSingular"
    [] Close(ev.res, 1000 * Sum(ev.diag), ev) -> ""
    [] OTHER -> "Determinant"

NumVerdict(s, ev) ==
  IF ev.exc # "" THEN "Raised" \o ev.exc
  ELSE CASE ev.op = "softmax" -> Softmax(ev)
         [] ev.op = "lse" -> Lse(ev)
         [] ev.op \in {"safelog", "xlogx"} -> SafeLog(ev)
         [] ev.op = "log1p" -> LogOnePlus(ev)
         [] ev.op = "scaledsum" -> ScaledSum(ev)
         [] ev.op = "softdot" -> SoftDot(ev)
         [] ev.op = "entropy" -> Entropy(ev)
         [] ev.op = "normrows" -> NormRows(ev)
         [] ev.op = "converged" -> Converged(ev)
         [] ev.op = "clamp" -> Clamp(ev)
         [] ev.op = "constant" -> IF ev.gotShape = ev.shape /\ ev.vals = <<ev.val>> /\ ev.dtypeSame THEN "" ELSE "ConstantArray"
         [] ev.op = "todense" -> IF ev.res = ev.a /\ ev.plain THEN "" ELSE "PlainDenseArray"
         [] ev.op = "det" -> Det(ev)
         [] OTHER -> "UnknownOperation"
NumInit(init) == 0
NumNext(s, ev) == s
NumEnd(s) == ""
INSTANCE TraceKit WITH TInit <- NumInit, TVerdict <- NumVerdict, TNext <- NumNext, TEnd <- NumEnd
=============================================================================
